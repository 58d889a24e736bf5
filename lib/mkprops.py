"""writes properties.jsonl and MANIFEST.json (run by hand when the list changes)"""
import json
from pathlib import Path
R = Path(__file__).resolve().parent.parent
C, E, O, T, TE, TO, H = ("src/ami_base_construct.cpp", "src/ami_base_evaluate.cpp", "src/ami_base_optimize.cpp", "src/ami_base_terms.cpp",
                         "src/ami_base_terms_evaluate.cpp", "src/ami_base_terms_optimize.cpp", "src/ami_base.hpp")
def m(*xs): return [dict(name=a, where=b) for a, b in xs]
def st(*xs): return [dict(name=a, meaning=b, where=c) for a, b, c in xs]
TESTS = "The tests evaluate a handful of fixed diagrams at fixed points"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=m(*mech), observe_at=list(obs), hook_needed=None))
    if state: d["anchors"]["state"] = st(*state)
    P.append(d)

prop("C01", "S-P-R construction and evaluation give the exact Matsubara sum",
 "For every product of bare Green's functions (coefficients 0, +1, -1 of the frequencies throughout the integration, no statistical or propagator denominator exactly zero) and every number of summed frequencies, constructing the S, P, R arrays and evaluating them returns the value of the Matsubara sum as given by the residue theorem, at every temperature, energies (also complex) and external frequencies. The symbolic arrays themselves equal that residue sum as a function, not only at Matsubara points. The result is accurate to rounding relative to the size of the contributions.",
 ["inputs", "programs"], "all integrands (number of lines, coefficients, energy patterns, repeated lines, orientation), all numbers of integrations, all evaluation points including low temperature",
 TESTS + " (four integrands); a wrong sign, multiplicity or pole in another topology is not reached.",
 [C, E], [("construct", C), ("update_gprod_general", C), ("evaluate_general_residue", C), ("dot/cross/star/fermi", E)],
 [("R, P, S", "products of lines, poles and signs after every integration", H)], ["evaluate(parms, R, P, S, external)"])
prop("C02", "Term-by-term construction and evaluation give the exact Matsubara sum",
 "For the same integrands, constructing a list of terms and evaluating it returns the exact Matsubara sum, and so agrees with the S-P-R evaluation. The terms, as a function, equal the residue sum.",
 ["inputs", "programs"], "all integrands, numbers of integrations and evaluation points",
 TESTS + "; agreement of both formulations is compared on two diagrams only.",
 [T, TE], [("construct", T), ("integrate_step", T), ("terms_general_residue", T), ("take_term_derivative", T), ("evaluate", TE)],
 [("terms", "sign, poles and lines of every term", H)], ["evaluate(parms, terms, external)"])
prop("C03", "Factorizing S-P-R results preserves the value and stores nothing twice",
 "The optimized evaluation of a factorized S-P-R result returns the exact value. In the factorized form every product of the result is represented exactly once with the correct relative sign, no Green's function is stored twice (also not up to an overall sign) and no product of them is stored twice.",
 ["inputs"], "all results of construction: any number of products, repeated lines, empty products, opposite orientations",
 "The tests factorize two results and compare single values, which mostly do not notice wrong signs of absent patterns, duplicates or misaligned lists.",
 [O, E], [("factorize_Rn", O), ("reduce_rref", O), ("pair_v_equiv", O), ("g_struct_equiv", O), ("optimized_star", E)],
 [("unique_g, Rref, Eval_list", "the factorized form", H)], ["factorize_Rn", "evaluate(..., unique_g, Rref, Eval_list)"])
prop("C04", "Factorizing terms preserves the value and stores nothing twice",
 "The optimized evaluation of factorized terms, also of the terms of several constructions put together, returns the exact value. Every term is represented exactly once with the correct relative sign, and neither a Green's function (up to sign) nor a product is stored twice.",
 ["inputs"], "all lists of terms from one or several constructions", "The tests factorize the terms of two integrands.",
 [TO, TE, O], [("factorize_terms", TO), ("evaluate", TE)], [("unique_g, Rref, Eval_list", "the factorized form", H)], ["factorize_terms", "evaluate(parms, terms, external, unique_g, Rref, Eval_list)"])
prop("C05", "Poles of any multiplicity are integrated exactly",
 "When Green's functions coincide, in either orientation and before or after other frequencies have been summed, the resulting poles of higher order (with derivatives of statistical factors from several integrations in one term) give the exact value of the Matsubara sum on every evaluation route: S-P-R, terms, both factorized ones, and on-the-fly.",
 ["inputs"], "integrands with repeated lines: multiplicities up to 7, nested over several integrations", "The tests contain only simple and a few double poles.",
 [C, T, E], [("take_derivatives / evaluate_general_residue", C), ("take_term_derivative", T), ("fermi_bose", E)], (), ["all evaluate overloads"])
prop("C06", "Fermi and Bose functions and their derivatives are exact",
 "The Fermi and Bose functions and their derivatives of every order, at every temperature and every real or complex energy away from their poles, have the exact value to rounding, also where the exponential overflows or underflows. The statistical factor of a pole uses the statistics and sign that follow from the frequencies it contains.",
 ["inputs"], "derivative order 0..13, both statistics, beta*E from -10^4 to 10^4, complex energies; all poles and graph types",
 "The tests compare a few low orders at single points.", [E], [("fermi_bose", E), ("fermi_pole", E), ("frk", E), ("get_energy_from_pole", E)], (), ["fermi_bose", "fermi_pole"])
prop("C07", "The statistics of the external frequency follow the graph type",
 "For every graph type (self energy, particle-hole and particle-particle bubbles, densities, double occupancy, ...) the last frequency is bosonic or fermionic as the type says, during construction and during evaluation, and the value is the exact Matsubara sum with these statistics on every route; double occupancy sums its last frequency as a bosonic one.",
 ["inputs", "configurations"], "all graph types, integrands and evaluation points", "The tests evaluate self energies almost only.",
 [C, T, E], [("bosonic_external / find_poles", C), ("fermi_pole", E)], [("ami_parms::TYPE_", "graph type", H)], ["construct", "evaluate"])
prop("C08", "On-the-fly evaluation is exact when energies coincide numerically",
 "When energies, real or complex, take values for which poles that are symbolically different coincide, evaluating on the fly returns the finite value that constructing the integrand with the coinciding energies identified would give; when nothing coincides it returns the ordinary value.",
 ["inputs"], "all coincidence patterns of energies, on all integrands", "One test evaluates one diagram at one degenerate point.",
 [E], [("evaluate_otf", E), ("collect_triggers / otf pairs", E)], (), ["evaluate_otf"])
prop("C09", "Options do exactly what they say and nothing else",
 "Dropping divergent Bose functions removes exactly those Bose functions at zero energy, dropping derivatives exactly the differentiated statistical factors, dropping Matsubara poles at construction exactly the zero-energy poles at Matsubara frequencies, the external-boson flag changes the statistics of the last frequency as documented, and the energy regulator shifts energies away from zero by its value; on every evaluation route and in every combination.",
 ["configurations", "inputs"], "all combinations of the flags and regulators, integrands with lines without energy", "No test sets any of these options.",
 [E, C, T], [("fermi_pole", E), ("find_poles", C)], [("drop_bosonic_diverge, drop_der, drop_matsubara_poles, bosonic_external, E_REG_", "options", H)], ["evaluate", "construct"])
prop("C10", "The overflow flag tells whether the last evaluation overflowed",
 "After an evaluation the overflow flag is set if the value, or a derivative of a statistical factor, is beyond the precision cutoff, and it is clear if everything that enters the evaluation is far below the cutoff, whatever happened before; for S-P-R, terms and both factorized evaluations.",
 ["histories", "inputs"], "sequences of evaluations with changing cutoffs, points close to and far from singularities", "No test provokes an overflow.",
 [E, TE], [("overflow_detected", E), ("precision_cutoff", E)], [("overflow_detected, precision_cutoff", "flag and limit", H)], ["overflow_detected after evaluate"])
prop("C11", "Results do not depend on history, on reused containers or on other threads",
 "The outcome of every operation depends only on its arguments and the object's options: containers that held other results can be reused, evaluations change neither their arguments nor the constructed results, repeating an evaluation gives the identical value, debugging output changes nothing, and objects used in different threads do not influence one another.",
 ["histories", "schedules"], "all sequences of public operations on a few containers; several threads with an object each", "Every test uses fresh objects and containers, once, in one thread.",
 [C, T, TE, E, O], [("clearing of output arguments", C), ("value parameters", E)], [("AmiBase members", "options and flags of an object", H)], ["all public operations"])
prop("C12", "The prefactor multiplies the result exactly once on every route",
 "Every evaluation is linear in the prefactor of the external variables: the value is the prefactor times the value at prefactor one, for S-P-R, terms, both factorized evaluations and the on-the-fly one, for positive, negative, fractional and zero prefactors, with any number of integrations, also none.",
 ["inputs"], "all prefactors, integrands and routes", "All tests use prefactor one.", [E, TE], [("eval_gprod", E), ("optimized_star", E), ("evaluate_term", TE)],
 [("ami_vars::prefactor", "prefactor", H)], ["evaluate"])
prop("C13", "The multiprecision build agrees with the exact results too",
 "Built with multiprecision arithmetic, the library gives the same symbolic results and the exact values, on every evaluation route and for statistical functions of every order.",
 ["configurations", "inputs"], "integrands, routes, points and statistics as for the ordinary build", "The tests are built for the ordinary arithmetic only.",
 [E, TE], [("eval_gprod_mp", E), ("#ifdef BOOST_MP branches", E)], (), ["the library built with BOOST_MP"])
prop("C14", "The Python module computes what the library computes",
 "Construction, evaluation, factorization and optimized evaluation through the Python module, with objects made by constructors or by setting attributes, give the same exact results as the C++ interface, leave their arguments unchanged, and let results be read back completely.",
 ["inputs", "histories"], "integrands, points, prefactors and regulators; containers reused", "No test imports the Python module.",
 ["pyami_src/pyami_wrapper.cpp", "pyami_src/pyami.cpp", H], [("bindings", "pyami_src/pyami_wrapper.cpp")], (), ["pyami.AmiBase"])
prop("C15", "The constructed arrays fit together and contain no summed frequency",
 "After every integration, in any order of the frequencies, the arrays R, P, S have one entry per step, with as many poles and signs for every product as that product has residues and as many products afterwards as poles in total; no line depends on a frequency already summed; and the arrays after each step represent the partial sum.",
 ["inputs", "histories"], "all integrands and orders of integration, after every single step", "The tests compare the number of products of three integrands.",
 [C], [("update_gprod_general", C), ("construct", C)], [("R, P, S", "arrays", H)], ["R, P, S after construct and after update_gprod_general"])
prop("C16", "Poles, residues, substitutions and derivatives are algebraically exact",
 "For any product of lines, finding poles yields every pole in the given frequency once, with its multiplicity and the lines it comes from; the residues taken at all poles sum to the exact partial sum in both interfaces; substituting a pole and differentiating a term (statistical factors included) are exact.",
 ["inputs"], "arbitrary products of lines, poles, terms and derivative orders", "The tests look at the number of poles of one product.",
 [C, T], [("find_poles", C), ("evaluate_general_residue", C), ("take_derivative_gprod", C), ("take_term_derivative", T), ("update_G_pole", C), ("update_Z_pole", C)], (),
 ["find_poles", "terms_general_residue", "evaluate_general_residue", "take_term_derivative", "take_derivative_gprod", "update_G_pole", "update_Z_pole"])
prop("C17", "The derivative of a factorized result is the exact derivative",
 "Differentiating a factorized result by the last external frequency, once or repeatedly, gives the exact derivative of the products as functions, and the optimized evaluations then return the derivative of the Matsubara sum by that frequency (with statistical factors constant), zero when nothing depends on it.",
 ["inputs"], "all integrands, both factorized forms, first and second derivatives", "No test differentiates.",
 [O], [("derivative_opt", O)], [("Rref, Eval_list", "factorized form", H)], ["derivative_opt then evaluate"])
prop("C18", "Equivalent ways of writing an integrand give the same result",
 "Reordering the lines, reversing a line's orientation (which changes the sign), renaming or reflecting energies and external frequencies, and renaming, reflecting or shifting summed frequencies of an absolutely convergent sum changes the evaluated result by exactly the corresponding sign, for S-P-R and terms.",
 ["inputs", "programs"], "all integrands and such rewritings", "The tests write each integrand in one way.", [C, T, E], [("construct", C), ("construct", T)], (), ["evaluate"])
prop("C19", "Integrating step by step, in any order, gives the partial sums",
 "Integrating one frequency at a time in any order gives, after every step, the exact partial sum over the frequencies summed so far, with the remaining ones as external parameters: as S-P-R arrays, as terms, and when evaluated.",
 ["histories", "inputs"], "all orders of integration of all integrands, evaluated after every step", "The tests integrate complete integrands in the given order.",
 [C, T], [("update_gprod_general", C), ("integrate_step", T)], (), ["update_gprod_general", "integrate_step", "evaluate"])
prop("C20", "Equality of Green's functions, poles and products is decided correctly",
 "Two Green's functions or poles are recognised as equal exactly if they are the same function, as equal up to sign exactly if one is plus or minus the other (with that sign) and their species agree, and the factorization recognises equal products whatever the order of their factors.",
 ["inputs"], "pairs of lines close to each other; lists of arbitrary products", "The tests compare no pairs.",
 [C, O], [("g_equiv", C), ("pole_equiv", C), ("g_struct_equiv", O), ("pair_v_equiv", O)], (), ["g_equiv", "pole_equiv", "g_struct_equiv", "factorize_terms"])
prop("C21", "The species of a Green's function is kept through the whole calculation",
 "Every Green's function in a constructed or factorized result carries the species of the integrand's Green's function it comes from, so that Green's functions of different species are never merged.",
 ["inputs"], "all integrands with lines of several species", "No test uses species.", [C, O], [("update_G_pole", C), ("g_struct_equiv", O)],
 [("g_struct::species_", "species", H)], ["construct", "factorize_Rn", "factorize_terms"])
prop("C22", "No operation reads or writes outside its objects or has undefined behaviour",
 "On well-formed inputs no public operation accesses memory out of bounds or after its lifetime, overflows signed integers, or does anything else that is undefined, in any sequence of operations and with any options.",
 ["inputs", "histories"], "integrands, operation sequences, options as in the other properties, under sanitizers", "The tests run without sanitizers on few inputs.",
 [C, T, TE, E, O, H], [("indexing of R, P, S, Rref, Eval_list", E)], (), ["all public operations"])
prop("C23", "Evaluations put together from the public building blocks give the same values",
 "A caller who evaluates with the public parts (statistical factors of all poles, their combination with the signs, across integrations and with the products of Green's functions; or single terms, pole products and Green's function products of a term list) obtains the exact value of the Matsubara sum.",
 ["inputs"], "all integrands, points and graph types", "The tests call the complete evaluation only.", [E, TE],
 [("fermi", E), ("dot", E), ("cross", E), ("star", E), ("eval_gprod", E), ("eval_fprod", TE), ("evaluate_term", TE)], (), ["fermi", "dot", "cross", "star", "eval_gprod", "eval_fprod", "evaluate_term"])

(R / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))

NOTE = ("Behaviours of the TLA+ specification (drawn by TLC; VERIF_SEED) are replayed on the library built from the working tree, and TLC checks "
        "the recorded histories against the specification, whose meaning of results is the exact Matsubara sum computed to 70 digits. "
        "Assurance is for the behaviours explored. Trusts java/HP.java (complex arithmetic) and the driver's recording.")
checks = [dict(property=p["id"], quick_cmd="bin/check " + p["id"], thorough_cmd="bin/check " + p["id"],
               evidence_file="evidence/%s.json" % p["id"],
               technique="TLA+ specification, TLC-generated behaviours replayed on the code, traces checked by TLC", level="model_checking", level_note=NOTE) for p in P]
(R / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[]), indent=1) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
