"""Which behaviours decide which property.

Every property has a list of (profile of spec/Gen.tla, cases quick, cases thorough),
and the build of the library whose behaviours are recorded (of all profiles, or of one,
as its fourth entry):
  lib       -O1 with the assertions of the standard library
  mp        -DBOOST_MP (quadruple precision arithmetic in fermi_bose)
  asan      address and undefined behaviour sanitizers
  tsan      thread sanitizer (data races between objects)
  valgrind  memcheck (values computed from uninitialised memory)
  python    the pyami module
and the modules that TLC checks by themselves (spec).
"""

PLAN = {
    "C01": dict(spec=["Direct"], profiles=[("spr", 400, 6000), ("deep", 60, 800), ("cold", 120, 1500), ("wide", 60, 1000), ("big", 16, 300), ("lots", 40, 800), ("enumspr", 0, 0)]),
    "C02": dict(spec=["Ami"], profiles=[("terms", 350, 6000), ("deepterms", 60, 800), ("coldterms", 100, 1500), ("wideterms", 60, 1000), ("bigterms", 16, 300), ("lots", 40, 800), ("enumterms", 0, 0)]),
    "C03": dict(spec=["Factor"], profiles=[("fspr", 350, 5000), ("multi", 30, 500), ("widef", 50, 800), ("bigf", 16, 300), ("lots", 30, 500), ("enumfspr", 0, 0)]),
    "C04": dict(profiles=[("fterms", 400, 5000), ("bigfterms", 16, 300), ("lots", 30, 500), ("enumfterms", 0, 0)]),
    "C05": dict(profiles=[("multi", 320, 5000)]),
    "C06": dict(profiles=[("stat", 120, 3000)]),
    "C07": dict(profiles=[("types", 300, 5000), ("typesdeep", 100, 1500)]),
    "C08": dict(profiles=[("otf", 400, 8000), ("wideotf", 50, 1000), ("bigotf", 16, 300), ("enumotf", 0, 0)]),
    "C09": dict(profiles=[("opts", 300, 5000)]),
    "C10": dict(profiles=[("ovf", 250, 5000), ("stat", 40, 1000)]),
    "C11": dict(profiles=[("session", 200, 4000), ("marathon", 16, 300), ("threads", 60, 1500), ("threads", 20, 300, "tsan")]),
    "C12": dict(profiles=[("pf", 250, 4000)]),
    "C13": dict(build="mp", profiles=[("stat", 60, 1500), ("all", 120, 2500), ("types", 60, 1000), ("cold", 60, 1000), ("otf", 60, 1000),
                                     ("opts", 40, 800), ("pf", 30, 600), ("multi", 30, 600), ("der", 30, 600), ("wide", 16, 300), ("lots", 12, 200)]),
    "C14": dict(build="python", profiles=[("python", 200, 3000), ("pysession", 80, 1500)]),
    "C15": dict(profiles=[("shape", 300, 5000), ("multi", 20, 400)]),
    "C16": dict(spec=["Ami"], profiles=[("poles", 150, 4000)]),
    "C17": dict(profiles=[("der", 180, 4000), ("enumder", 0, 0)]),
    "C18": dict(profiles=[("variants", 200, 4000)]),
    "C19": dict(profiles=[("steps", 250, 4000)]),
    "C20": dict(profiles=[("equiv", 150, 4000), ("fterms", 60, 1000)]),
    "C21": dict(profiles=[("species", 400, 6000)]),
    "C22": dict(build="asan", profiles=[("all", 60, 1500), ("multisan", 40, 800), ("session", 40, 800), ("poles", 30, 600),
                                        ("otf", 40, 800), ("der", 40, 800), ("threads", 20, 400), ("opts", 30, 600), ("ovf", 30, 600), ("variants", 20, 400), ("lots", 16, 300), ("marathon", 4, 100),
                                        ("all", 16, 300, "valgrind"), ("session", 16, 300, "valgrind"), ("poles", 8, 150, "valgrind")]),
    "C23": dict(profiles=[("parts", 300, 5000)]),
}

# operations of the step-by-step interface (each is left out if the driver does not compile with it)
LOW = {"find_poles", "step_terms", "start_terms", "start_spr", "step_spr", "step_simple", "number", "residue_terms", "residue_spr", "deriv_terms",
       "deriv_spr", "sub_g", "sub_z", "equiv", "split", "energy", "gprod", "eval_spr_parts", "eval_terms_each",
       "eval_terms_parts", "print"}
