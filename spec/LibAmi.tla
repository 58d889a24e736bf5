--------------------------------- MODULE LibAmi -------------------------------
(***************************************************************************)
(* The library as a state machine.  The state is what a user of one        *)
(* AmiBase object and some containers has done so far, abstractly: which   *)
(* integrand and which integrations every container stands for, and the    *)
(* object's flags.  Each public operation is one step: After gives the new *)
(* state, and Verdict says whether the observed outcome is one the         *)
(* specification allows ("ok", or what is wrong with it).                  *)
(*                                                                         *)
(* ev is the sequence of events of the history, l the position of the      *)
(* event; ev[l]["in"] is the operation with its arguments, the other       *)
(* fields are what the library returned.                                   *)
(***************************************************************************)
EXTENDS Expr

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF Has(r, f) THEN r[f] ELSE d

BosonicTypes == {"Pi_phuu", "Pi_phud", "doubleocc", "Pi_ppuu", "Pi_ppud", "FORCE"}
Types == BosonicTypes \cup {"Sigma", "Hartree", "Bare", "Greens", "density", "DOS", "ENERGY"}
TypeOf(op) == Get(op, "type", "Sigma")

\* ------------------------------------------------------------------ state
Flags0 == [dbd |-> FALSE, dd |-> FALSE, dmp |-> TRUE, be |-> FALSE, cut |-> <<1000000000, 1>>, cut2 |-> TRUE]
NoContainers == [n \in {} |-> 0]
Session0 == [flags |-> Flags0, spr |-> NoContainers, terms |-> NoContainers, fac |-> NoContainers]

\* A source: an integrand and the frequencies summed over, in this order, under which flag.
Source(R0, vars, dmp, bos) == [R0 |-> R0, vars |-> vars, dmp |-> dmp, bos |-> bos]
\* A container of terms stands for a sum of sources plus terms given literally.
Terms(srcs, raw, pos) == [srcs |-> srcs, raw |-> raw, pos |-> pos]

Bool(b) == b = 1
FlagsAfter(f, op) ==
  [dbd |-> IF Has(op, "drop_bosonic_diverge") THEN Bool(op.drop_bosonic_diverge) ELSE f.dbd,
   dd  |-> IF Has(op, "drop_der") THEN Bool(op.drop_der) ELSE f.dd,
   dmp |-> IF Has(op, "drop_matsubara_poles") THEN Bool(op.drop_matsubara_poles) ELSE f.dmp,
   be  |-> IF Has(op, "bosonic_external") THEN Bool(op.bosonic_external) ELSE f.be,
   cut |-> IF Has(op, "cutoff") THEN op.cutoff ELSE f.cut,
   cut2 |-> IF Has(op, "cutoff") THEN FALSE ELSE f.cut2]
Cutoff(f) == IF f.cut2 THEN HPTen(15) ELSE Rat(f.cut)    \* 10^15 unless it was set

Put(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]

FullSource(op, f) ==
  Source(op.R0, FirstVars(op.n), f.dmp, ~Has(op, "byint") /\ TypeOf(op) \in BosonicTypes)

After(s, ev, l) ==
  LET e == ev[l]
      op == e["in"]
      pos == IF Has(e, "res") THEN l ELSE 0
  IN
  CASE op.op = "flags" -> [s EXCEPT !.flags = FlagsAfter(@, op)]
    [] op.op = "object" -> [s EXCEPT !.flags = Flags0]
    [] op.op = "spr"   -> [s EXCEPT !.spr = Put(@, op.dst, [src |-> FullSource(op, s.flags), pos |-> pos])]
    [] op.op = "start_spr" -> [s EXCEPT !.spr = Put(@, op.dst, [src |-> Source(op.R0, <<>>, TRUE, FALSE), pos |-> 0])]
    [] op.op \in {"step_spr", "step_simple"} -> [s EXCEPT !.spr = Put(@, op.src,
           [src |-> [s.spr[op.src].src EXCEPT !.vars = Append(@, op.i + 1), !.dmp = s.flags.dmp], pos |-> pos])]
    [] op.op = "terms" -> [s EXCEPT !.terms = Put(@, op.dst, Terms(<<FullSource(op, s.flags)>>, <<>>, pos))]
    [] op.op = "start_terms" -> [s EXCEPT !.terms = Put(@, op.dst, Terms(<<Source(op.R0, <<>>, TRUE, FALSE)>>, <<>>, 0))]
    [] op.op = "step_terms" -> [s EXCEPT !.terms = Put(@, op.dst,
           Terms([i \in DOMAIN s.terms[op.src].srcs |->
                    [s.terms[op.src].srcs[i] EXCEPT !.vars = Append(@, op.i + 1), !.dmp = s.flags.dmp]], <<>>, pos))]
    [] op.op = "set_terms" -> [s EXCEPT !.terms = Put(@, op.dst, Terms(<<>>, op.terms, 0))]
    [] op.op = "cat_terms" -> [s EXCEPT !.terms = Put(@, op.dst,
           Terms(FoldLeft(LAMBDA acc, n : acc \o s.terms[n].srcs, <<>>, op.srcs),
                 FoldLeft(LAMBDA acc, n : acc \o s.terms[n].raw, <<>>, op.srcs), 0))]
    [] op.op = "fact_spr" -> [s EXCEPT !.fac = Put(@, op.dst, [der |-> 0, pos |-> pos, of |-> s.spr[op.src].pos, kind |-> "spr"])]
    [] op.op = "fact_terms" -> [s EXCEPT !.fac = Put(@, op.dst, [der |-> 0, pos |-> pos, of |-> s.terms[op.src].pos, kind |-> "terms"])]
    [] op.op = "deriv_opt" -> [s EXCEPT !.fac[op.dst].der = @ + 1, !.fac[op.dst].pos = pos]
    [] OTHER -> s

\* ----------------------------------------------------------------- points
Ferm(n, type) == [t \in 1..n |-> t # n \/ type \notin BosonicTypes]

\* An evaluation point: energies e[i]/den + i q[i] pi/(2 beta) with beta = kk den ln 2, or
\* energies (e[i] + i ei[i])/den with any beta, which may be small: den has a factor 2^ex.
BetaOf(v) == IF Has(v, "beta") THEN Rat(v.beta) ELSE HPMul(HPRat(v.kk * v.den, 1), HPLn2)
Quarter(q) == CASE q % 4 = 0 -> HPOne [] q % 4 = 1 -> HPCx(HPZero, HPOne)
                [] q % 4 = 2 -> HPInt(-1) [] OTHER -> HPCx(HPZero, HPInt(-1))
EnergyOf(v, e, q, ei, beta) ==
  LET E == IF ei # 0 THEN HPCx(HPRat(e, v.den), HPRat(ei, v.den))
           ELSE IF q # 0 THEN HPCx(HPRat(e, v.den), HPMul(HPMul(HPRat(q, 2), HPPi), HPInv(beta)))
           ELSE HPRat(e, v.den)
  IN  IF Has(v, "ex") THEN HPMul(E, HPPow(HPInt(2), -v.ex)) ELSE E
BoltzmannOf(v, e, q, ei, beta) ==    \* exp(beta E)
  IF Has(v, "beta") THEN HPExp(HPMul(beta, EnergyOf(v, e, 0, ei, beta)))
  ELSE HPMul(HPPow(HPInt(2), v.kk * e), Quarter(q))

NumEnv(op, v, f, src) ==
  LET n    == Len(v.w)
      k    == Len(v.e)
      beta == BetaOf(v)
      q(i) == IF Has(v, "q") THEN v.q[i] ELSE 0
      ei(i) == IF Has(v, "ei") THEN v.ei[i] ELSE 0
      wr(i) == IF Has(v, "wr") THEN v.wr[i] ELSE 0
      reg  == Get(op, "ereg", <<0, 1>>)
  IN  [X |-> TLCEval([t \in 1..n |-> HPCx(HPRat(wr(t), v.wden), HPRat(v.w[t], v.wden))]),
       E |-> TLCEval([i \in 1..k |-> EnergyOf(v, v.e[i], q(i), ei(i), beta)]),
       x |-> TLCEval([i \in 1..k |-> BoltzmannOf(v, v.e[i], q(i), ei(i), beta)]),
       beta |-> beta, ferm |-> Ferm(n, TypeOf(op)),
       docc |-> TypeOf(op) = "doubleocc" \/ f.be,
       ereg |-> reg[1] # 0,
       xreg |-> IF reg[1] = 0 THEN HPOne ELSE HPExp(HPMul(beta, Rat(reg))),
       dropBose |-> f.dbd, dropDer |-> f.dd, dropM |-> src.dmp, bos |-> src.bos,
       der |-> 0, pf |-> IF Has(v, "pf") THEN Rat(v.pf) ELSE HPOne]

\* A generic point: all symbols, and exp(beta E_i) too, take unrelated values (rational
\* multiples of different powers of pi/3: no integer combination of them vanishes).
Mix(s, k) == (((s + 3) * 7907 + k * k * 3571 + s * k * 131) % 997) + 499
Unrelated(s, k) == HPMul(HPRat(Mix(s, k), 997), HPPow(HPMul(HPPi, HPRat(1, 3)), k))
GenericEnv(s, nx, ne, type, src) ==
  [X |-> TLCEval([t \in 1..nx |-> Unrelated(s, t)]), E |-> TLCEval([i \in 1..ne |-> HPNeg(Unrelated(s, nx + i))]),
   x |-> TLCEval([i \in 1..ne |-> HPAdd(HPOne, Unrelated(s, nx + ne + i))]), beta |-> Unrelated(s, nx + ne + ne + 1),
   ferm |-> Ferm(nx, type), docc |-> type = "doubleocc", ereg |-> FALSE, xreg |-> HPOne,
   dropBose |-> FALSE, dropDer |-> FALSE, dropM |-> src.dmp, bos |-> src.bos, der |-> 0, pf |-> HPOne]

FormsOf(R0) == TLCEval([i \in 1..Len(R0) |-> Form(R0[i])])

\* ------------------------------------------- what the containers stand for
\* The exact value of a source at a point.
SourceVal(src, env) == MatsubaraSum(FormsOf(src.R0), src.vars, [env EXCEPT !.dropM = src.dmp, !.bos = src.bos])

TermsDenote(c, env) ==
  LET a == FoldLeft(LAMBDA acc, src : Plus(acc, SourceVal(src, env)), Nothing, c.srcs)
      b == TermsVal(c.raw, env)
  IN  Plus(a, <<b[1], b[2], HPZero, HPZero, c.raw # <<>>, HPInt(Len(c.raw))>>)

\* With numerically coincident energies: the same sum, with energies in place of symbols.
\* (the imaginary parts of the energies are a second energy).
Projected(src, v) ==
  [src EXCEPT !.R0 = [i \in DOMAIN @ |->
     [a |-> @[i].a, e |-> IF Has(v, "ei") THEN << VDot(@[i].e, v.e), VDot(@[i].e, v.ei) >> ELSE << VDot(@[i].e, v.e) >>]]]
ProjectedVars(v) ==
  [x \in DOMAIN v |-> IF x = "e" THEN (IF Has(v, "ei") THEN <<1, 0>> ELSE <<1>>) ELSE IF x = "ei" THEN <<0, 1>> ELSE v[x]]

\* --------------------------------------------------------------- verdicts
\* Digits that the library's doubles have to share with the exact value, relative to
\* the sum of the absolute values of the contributions.
Digits == 9

OverflowVerdict(f, n, ovf, r) ==
  LET cut == Cutoff(f)
      more == HPRat(1001, 1000)
      Largest(v) == Max2(HPAbs(HPRe(v)), HPAbs(HPIm(v)))
      \* surely beyond the cutoff: real or imaginary part of the value so large that those of one of the
      \* r[6] terms are beyond it, or a derivative.  surely below it in every intermediate quantity.
      set   == n > 0 /\ (HPLe(HPMul(HPMul(cut, more), Max2(HPOne, r[6])), Largest(r[1])) \/ HPLe(HPMul(cut, HPMul(HPInt(2), more)), r[4]))
      clear == /\ HPLe(HPTen(5), cut) /\ ~r[5]
               /\ HPLe(HPMul(r[2], HPInt(4)), cut) /\ HPLe(HPMul(r[3], HPInt(4)), cut)
               /\ HPLe(HPMul(r[4], HPInt(3)), cut)
  IN  IF set /\ ovf # 1 THEN "overflow not reported"
      ELSE IF clear /\ ovf # 0 THEN "overflow reported without cause"
      ELSE "ok"

ValueVerdict(e, r, digits) ==
  IF ~HPFinite(e.v[1]) \/ ~HPFinite(e.v[2]) THEN "value is not finite"
  ELSE IF ~Close(HPCx(HPParse(e.v[1]), HPParse(e.v[2])), r[1], r[2], digits) THEN "wrong value"
  ELSE "ok"

First(a, b) == IF a # "ok" THEN a ELSE b
If(c, msg) == IF c THEN "ok" ELSE msg

\* What is judged is chosen by aspects, of which every property needs some:
\*   value  ovf (overflow flag)  mut (arguments unchanged)  same (repetitions agree)
\*   rel (equivalent inputs agree)  symb (results as functions)  shape (arrays fit together)
\*   species  fac (factorised forms)  dup (their uniqueness)  poles  alg (algebraic steps)
\* A crash is judged always.
AllAspects == {"value", "ovf", "mut", "same", "rel", "symb", "shape", "species", "fac", "dup", "poles", "alg"}
On(F, aspect, verdict) == IF aspect \in F THEN verdict ELSE "ok"

EvalVerdict(e, f, n, r, F) ==
  First(On(F, "value", ValueVerdict(e, r, Digits)),
  First(On(F, "mut", If(Get(e, "mut", 0) = 0, "evaluation changed its arguments")),
        On(F, "ovf", IF Has(e, "mut") THEN OverflowVerdict(f, n, e.ovf, r) ELSE "ok")))

\* op.same: the position of an evaluation that must have had the same outcome.
\* op.rel: the position of one that must have had the same value up to a sign.
\* (r[7]: how large the contributions to that one were.)
RepeatVerdict(e, ev, op, r, F) ==
  First(On(F, "same", If(~Has(op, "same") \/ e.v = ev[op.same].v, "not the value it had before")),
        On(F, "rel", IF ~Has(op, "rel") THEN "ok"
                     ELSE LET w == ev[op.rel[1]].v
                          IN  IF ~(HPFinite(w[1]) /\ HPFinite(w[2]) /\ HPFinite(e.v[1]) /\ HPFinite(e.v[2]))
                              THEN "value is not finite"
                              ELSE If(Close(HPCx(HPParse(e.v[1]), HPParse(e.v[2])),
                                            HPMul(HPInt(op.rel[2]), HPCx(HPParse(w[1]), HPParse(w[2]))), HPAdd(r[2], r[7]), Digits),
                                      "not the value of an equivalent integrand")))

\* The symbolic result res of summing src, as a function: compared at generic points.
NE(R0) == Len(R0[1].e)
NX(R0) == Len(R0[1].a)
GenericPoint(src, type) == GenericEnv(1, NX(src.R0), NE(src.R0), type, src)
SymbolicVerdict(val(_), src, type, r) ==
  LET v == val(GenericPoint(src, type))
  IN  If(Close(v[1], r[1], HPAdd(r[2], v[2]), 40), "result is not the residue sum of the integrand")

\* Every line of a result has its species from the line of the integrand it comes from:
\* some line of this species becomes it when the poles of the term are substituted.
RECURSIVE Chain(_, _)
Chain(f, ps) == IF ps = <<>> THEN f ELSE Chain(Sub(f, Form(Head(ps)), Head(ps).i + 1), Tail(ps))
ByIndex(ps, vars) == FoldLeft(LAMBDA acc, j : acc \o SelectSeq(ps, LAMBDA p : p.i + 1 = j), <<>>, vars)
SpeciesKept(ps, gs, R0, vars) ==
  LET by == ByIndex(ps, vars)
      ends == {<<Chain(Form(R0[k]), by), Get(R0[k], "s", 0)>> : k \in 1..Len(R0)}
  IN  \A i \in 1..Len(gs) : <<Form(gs[i]), gs[i].s>> \in ends

\* the poles that lead to each product of the arrays
RECURSIVE Paths(_, _)
Paths(A, n) ==
  IF n = 0 THEN <<<<>>>>
  ELSE LET prev == Paths(A, n - 1)
       IN  FoldLeftDomain(LAMBDA acc, k : acc \o [r \in 1..Len(A.P[n][k]) |-> Append(prev[k], A.P[n][k][r])], <<>>, A.P[n])

SprVerdict(A, src, type, ref, F) ==
  LET n == Len(src.vars)
      fits == ArraysShape(A, n)
  IN  First(On(F, "shape",
            First(If(fits, "arrays do not fit together"),
                  If(\A i \in 1..n : \A g \in 1..Len(A.R[i+1]) : Eliminated(A.R[i+1][g], SubSeq(src.vars, 1, i)),
                     "a summed frequency remains"))),
      First(On(F, "symb", IF fits THEN SymbolicVerdict(LAMBDA env : ArraysVal(A, n, env), src, type, ref)
                          ELSE "arrays do not fit together"),
            On(F, "species", If(~fits \/ LET paths == Paths(A, n)
                               IN  \A g \in 1..Len(A.R[n+1]) : SpeciesKept(paths[g], A.R[n+1][g], src.R0, src.vars),
               "species lost"))))

TermsListVerdict(ts, src, type, ref, F) ==
  First(On(F, "shape", If(\A i \in 1..Len(ts) : /\ Eliminated(ts[i].g, src.vars)
                                                /\ Len(ts[i].p) = Len(src.vars), "a summed frequency remains")),
  First(On(F, "symb", SymbolicVerdict(LAMBDA env : TermsVal(ts, env), src, type, ref)),
        On(F, "species", If(\A i \in 1..Len(ts) : SpeciesKept(ts[i].p, ts[i].g, src.R0, src.vars), "species lost"))))

\* A factorised form F of a list of products: unique lines U, products of unique lines Ref,
\* and for each of these the list Ev of the <<product (from 0), factor>> that it represents.
WellFormedFactor(F, n) ==
  /\ Len(F.Ref) = Len(F.Ev)
  /\ \A k \in 1..Len(F.Ref) : \A i \in 1..Len(F.Ref[k]) : F.Ref[k][i][1] \in 0..(Len(F.U) - 1)
  /\ \A k \in 1..Len(F.Ev) : \A i \in 1..Len(F.Ev[k]) : F.Ev[k][i][1] \in 0..(n - 1)
Lines(g) == {Form(g), Opposite(Form(g))}
\* The group that stands for a product consists of lines of the same species.
Bag(gs) == LET keys == {<<gs[i].s, Lines(gs[i])>> : i \in 1..Len(gs)}
           IN  {<<k, Cardinality({i \in 1..Len(gs) : <<gs[i].s, Lines(gs[i])>> = k})>> : k \in keys}
SpeciesInGroups(F, products, entries) ==
  \A x \in 1..Len(entries) :
    Bag(products[entries[x][1]]) = Bag([i \in 1..Len(F.Ref[entries[x][3]]) |-> F.U[F.Ref[entries[x][3]][i][1] + 1]])
FactorVerdict(F, products, der, Fo) ==
  LET n == Len(products)
      line == IF F.U = <<>> THEN <<>> ELSE F.U[1]
      plain == GenericEnv(1, IF F.U = <<>> THEN 1 ELSE Len(line.a), IF F.U = <<>> THEN 1 ELSE Len(line.e), "Sigma",
                          Source(<<>>, <<>>, FALSE, FALSE))
      env == [plain EXCEPT !.der = der]
      u == TLCEval([i \in 1..Len(F.U) |-> GVal(Form(F.U[i]), plain)])
      group == TLCEval([k \in 1..Len(F.Ref) |-> FoldLeft(LAMBDA acc, r : HPMul(acc, u[r[1] + 1]), HPOne, F.Ref[k])])
      \* what the groups contribute to each product
      entries == FoldLeftDomain(LAMBDA acc, k : acc \o [r \in 1..Len(F.Ev[k]) |-> <<F.Ev[k][r][1] + 1, F.Ev[k][r][2], k>>], <<>>, F.Ev)
      total == TLCEval(FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x[1]] = HPAdd(@, HPMul(HPInt(x[2]), group[x[3]]))],
                                TLCEval([i \in 1..n |-> HPZero]), entries))
      Key(k) == [i \in 1..Len(F.U) |-> Len(SelectSeq(F.Ref[k], LAMBDA r : r[1] + 1 = i))]
  IN  IF ~WellFormedFactor(F, n) THEN (IF Fo \cap {"fac", "dup", "species"} = {} THEN "ok" ELSE "factorised form refers to entries that do not exist") ELSE
      First(On(Fo, "fac",
               If(\A i \in 1..n : LET w == ProdGD(products[i], env) IN Close(total[i], w, HPNorm(w), 40),
                  "factorised form does not reproduce the products")),
      IF der > 0 THEN "ok" ELSE
      First(On(Fo, "dup",
               First(If(Len(entries) = n /\ {entries[x][1] : x \in 1..Len(entries)} = 1..n, "a product is not in exactly one group"),
               First(If(Cardinality({<<F.U[i].s, Lines(F.U[i])>> : i \in 1..Len(F.U)}) = Len(F.U), "a line is stored twice"),
                     If(Cardinality({Key(k) : k \in 1..Len(F.Ref)}) = Len(F.Ref), "a product is stored twice")))),
            On(Fo, "species", If(SpeciesInGroups(F, products, entries), "species lost"))))

Products(ev, fac) ==
  LET r == ev[fac.of].res IN IF fac.kind = "spr" THEN Last(r.R) ELSE [i \in 1..Len(r) |-> r[i].g]

\* The poles of a product of lines in one frequency.
PolesVerdict(res, R0, j, src) ==
  IF j > Len(R0[1].a) THEN If(res = <<>>, "poles in a frequency that does not exist") ELSE
  LET fs == FormsOf(R0)
      env == [dropM |-> src.dmp, bos |-> src.bos]
      act == {i \in 1..Len(fs) : fs[i][1][j] # 0}
      expected == {p \in {PoleOf(fs[i], j) : i \in act} : ~Left(p, env)}
  IN  First(If({Form(res[k]) : k \in 1..Len(res)} = expected, "not the set of poles"),
      First(If(Len(res) = Cardinality(expected), "a pole is listed twice"),
            If(\A k \in 1..Len(res) :
                 /\ {res[k].g[m] + 1 : m \in 1..Len(res[k].g)} = {i \in act : PoleOf(fs[i], j) = Form(res[k])}
                 /\ Len(res[k].g) = res[k].m
                 /\ res[k].m = Cardinality({i \in act : PoleOf(fs[i], j) = Form(res[k])})
                 /\ res[k].i = j - 1 /\ res[k].d = 0, "wrong multiplicity")))

\* Leibniz: the derivative of a term by X_j, statistical factors included.
Leibniz(t, j, env) ==
  LET Bump(k) == [t EXCEPT !.p[k].d = @ + 1]
      Twice(k) == [t EXCEPT !.g = Append(@, @[k])]
      a == FoldLeftDomain(LAMBDA acc, k : Sum2(acc, TermVal(Bump(k), env)), Zero2, t.p)
  IN  FoldLeftDomain(LAMBDA acc, k : Sum2(acc, HPMul(HPInt(-t.g[k].a[j]), TermVal(Twice(k), env))), a, t.g)

LeibnizVerdict(res, t, j) ==
  If(   LET env == GenericEnv(1, Len(t.g[1].a), Len(t.g[1].e), "Sigma", Source(<<>>, <<>>, FALSE, FALSE))
           w == Leibniz(t, j, env)
           v == TermsVal(res, env)
       IN  Close(v[1], w[1], HPAdd(v[2], w[2]), 40), "not the derivative")

PointSource == Source(<<>>, <<>>, FALSE, FALSE)

\* --------------------------------------------------------- reference values
\* The exact value an event has to be compared with, if any: where (a source or container,
\* and a point), as a string for a key, and the value.
NoRef == [key |-> "", val |-> Nothing]

\* the source whose residue sum the symbolic result of event l has to be
SourceOf(s, ev, l) ==
  LET op == ev[l]["in"]
  IN  CASE op.op \in {"spr", "terms"} -> FullSource(op, s.flags)
        [] op.op \in {"step_spr", "step_simple"} -> After(s, ev, l).spr[op.src].src
        [] op.op = "step_terms" -> After(s, ev, l).terms[op.dst].srcs[1]
        [] OTHER -> Source(op.R0, <<op.i + 1>>, s.flags.dmp, FALSE)
SymbolicOps == {"spr", "terms", "step_spr", "step_simple", "step_terms", "residue_terms", "residue_spr"}
SprEvals    == {"eval_spr", "eval_spr_opt", "eval_spr_parts"}
TermEvals   == {"eval_terms", "eval_terms_opt", "eval_terms_each", "eval_terms_parts"}
Evals == SprEvals \cup TermEvals \cup {"eval_otf"}

\* what an evaluation evaluates (a sum of sources and terms), and how often it is derived
Evaluated(s, op) ==
  IF op.op \in SprEvals THEN Terms(<<[s.spr[op.src].src EXCEPT !.vars = SubSeq(@, 1, op.n)]>>, <<>>, 0)
  ELSE IF op.op = "eval_otf" THEN Terms(<<Projected(s.spr[op.src].src, op.vars)>>, <<>>, 0)
  ELSE [s.terms[op.src] EXCEPT !.pos = 0]
Derived(s, op) == IF Has(op, "fac") /\ op.fac \in DOMAIN s.fac THEN s.fac[op.fac].der ELSE 0
PointOf(s, op) ==
  [NumEnv(op, IF op.op = "eval_otf" THEN ProjectedVars(op.vars) ELSE op.vars, s.flags, PointSource)
     EXCEPT !.der = Derived(s, op)]

RefKey(s, ev, l, F) ==
  LET op == ev[l]["in"]
  IN  IF op.op \in SymbolicOps
      THEN IF ~Has(ev[l], "res") \/ F \cap {"symb", "alg"} = {} THEN "" ELSE ToString(<<SourceOf(s, ev, l), TypeOf(op)>>)
      ELSE IF op.op \in SprEvals \cup TermEvals \cup {"eval_otf"} /\ F \cap {"value", "ovf", "rel"} # {}
           THEN ToString(<<Evaluated(s, op), TypeOf(op), Get(op, "ereg", 0), Derived(s, op), op.vars,
                           s.flags.dbd, s.flags.dd, s.flags.be>>)
      ELSE ""
RefVal(s, ev, l) ==
  LET op == ev[l]["in"]
  IN  IF op.op \in SymbolicOps
      THEN LET src == SourceOf(s, ev, l) IN SourceVal(src, GenericPoint(src, TypeOf(op)))
      ELSE TermsDenote(Evaluated(s, op), PointOf(s, op))

\* Reference values are kept by their key, as strings (TLC cannot store HP numbers).
ShowRef(r) == <<HPShow(r[1]), HPShow(r[2]), HPShow(r[3]), HPShow(r[4]), r[5], HPShow(r[6])>>
ReadRef(t) == <<HPRead(t[1]), HPRead(t[2]), HPRead(t[3]), HPRead(t[4]), t[5], HPRead(t[6])>>
Ref(s, m, ev, l, F) ==
  LET k == RefKey(s, ev, l, F)
  IN  IF k = "" THEN <<"", <<>>>>
      ELSE IF k \in DOMAIN m THEN <<k, m[k]>> ELSE <<k, ShowRef(RefVal(s, ev, l))>>

AlgebraOps == {"residue_terms", "residue_spr", "deriv_terms", "deriv_spr", "sub_g", "sub_z", "equiv", "split"}
AlgebraVerdict(s, ev, l, ref) ==
  LET e == ev[l]
      op == e["in"]
      o == op.op
  IN
  CASE o \in {"residue_terms", "residue_spr"} ->
         SymbolicVerdict(LAMBDA env : TermsVal(e.res, env), SourceOf(s, ev, l), "Sigma", ref)
    [] o = "deriv_terms" -> LeibnizVerdict(e.res, op.terms[1], op.pole.i + 1)
    [] o = "deriv_spr" -> LeibnizVerdict(e.res, [sg |-> op.sg, p |-> <<op.pole>>, g |-> op.R0], op.pole.i + 1)
    [] o = "sub_g" -> If(Form(e.res) = Sub(Form(op.g), Form(op.pole), op.pole.i + 1) /\ e.res.s = Get(op.g, "s", 0), "wrong substitution")
    [] o = "sub_z" -> If(Form(e.res) = Sub(Form(op.g), Form(op.pole), op.pole.i + 1), "wrong substitution")
    [] o = "equiv" ->
         LET g == Form(op.g1)
             h == Form(op.g2)
             same == Get(op.g1, "s", 0) = Get(op.g2, "s", 0)
         IN  IF Len(g[1]) # Len(h[1]) \/ Len(g[2]) # Len(h[2])
             THEN If(e.geq = 0 /\ e.peq = 0 /\ e.upto = 0, "lines of different sizes are not equal") ELSE
             First(If((e.geq = 1) <=> (g = h), "wrong answer for equal lines"),
             First(If((e.peq = 1) <=> (g = h), "wrong answer for equal poles"),
             First(If((e.upto = 1) <=> (same /\ (g = h \/ g = Opposite(h))), "wrong answer for lines equal up to sign"),
                   If(e.upto = 0 \/ e.sign = (IF g = h THEN 1 ELSE -1), "wrong relative sign"))))
    [] o = "split" ->
         LET j == op.pole.i + 1
             t == op.terms[1]
             inert(x) == x.a[j] = 0
             active(x) == x.a[j] # 0
             fg(gs) == [i \in 1..Len(gs) |-> Form(gs[i])]
         IN  If(/\ fg(e.inert.g) = fg(SelectSeq(t.g, inert)) /\ fg(e.active.g) = fg(SelectSeq(t.g, active))
                /\ fg(e.inert.p) = fg(SelectSeq(t.p, inert)) /\ fg(e.active.p) = fg(SelectSeq(t.p, active))
                /\ e.inert.sg[1] * t.sg[2] = t.sg[1] * e.inert.sg[2] /\ e.active.sg = <<1, 1>>, "wrong split")

\* ref: the event's reference value; F: the aspects judged
Verdict(s, ev, l, ref, F) ==
  LET e == ev[l]
      op == e["in"]
      f == s.flags
      o == op.op
  IN
  CASE o \in {"flags", "object", "start_spr", "start_terms", "set_terms", "cat_terms", "print"} -> "ok"
    [] o = "spr" -> IF Has(e, "res") THEN SprVerdict(e.res, FullSource(op, f), TypeOf(op), ref, F) ELSE "ok"
    [] o = "terms" -> IF Has(e, "res") THEN TermsListVerdict(e.res, FullSource(op, f), TypeOf(op), ref, F) ELSE "ok"
    [] o \in {"step_spr", "step_simple"} ->
         IF Has(e, "res") THEN SprVerdict(e.res, After(s, ev, l).spr[op.src].src, "Sigma", ref, F) ELSE "ok"
    [] o = "step_terms" ->
         IF Has(e, "res") THEN TermsListVerdict(e.res, After(s, ev, l).terms[op.dst].srcs[1], "Sigma", ref, F) ELSE "ok"
    [] o = "dump_spr" -> On(F, "same", If(s.spr[op.src].pos = 0 \/ ev[s.spr[op.src].pos].res = e.res, "the arrays changed"))
    [] o = "dump_terms" -> On(F, "same", If(s.terms[op.src].pos = 0 \/ ev[s.terms[op.src].pos].res = e.res, "the terms changed"))
    [] o = "dump_fac" -> On(F, "same", If(s.fac[op.src].pos = 0 \/ ev[s.fac[op.src].pos].res = e.res, "the factorised form changed"))
    [] o \in {"fact_spr", "fact_terms"} ->
         LET fac == After(s, ev, l).fac[op.dst]
         IN  IF Has(e, "res") /\ fac.of # 0 THEN FactorVerdict(e.res, Products(ev, fac), 0, F) ELSE "ok"
    [] o = "deriv_opt" ->
         LET fac == s.fac[op.dst]
         IN  IF Has(e, "res") /\ fac.of # 0 THEN FactorVerdict(e.res, Products(ev, fac), fac.der + 1, F) ELSE "ok"
    [] o \in Evals ->
         First(EvalVerdict(e, f, IF o \in TermEvals THEN 1 ELSE op.n, ref, F), RepeatVerdict(e, ev, op, ref, F))
    [] o = "fermi_bose" ->
         LET beta == BetaOf(op)
             x == BoltzmannOf(op, op.e, Get(op, "q", 0), Get(op, "ei", 0), beta)
             v == FermiBose(op.m, op.sigma, x, beta)
             mag == HPMul(FermiBoseSens(op.sigma, x), FermiBoseSize(op.m, op.sigma, x, beta))
         IN  First(On(F, "value", ValueVerdict(e, <<v, mag>>, Digits)),
                   On(F, "ovf", OverflowVerdict(f, 1, e.ovf, <<HPZero, HPZero, HPZero, IF op.m = 0 THEN HPZero ELSE HPNorm(v), FALSE, HPZero>>)))
    [] o = "number" ->
         On(F, "value", If(/\ HPFinite(e.v)
                           /\ HPParse(e.v) = CASE op.f = "binomial" -> HPInt(Binomial(op.n, op.k))
                                               [] op.f = "factorial" -> HPFact(op.n)
                                               [] op.f = "frk" -> HPRead(STable[op.n][op.k + 1]),    \* k! S(n, k)
                           "wrong coefficient"))
    [] o = "fermi_pole" ->
         LET env == NumEnv(op, op.vars, f, PointSource)
             v == PoleFactor(Get(op.pole, "d", 0), Form(op.pole), op.pole.i + 1, env)
             m == PoleSize(Get(op.pole, "d", 0), Form(op.pole), op.pole.i + 1, env)
         IN  On(F, "value", ValueVerdict(e, <<v, HPAdd(HPNorm(v), m)>>, Digits))
    [] o = "gprod" ->
         LET env == NumEnv(op, op.vars, f, PointSource)
             v == HPMul(env.pf, ProdG(op.R0, env))
         IN  On(F, "value", ValueVerdict(e, <<v, HPNorm(v)>>, Digits))
    [] o = "energy" ->
         LET env == NumEnv(op, op.vars, f, PointSource)
             v == HPDot(op.g.e, env.E)
             mag == HPAdd(HPOne, HPNorm(v))
         IN  On(F, "value", First(ValueVerdict(e, <<v, mag>>, 12), ValueVerdict([v |-> e.v2], <<v, mag>>, 12)))
    [] o = "find_poles" -> On(F, "poles", PolesVerdict(e.res, op.R0, op.i + 1, Source(op.R0, <<>>, f.dmp, FALSE)))
    [] o \in AlgebraOps -> On(F, "alg", AlgebraVerdict(s, ev, l, ref))
    [] o = "CRASH" -> "the library crashed: " \o e.what
    [] OTHER -> "unexpected event " \o o
===============================================================================
