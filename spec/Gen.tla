---------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Test generation: random behaviours of the specification, written out as *)
(* operation sequences for the driver.  TLC runs this in simulation mode;  *)
(* one behaviour makes one case.                                           *)
(*                                                                         *)
(* A behaviour draws integrands until one is well posed, then evaluation   *)
(* points until they are regular for it, and then operations of the        *)
(* session machine LibAmi that are enabled there.  Which integrands,       *)
(* points and operations: the profile, by name from the environment.       *)
(***************************************************************************)
EXTENDS LibAmi, Json, IOUtils

P == IOEnv.PROFILE

\* ---------------------------------------------------------------- choices
Pick(S)  == RandomElement(S)
PickQ(q) == q[RandomElement(1..Len(q))]
Chance(n, d) == RandomElement(1..d) <= n

\* ---------------------------------------------------------------- profiles
\* mode    how integrands of a case belong together: one; indep (of several sizes); alts (same
\*         sizes, evaluated at the same points); variants (the same integral, written differently);
\*         none (no integrand)
\* fam     families of integrands: rnd (any coefficients), net (paths in a tree: coefficients
\*         stay 0, 1, -1 under substitution), multi (few different lines, repeated), power (high powers
\*         of a line), dia (diagrams)
\* N, nx   integrations; frequencies in excess of that
\* L       lines in excess of integrations
\* en      energies: own (one per line), shared, combo (small integer combinations), zero (some lines have none)
\* ints, pts   number of integrands and of points per integrand
\* e       largest energy, in units of 1/den;   kk   beta = kk den ln 2
\* gen     out of 4 points, how many have another beta; cx: and how many of these have complex energies
\* otf     energies may coincide;  min, cost  smallest and largest number of contributions
\* im      out of 4 points with complex energies, how many have some purely imaginary ones
\* w       the frequencies are multiplied by one of these
\* tiny    out of 4 points, how many have energies, or differences of them, that are small but not zero
\* mut     further points of an integrand are mostly changes of an earlier one
\* zeros   integrands with Bose functions at zero energy, and options that take care of them
AllTypes == <<"Sigma", "Pi_phuu", "Pi_phud", "Hartree", "Bare", "Greens", "density", "doubleocc",
              "Pi_ppuu", "Pi_ppud", "DOS", "ENERGY", "FORCE">>
MostlySigma == <<"Sigma", "Sigma", "Sigma", "Sigma", "Pi_phuu", "Pi_ppud", "doubleocc", "density", "FORCE">>
Base == [mode |-> "one", fam |-> <<"rnd", "net", "net", "multi", "dia">>, N |-> <<1, 2, 2, 3, 3>>, nx |-> <<1, 1, 1, 2>>,
         L |-> <<0, 1, 1, 2, 3>>, en |-> <<"own", "own", "shared", "combo">>, types |-> MostlySigma,
         ints |-> 1, pts |-> 2, e |-> <<9, 9, 25>>, den |-> <<1, 2, 4>>, kk |-> <<1, 1, 2>>, gen |-> 2, cx |-> 1, otf |-> FALSE,
         cost |-> 200, wr |-> TRUE, pf |-> <<<<1, 1>>>>, zeros |-> FALSE, im |-> 1, w |-> <<1>>, mut |-> FALSE, min |-> 0, tiny |-> 0]
SomePf == <<<<1, 1>>, <<1, 1>>, <<-1, 1>>, <<3, 1>>, <<-5, 2>>, <<1, 8>>>>
Repeated == [Base EXCEPT !.kk = <<1, 1, 2, 30>>, !.fam = <<"multi", "multi", "multi", "power">>, !.N = <<1, 1, 2, 2, 3>>, !.L = <<2, 3, 4, 5, 6>>, !.cost = 800, !.nx = <<1, 1, 2>>]
\* many different lines
Wide == [Base EXCEPT !.fam = <<"net", "net", "rnd">>, !.N = <<1, 1, 2, 2, 3>>, !.L = <<5, 6, 7, 8, 10>>, !.en = <<"own", "own", "own", "combo">>,
                     !.cost = 800, !.min = 20, !.pts = 1, !.gen = 3, !.e = <<25, 60>>]
\* very many contributions
Big == [Wide EXCEPT !.N = <<2, 3, 3, 4>>, !.L = <<2, 4, 6, 8>>, !.min = 257, !.cost = 1500, !.nx = <<1>>]
\* very many lines, or many external frequencies
Lots == [Base EXCEPT !.fam = <<"net", "net", "rnd">>, !.N = <<0, 1, 1, 1, 2, 2>>, !.L = <<1, 2, 4, 12, 16, 20, 28>>, !.en = <<"own", "own", "shared", "combo">>,
                     !.cost = 500, !.pts = 1, !.gen = 3, !.e = <<25, 60>>, !.nx = <<1, 3, 5, 7>>]
Deep == [Base EXCEPT !.fam = <<"net">>, !.N = <<4, 4, 5, 5, 6>>, !.L = <<0, 1, 2, 3>>, !.cost = 400, !.min = 4, !.nx = <<1>>]
Small == [Base EXCEPT !.N = <<0, 1, 1, 2, 2, 3>>, !.L = <<1, 1, 2>>, !.pts = 1, !.cost = 60]
Prof ==
  CASE P \in {"multi", "multisan"} -> Repeated
    [] P \in {"deep", "deepterms"} -> Deep
    [] P \in {"cold", "coldterms"} -> [Base EXCEPT !.kk = <<4, 10, 30, 100>>, !.gen = 0, !.e = <<9, 20>>]
    [] P \in {"wide", "wideterms", "widef"} -> Wide
    [] P = "lots" -> Lots
    [] P \in {"big", "bigterms", "bigf", "bigfterms"} -> Big
    [] P \in {"wideotf", "bigotf"} -> [IF P = "bigotf" THEN Big ELSE Wide EXCEPT !.otf = TRUE, !.zeros = TRUE, !.e = <<2, 4, 6>>, !.den = <<1, 2>>]
    [] P = "types" -> [Small EXCEPT !.types = AllTypes, !.tiny = 1]
    [] P = "typesdeep" -> [Repeated EXCEPT !.types = AllTypes, !.pts = 1, !.cost = 200]
    [] P = "fspr"  -> [Base EXCEPT !.fam = <<"net", "multi", "multi", "dia">>, !.N = <<2, 2, 3, 3, 4>>, !.nx = <<1>>]
    [] P = "fterms" -> [Base EXCEPT !.mode = "alts", !.ints = 3, !.pts = 1, !.cost = 100, !.N = <<1, 2, 2, 3>>]
    [] P = "otf"   -> [Base EXCEPT !.tiny = 1, !.otf = TRUE, !.zeros = TRUE, !.e = <<1, 2, 3>>, !.pts = 3, !.den = <<1, 2>>, !.gen = 2, !.cx = 1, !.cost = 100, !.L = <<1, 2, 3>>,
                                   !.N = <<0, 1, 2, 2, 3, 3>>]
    [] P = "opts"  -> [Base EXCEPT !.tiny = 1, !.zeros = TRUE, !.en = <<"zero", "zero", "zeros", "shared", "combo">>, !.N = <<1, 2, 2, 3>>, !.cost = 100,
                                   !.gen = 3, !.cx = 3, !.im = 3,
                                   !.types = <<"Sigma", "Sigma", "Pi_phuu", "Pi_ppud", "doubleocc", "density">>, !.fam = <<"rnd", "net", "net", "multi">>]
    [] P = "ovf"   -> [Base EXCEPT !.fam = <<"multi", "multi", "net", "rnd">>, !.N = <<0, 1, 1, 2, 2, 3>>, !.den = <<4, 64, 512>>, !.e = <<9, 30, 300>>, !.gen = 4, !.cx = 1, !.im = 3, !.pts = 5, !.cost = 200,
                                   !.w = <<1, 1, 1000>>, !.pf = <<<<1, 1>>, <<1, 1>>, <<-5, 2>>, <<1000000, 1>>, <<-1000000000, 1>>, <<1, 1000000>>>>]
    [] P \in {"session", "threads", "marathon"} -> [Small EXCEPT !.tiny = 1, !.mode = "indep", !.ints = 3, !.pts = 4, !.pf = SomePf, !.mut = TRUE,
                                   !.types = <<"Sigma", "Sigma", "Pi_phuu", "Pi_ppud", "doubleocc", "density">>]
    [] P = "pysession" -> [Small EXCEPT !.tiny = 1, !.mode = "indep", !.ints = 2, !.pts = 3, !.pf = SomePf, !.mut = TRUE, !.types = <<"Sigma">>]
    [] P = "pf"    -> [Base EXCEPT !.pf = <<<<1, 1>>, <<-1, 1>>, <<3, 1>>, <<-5, 2>>, <<1, 8>>, <<7, 1>>, <<0, 1>>, <<1, 1000000000>>, <<123456789, 1000>>>>, !.pts = 3,
                                   !.N = <<0, 1, 2, 2, 3, 3>>]
    [] P = "der"   -> [Base EXCEPT !.types = <<"Sigma", "Sigma", "density", "Pi_phuu">>, !.L = <<0, 1, 2, 3>>, !.N = <<0, 1, 1, 2, 2, 3, 3>>, !.fam = <<"net", "net", "multi", "dia">>, !.nx = <<1>>]
    [] P = "variants" -> [Base EXCEPT !.tiny = 1, !.mode = "variants", !.ints = 4, !.pts = 1, !.N = <<1, 1, 2, 2, 3>>, !.L = <<1, 2, 2, 3, 3>>, !.cost = 100]
    [] P = "parts" -> [Base EXCEPT !.tiny = 1, !.N = <<0, 1, 2, 2, 3, 3>>, !.pf = SomePf, !.types = <<"Sigma", "Sigma">> \o AllTypes]
    [] P = "shape" -> [Base EXCEPT !.N = <<2, 2, 3, 3, 4>>, !.pts = 0]
    [] P = "steps" -> [Base EXCEPT !.tiny = 1, !.types = <<"Sigma">>, !.N = <<2, 2, 3, 3>>, !.pts = 1, !.cost = 100]
    [] P = "species" -> [Base EXCEPT !.pts = 0]
    [] P = "python" -> [Small EXCEPT !.mode = "indep", !.ints = 2, !.types = <<"Sigma">>, !.pts = 2, !.zeros = TRUE, !.en = <<"own", "shared", "combo", "zero">>,
                                   !.pf = <<<<1, 1>>, <<-1, 1>>, <<3, 1>>, <<-5, 2>>, <<0, 1>>>>]
    [] P \in {"stat", "poles", "equiv"} -> [Base EXCEPT !.mode = "none", !.tiny = 1]
    [] OTHER -> [Base EXCEPT !.tiny = 1]

\* -------------------------------------------------------------- integrands
\* The frequencies on the path from node u of the tree to its root.
RECURSIVE Path(_, _, _, _)
Path(u, tree, sgn, n) ==
  IF u = 0 THEN [t \in 1..n |-> 0]
  ELSE LET up == Path(tree[u], tree, sgn, n) IN VPut(up, u, sgn[u])
Shuffle(a, p) == TLCEval([t \in 1..Len(a) |-> a[p[t]]])

Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]

\* diagrams of the library's tests and documentation: lines by their coefficients
Diagrams == <<
  <<<<1, 0>>, <<1, -1>>>>,                                                        \* bubble
  <<<<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, -1>>>>,                                     \* sunset
  <<<<1, 0, 0>>, <<0, 1, 0>>, <<1, -1, 1>>>>,
  <<<<1, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 1, 0>>, <<1, -1, 1>>>>,
  <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<1, 1, 0, -1>>, <<-1, 0, 1, 1>>>>,
  <<<<1, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<1, -1, 1, 0>>>>,
  <<<<1, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0>>, <<0, 0, 1, 0, 0>>, <<0, 0, 0, 1, 0>>, <<-1, 1, 0, 0, 1>>,
    <<1, 0, 1, 0, -1>>, <<1, 1, 0, -1, 0>>>>,
  <<<<1, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0>>, <<0, 0, 1, 0, 0>>, <<0, 0, 0, 1, 0>>, <<1, 0, 0, 0, -1>>,
    <<0, -1, 1, 1, 0>>, <<-1, 1, 0, 0, 1>>>> >>
DiagramsOf(N) == IF N = 0 THEN <<<<<<1>>, <<1>>>>>> ELSE SelectSeq(Diagrams, LAMBDA d : Len(d[1]) = N + 1)

\* flags and regulator
Options0 == [dbd |-> FALSE, dd |-> FALSE, dmp |-> TRUE, be |-> FALSE, ereg |-> <<0, 1>>]
Options(dummy) ==
  IF P = "python" THEN [Options0 EXCEPT !.ereg = PickQ(<<<<0, 1>>, <<1, 8>>, <<1, 64>>, <<3, 4>>, <<-1, 16>>>>)] ELSE
  [dbd |-> Chance(1, 2), dd |-> Chance(1, 4), dmp |-> Chance(1, 2), be |-> Chance(1, 4),
   ereg |-> PickQ(<<<<0, 1>>, <<1, 8>>, <<1, 64>>, <<3, 4>>, <<-1, 16>>>>)]
FlagsOf(o) == [Flags0 EXCEPT !.dbd = o.dbd, !.dd = o.dd, !.dmp = o.dmp, !.be = o.be]

\* the parameters of an integrand
\* (With a parameter, or TLC would draw once for all.)
Shapes(dummy) ==
  CHOOSE g \in { [fam |-> ft[1], N |-> nn, type |-> ft[2],
                  extra |-> IF ft[1] = "dia" THEN 1 ELSE IF nn = 0 THEN 1 ELSE IF ft[2] = "doubleocc" THEN PickQ(<<0, 0, 1>>)
                            ELSE IF ft[2] \notin BosonicTypes /\ Chance(1, 8) THEN 0 ELSE PickQ(Prof.nx),
                  L |-> PickQ(Prof.L), en |-> PickQ(Prof.en), opts |-> IF Prof.zeros /\ ~Prof.otf THEN Options(dummy) ELSE Options0] : ft \in {<<PickQ(Prof.fam), PickQ(Prof.types)>>}, nn \in {PickQ(Prof.N)} } : TRUE

Alphas(g) ==
  LET nx == g.N + g.extra
      n  == g.N + g.L
      tree == TLCEval([k \in 1..nx |-> RandomElement(0..(k - 1))])
      sgn  == TLCEval([k \in 1..nx |-> Pick({1, -1})])
      perm == TLCEval(Pick(Permutations(1..nx)))
      step(u) == TLCEval(Path(u, tree, sgn, nx))
      nodes == TLCEval([u \in 1..(nx + 1) |-> step(u - 1)])
      net(uv) == VAxpy(nodes[uv[1]], -1, nodes[uv[2]])
      edges == {uv \in (1..(nx + 1)) \X (1..(nx + 1)) : uv[1] # uv[2]}
  IN  CASE g.fam = "rnd" -> [i \in 1..n |-> TLCEval([t \in 1..nx |-> PickQ(<<0, 0, 1, -1>>)])]
        [] g.fam = "dia" -> LET ds == DiagramsOf(g.N) IN PickQ(ds)
        [] g.fam = "multi" ->
             LET base == TLCEval([i \in 1..(g.N + 1) |-> Shuffle(net(Pick(edges)), perm)])
             IN  [i \in 1..n |-> IF i <= g.N THEN base[i] ELSE base[Pick(1..(g.N + 1))]]
        [] g.fam = "power" ->   \* high powers: every line has one frequency that is summed over
             LET of == TLCEval(Pick(Permutations(1..g.N)))
                 base == TLCEval([j \in 1..g.N |-> TLCEval([t \in 1..nx |-> IF t = of[j] THEN Pick({1, -1}) ELSE IF t > g.N THEN Pick({0, 0, 1, -1}) ELSE 0])])
                 more == TLCEval([i \in 1..PickQ(<<3, 5, 7, 9, 11, 12, 13, 14, 14>>) |-> base[IF Chance(9, 10) THEN 1 ELSE Pick(1..g.N)]])
             IN  base \o more
        [] OTHER -> [i \in 1..n |-> Shuffle(net(Pick(edges)), perm)]

Energies(g, al) ==
  LET n == Len(al)
      ne == CASE g.fam \in {"multi", "power"} -> g.N + 1
              [] g.en = "own" -> n
              [] OTHER -> Pick(1..(n + 1))
  IN  CASE g.fam \in {"multi", "power"} ->    \* equal coefficients mostly have equal energies
             [i \in 1..n |-> Unit(ne, IF Chance(1, 8) THEN Pick(1..ne)
                                      ELSE ((CHOOSE k \in 1..n : al[k] = al[i] /\ \A j \in 1..(k - 1) : al[j] # al[i]) % ne) + 1)]
        [] g.en = "own" -> [i \in 1..n |-> Unit(ne, i)]
        [] g.en = "zeros" -> [i \in 1..n |-> IF Chance(2, 3) THEN Unit(ne, 0) ELSE Unit(ne, Pick(1..ne))]
        [] g.en = "zero" -> [i \in 1..n |-> IF Chance(1, 3) THEN Unit(ne, 0) ELSE Unit(ne, Pick(1..ne))]
        [] g.en = "shared" -> LET m == ne IN [i \in 1..n |-> Unit(m, Pick(1..m))]
        [] OTHER -> LET m == ne IN [i \in 1..n |-> TLCEval([k \in 1..m |-> PickQ(<<0, 0, 0, 1, 1, -1, 2, -2>>)])]

\* (the sets of one element make TLC draw once)
DrawLines(g) ==
  CHOOSE r \in { { [i \in 1..Len(al) |-> [a |-> al[i], e |-> en[i]]] : en \in {TLCEval(Energies(g, al))} } : al \in {TLCEval(Alphas(g))} } : TRUE
Flip(line) == [a |-> VScale(-1, line.a), e |-> VScale(-1, line.e), s |-> line.s]
Finish(line, g) ==   \* orientation and species
  LET l2 == [a |-> line.a, e |-> line.e, s |-> PickQ(<<0, 0, 0, 1, 2, 2, -1, 11>>)]
  IN  IF g.fam \in {"multi", "power", "dia"} /\ Chance(1, 4) THEN Flip(l2) ELSE l2

Plain(n, type, o) ==
  [ferm |-> Ferm(n, type), docc |-> type = "doubleocc" \/ o.be, dropM |-> o.dmp, bos |-> type \in BosonicTypes,
   zeros |-> Prof.zeros /\ (o.dmp \/ o.dbd \/ o.ereg[1] # 0)]

\* about the number of terms that the repeated product rule makes
RECURSIVE Cost(_, _)
Cost(mono, vars) ==
  IF vars = <<>> THEN 1
  ELSE LET j == Head(vars)
           act == {i \in 1..Len(mono) : mono[i][1][1][j] # 0}
           Of(p) ==
             LET on == {i \in act : PoleOf(mono[i][1], j) = p}
                 M == OverSet(LAMBDA n, i : n + mono[i][2], 0, on)
                 D == OverSet(LAMBDA n, i : n + mono[i][2], 0, act \ on)
                 m2 == FoldLeftDomain(LAMBDA m, i : IF i \in on THEN m ELSE AddTo(m, Sub(mono[i][1], p, j), mono[i][2], 1), <<>>, mono)
                 most == [i \in 1..Len(m2) |-> <<m2[i][1], m2[i][2] + (IF i = 1 THEN M - 1 ELSE 0)>>]
             IN  IF M - 1 + D > (IF D = 0 THEN MaxDer ELSE 8) THEN 100000
                 ELSE LET later == Cost(most, Tail(vars))
                      IN  IF later > 3000 THEN 100000 ELSE (IF D = 0 THEN 1 ELSE Factorial(M - 1 + D) \div Factorial(D)) * later
       IN  OverSet(LAMBDA n, p : IF n > 3000 THEN n ELSE n + Of(p), 0, {PoleOf(mono[i][1], j) : i \in act})

Acceptable(g, R0) ==
  Len(R0) >= 1 /\ Len(R0[1].a) >= 1 /\
  LET fs == FormsOf(R0)
      S  == {fs[i] : i \in 1..Len(fs)}
      vars == FirstVars(g.N)
  IN  /\ Len(R0) >= g.N
      /\ \A i \in 1..Len(fs) : ~(VIsZero(fs[i][1]) /\ VIsZero(fs[i][2]))
      /\ \A j \in 1..g.N : \E i \in 1..Len(fs) : fs[i][1][j] # 0
      /\ WellPosed(S, vars, Plain(Len(R0[1].a), g.type, g.opts))
      /\ LET c == Cost(Monomial(fs), vars) IN Prof.min <= c /\ c <= Prof.cost

\* ------------------------------------------------------------------ points
Betas == <<<<1, 1>>, <<1, 50>>, <<5, 1>>, <<10, 1>>, <<1, 2>>, <<1, 10>>, <<17, 3>>, <<25, 1>>>>
DrawPoint(g) ==
  LET nx == Len(g.R0[1].a)
      ne == Len(g.R0[1].e)
      wm == PickQ(Prof.w)
      w == TLCEval([t \in 1..nx |-> IF t <= g.n THEN Pick({0, 0, 1, -3}) ELSE wm * Pick({-5, -3, -1, 0, 1, 3, 5, 7, 2})])
      wr == TLCEval([t \in 1..nx |-> IF t <= g.n \/ ~Prof.wr THEN 0 ELSE PickQ(<<0, 0, 1, -3>>)])
      e(m) == TLCEval([i \in 1..ne |-> Pick(-m..m)])
      any == [e |-> e(PickQ(Prof.e)), den |-> PickQ(Prof.den), w |-> w, wr |-> wr, wden |-> Pick({1, 2, 4}), pf |-> PickQ(Prof.pf), ctor |-> Pick(0..3)]
      unit == IF Prof.otf THEN 1048576 ELSE PickQ(<<1048576, 16777216>>)
      near(u) == TLCEval([i \in 1..ne |-> u * PickQ(<<0, 0, 0, 1, -1, 2>>) + Pick(-3..3)])
  IN  CASE Chance(Prof.tiny, 4) -> CHOOSE v \in {[any EXCEPT !.e = near(u), !.den = u] @@ [beta |-> PickQ(Betas)] @@ (IF Chance(1, 4) THEN [ex |-> 30] ELSE [x \in {} |-> 0]) : u \in {unit}} : TRUE
        [] ~Chance(Prof.gen, 4) -> any @@ [kk |-> PickQ(Prof.kk)]
        [] Chance(Prof.cx, 4) ->
             LET z == IF Chance(Prof.im, 4) THEN Pick({2, 3}) ELSE 0
             IN  [any EXCEPT !.e = TLCEval([i \in 1..ne |-> IF Chance(z, 3) THEN 0 ELSE @[i]])] @@ [beta |-> PickQ(Betas), ei |-> e(3)]
        [] OTHER -> any @@ [beta |-> PickQ(Betas)]

\* the same point but for one thing: temperature, prefactor, one energy or one frequency
Mutate(v, g) ==
  LET ext == {t \in 1..Len(v.w) : t > g.n}
  IN  CASE Chance(1, 3) -> IF Has(v, "beta") THEN [v EXCEPT !.beta = PickQ(Betas)] ELSE [v EXCEPT !.kk = Pick({1, 2, 3})]
        [] Chance(1, 3) -> [v EXCEPT !.pf = PickQ(Prof.pf)]
        [] Chance(1, 2) \/ ext = {} -> [v EXCEPT !.e[Pick(1..Len(v.e))] = -@ + Pick({0, 1})]
        [] OTHER -> [v EXCEPT !.w[Pick(ext)] = @ + Pick({2, -2})]

\* how close to a singularity an evaluation may be
Tolerance(v) == [tol |-> HPTen(IF v.den >= 1048576 THEN -8 ELSE -4)]
RegularAt(g, v) ==
  LET src == Source(g.R0, FirstVars(g.n), g.opts.dmp, g.type \in BosonicTypes)
      s2 == IF Prof.otf THEN Projected(src, v) ELSE src
      fs == FormsOf(s2.R0)
      S == {fs[i] : i \in 1..Len(fs)}
      env == NumEnv([type |-> g.type, ereg |-> g.opts.ereg], IF Prof.otf THEN ProjectedVars(v) ELSE v, FlagsOf(g.opts), src)
  IN  /\ ~Prof.otf \/ WellPosed(S, src.vars, Plain(Len(v.w), g.type, g.opts))
      /\ Regular(S, src.vars, env @@ Tolerance(v))

VARIABLES shape, draft, ints, pts, hist
vars == <<shape, draft, ints, pts, hist>>

\* -------------------------------------------------- integrands from integrands
\* the same sizes, other lines: some lines take over the energies of others
Alternative(g) ==
  LET k == Len(g.R0)
      pick == TLCEval([i \in 1..k |-> IF Chance(2, 3) THEN i ELSE Pick(1..k)])
      keep == TLCEval([i \in 1..k |-> Chance(9, 10)])
      new == TLCEval([i \in 1..k |-> [g.R0[i] EXCEPT !.e = g.R0[pick[i]].e]])
      kept == SelectSeq([i \in 1..k |-> IF keep[i] THEN <<new[i]>> ELSE <<>>], LAMBDA x : x # <<>>)
  IN  [g EXCEPT !.R0 = [i \in 1..Len(kept) |-> kept[i][1]]]

\* The same integral up to the sign sg: lines in another order and turned round; other names for
\* frequencies and energies (column t becomes column cols[t], with sign cs[t], and so on); and
\* frequencies shifted by an even number of fermionic ones.
\* ms maps points: [cols, cs, ens, es].
\* (What concerns the frequencies summed over needs an absolutely convergent sum: on every space of
\* dimension k of directions, more than k lines vary.)
Convergent(g) ==
  LET dirs == {d \in [1..g.n -> {-1, 0, 1}] : \E t \in 1..g.n : d[t] # 0}
      on(i, d) == VDot(SubSeq(g.R0[i].a, 1, g.n), d) # 0
      lines == 1..Len(g.R0)
  IN  /\ \A d \in dirs : Cardinality({i \in lines : on(i, d)}) >= 2
      /\ \A d \in dirs, c \in dirs : c = d \/ c = VScale(-1, d) \/ Cardinality({i \in lines : on(i, d) \/ on(i, c)}) >= 3
      /\ g.n < 3 \/ Cardinality({i \in lines : \E t \in 1..g.n : g.R0[i].a[t] # 0}) >= 4
RECURSIVE ParityOf(_)
ParityOf(flips) == IF flips = <<>> THEN 1 ELSE (IF Head(flips) THEN -1 ELSE 1) * ParityOf(Tail(flips))
Variant(g) ==
  LET k == Len(g.R0)
      nx == Len(g.R0[1].a)
      ne == Len(g.R0[1].e)
      order == TLCEval(Pick(Permutations(1..k)))
      flips == TLCEval([i \in 1..k |-> Chance(1, 3)])
      free == g.type # "doubleocc" /\ Convergent(g)
      ints1 == IF free THEN TLCEval(Pick(Permutations(1..g.n))) ELSE [t \in 1..g.n |-> t]
      cols == TLCEval([t \in 1..nx |-> IF t <= g.n THEN ints1[t] ELSE t])
      cs == TLCEval([t \in 1..nx |-> IF (t > g.n \/ free) /\ Chance(1, 4) THEN -1 ELSE 1])
      ens == TLCEval(Pick(Permutations(1..ne)))
      es == TLCEval([i \in 1..ne |-> IF Chance(1, 4) THEN -1 ELSE 1])
      move(a, p, sg) == [t \in 1..Len(a) |-> LET o == CHOOSE o \in 1..Len(a) : p[o] = t IN sg[o] * a[o]]
      \* X_j -> X_j + X_p - X_q, when these are fermionic
      canShift == free /\ g.n >= 1 /\ nx >= 3 /\ g.type \notin BosonicTypes /\ Chance(1, 3)
      shift == TLCEval(Pick({x \in (1..g.n) \X (1..nx) \X (1..nx) : x[1] # x[2] /\ x[1] # x[3] /\ x[2] # x[3]} \cup {<<0, 0, 0>>}))
      shifted(a) == IF ~canShift \/ shift[1] = 0 THEN a
                    ELSE [t \in 1..nx |-> IF t = shift[2] THEN a[t] + a[shift[1]] ELSE IF t = shift[3] THEN a[t] - a[shift[1]] ELSE a[t]]
      line(i) == LET l == [a |-> move(shifted(g.R0[i].a), cols, cs), e |-> move(g.R0[i].e, ens, es), s |-> g.R0[i].s]
                 IN  IF flips[i] THEN Flip(l) ELSE l
  IN  [g EXCEPT !.R0 = TLCEval([i \in 1..k |-> line(order[i])])]
        @@ [sg |-> ParityOf(flips), map |-> [cols |-> cols, cs |-> cs, ens |-> ens, es |-> es]]
Mapped(v, m) ==
  LET move(a, p, sg) == [t \in 1..Len(a) |-> LET o == CHOOSE o \in 1..Len(a) : p[o] = t IN sg[o] * a[o]]
  IN  [x \in DOMAIN v |-> IF x \in {"w", "wr"} THEN move(v[x], m.cols, m.cs)
                          ELSE IF x \in {"e", "ei"} THEN move(v[x], m.ens, m.es) ELSE v[x]]
PointFor(k, v) == IF Prof.mode = "variants" /\ k > 1 THEN Mapped(v, ints[k].map) ELSE v

\* --------------------------------------------------------------- histories

Init == shape = <<>> /\ draft = <<>> /\ ints = <<>> /\ pts = <<>> /\ hist = <<>>

Full == Prof.mode = "none" \/ Len(ints) = Prof.ints
Independent == Prof.mode \in {"one", "indep"} \/ Len(ints) = 0

ChooseShape ==
  /\ hist = <<>> /\ shape = <<>> /\ ~Full /\ Independent
  /\ shape' = Shapes(hist)
  /\ UNCHANGED <<draft, ints, pts, hist>>

\* draw lines; give up on a shape now and then
DrawIntegrand ==
  /\ shape # <<>> /\ draft = <<>>
  /\ \E r \in DrawLines(shape) :
       draft' = [i \in 1..Len(r) |-> Finish(r[i], shape)]
  /\ UNCHANGED <<shape, ints, pts, hist>>

JudgeIntegrand ==
  /\ draft # <<>> /\ shape # <<>>
  /\ IF Acceptable(shape, draft)
     THEN /\ ints' = Append(ints, [n |-> shape.N, type |-> shape.type, opts |-> shape.opts, R0 |-> draft])
          /\ pts' = Append(pts, <<>>)
          /\ shape' = <<>>
     ELSE /\ shape' = IF Chance(1, 10) THEN Shapes(hist) ELSE shape
          /\ UNCHANGED <<ints, pts>>
  /\ draft' = <<>>
  /\ UNCHANGED hist

\* another integrand from the first
Derive ==
  /\ hist = <<>> /\ shape = <<>> /\ ~Full /\ ~Independent
  /\ \E h \in {IF Prof.mode = "alts" THEN Alternative(ints[1]) ELSE Variant(ints[1])} :
       IF Len(h.R0) > 0 /\ Acceptable([N |-> h.n, type |-> h.type, opts |-> h.opts], h.R0)
       THEN ints' = Append(ints, h) /\ pts' = Append(pts, <<>>)
       ELSE UNCHANGED <<ints, pts>>
  /\ UNCHANGED <<shape, draft, hist>>

Short(i) == Len(pts[i]) < (IF i = 1 \/ Prof.mode = "indep" THEN Prof.pts ELSE 0)

DrawAPoint ==
  /\ Full /\ shape = <<>> /\ hist = <<>>
  /\ \E i \in 1..Len(ints) :
       /\ Short(i) /\ \A k \in 1..(i - 1) : ~Short(k)
       /\ \E v \in {IF Prof.mut /\ pts[i] # <<>> /\ Chance(3, 4) THEN Mutate(PickQ(pts[i]), ints[i]) ELSE DrawPoint(ints[i])} :
            pts' = IF IF Prof.mode = "indep" THEN RegularAt(ints[i], v)
                      ELSE \A k \in 1..Len(ints) : RegularAt(ints[k], PointFor(k, v))
                   THEN [pts EXCEPT ![i] = Append(@, v)] ELSE pts
  /\ UNCHANGED <<shape, draft, ints, hist>>

Ready == Full /\ shape = <<>> /\ \A i \in 1..Len(ints) : ~Short(i)

\* ------------------------------------------------------------- the scripts
g == ints[1]
Reg(h) == IF h.opts.ereg[1] = 0 THEN [x \in {} |-> 0] ELSE [ereg |-> h.opts.ereg]
\* the constructor of the parameters: the default one and another know only Sigma (and no regulator)
Ctor(h) == [ctor |-> PickQ(IF h.type # "Sigma" THEN <<0, 0, 3>> ELSE IF h.opts.ereg[1] # 0 THEN <<0, 0, 2, 3>> ELSE <<0, 0, 0, 1, 2, 3>>)]
Spr(h, dst, out)    == [op |-> "spr", n |-> h.n, type |-> h.type, R0 |-> h.R0, dst |-> dst, out |-> out] @@ Ctor(h)
TermList(h, dst, out) == [op |-> "terms", n |-> h.n, type |-> h.type, R0 |-> h.R0, dst |-> dst, out |-> out] @@
  (IF h.type \in BosonicTypes \/ ~Chance(1, 6) THEN Ctor(h) ELSE [byint |-> 1])
Evalu(h, op, src, v) == [op |-> op, n |-> h.n, type |-> h.type, src |-> src, vars |-> v] @@ Reg(h) @@ Ctor(h)
EvaluF(h, op, src, fac, v) == [op |-> op, n |-> h.n, type |-> h.type, src |-> src, fac |-> fac, vars |-> v] @@ Reg(h) @@ Ctor(h)
SprOp(out)   == Spr(g, "a", out)
TermsOp(out) == TermList(g, "t", out)
Eval(op, src, v) == Evalu(g, op, src, v)
EvalF(op, src, fac, v) == EvaluF(g, op, src, fac, v)
Each(op(_)) == [i \in 1..Len(pts[1]) |-> op(pts[1][i])]
\* with a factorised form that is empty, the plain evaluation
Unfactored(op, src, v) == EvalF(op, src, "none", v)
FactS(out) == [op |-> "fact_spr", src |-> "a", dst |-> "f", out |-> out]
FactT(out) == [op |-> "fact_terms", src |-> "t", dst |-> "ft", out |-> out]

MostRoutes(v) == <<Eval("eval_spr", "a", v), Eval("eval_terms", "t", v), EvalF("eval_spr_opt", "a", "f", v),
                   EvalF("eval_terms_opt", "t", "ft", v)>>
\* (On the fly, high powers of lines take for ever when other lines happen to have their energy.)
Powers(R0) == {Cardinality({i \in 1..Len(R0) : R0[i].a \in {l.a, VScale(-1, l.a)}}) : l \in {R0[k] : k \in 1..Len(R0)}}
AllRoutes(v) == IF \E k \in Powers(ints[1].R0) : k > 8 THEN MostRoutes(v) ELSE Append(MostRoutes(v), Eval("eval_otf", "a", v))
Flatten(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
Many(k, op(_)) == TLCEval([i \in 1..k |-> op(i)])

Num(b) == IF b THEN 1 ELSE 0
FlagsOp(o) == [op |-> "flags", drop_bosonic_diverge |-> Num(o.dbd), drop_der |-> Num(o.dd),
                drop_matsubara_poles |-> Num(o.dmp), bosonic_external |-> Num(o.be)]


\* --- statistics: the Fermi and Bose functions at one argument, and of a pole
\* (not close to a singularity, relative to the size of its surroundings)
StatOK(o) == LET x == BoltzmannOf(o, o.e, Get(o, "q", 0), Get(o, "ei", 0), BetaOf(o))
             IN  HPLe(HPTen(-9), HPNorm(HPAdd(HPOne, HPMul(HPInt(o.sigma), x))))
RECURSIVE StatOp(_)
StatOp(i) ==
  LET o == [op |-> "fermi_bose", m |-> Pick(0..MaxDer), sigma |-> Pick({1, -1}), den |-> PickQ(<<1, 2, 4, 10, 32, 1048576>>),
            e |-> Pick(-Pick({1, 5, 40, 400})..Pick({1, 5, 40, 400}))]
      full == CASE Chance(1, 3) /\ o.den < 1048576 -> o @@ [kk |-> Pick(1..3), q |-> Pick(0..3)]
                [] Chance(1, 2) -> o @@ [beta |-> PickQ(Betas), ei |-> Pick(-20..20)]
                [] OTHER -> o @@ [beta |-> PickQ(Betas)]
      drawn == TLCEval(full)
  IN  IF StatOK(drawn) THEN drawn ELSE StatOp(i)
RECURSIVE PoleOp(_)
PoleOp(i) ==
  LET nx == Pick(1..4)
      ne == Pick(1..4)
      j == Pick(1..nx)
      pole == [a |-> VPut(TLCEval([t \in 1..nx |-> Pick({0, 1, -1})]), j, 0), e |-> TLCEval([k \in 1..ne |-> Pick({0, 0, 1, -1, 2})]),
               i |-> j - 1, d |-> PickQ(<<0, 0, 0, 1, 2, 3, 5>>)]
      v == DrawPoint([n |-> nx - 1, R0 |-> <<pole>>])
      o == TLCEval([op |-> "fermi_pole", n |-> nx - 1, type |-> PickQ(AllTypes), pole |-> pole, vars |-> v])
      env == NumEnv(o, o.vars, Flags0, PointSource)
      x == HPProdPow(env.x, o.pole.e)
  IN  IF HPLe(HPTen(-8), HPNorm(HPAdd(HPOne, HPMul(HPInt(Sigma(Form(o.pole), j, env)), x)))) THEN o ELSE PoleOp(i)
\* the energy of a line; a product of lines
EnergyOp(i) ==
  LET nx == Pick(1..4)
      ne == Pick(1..5)
      line == [a |-> TLCEval([t \in 1..nx |-> Pick({0, 1, -1})]), e |-> TLCEval([k \in 1..ne |-> Pick(-2..2)])]
  IN  TLCEval([op |-> "energy", g |-> line, vars |-> DrawPoint([n |-> nx - 1, R0 |-> <<line>>])])
RECURSIVE GprodOp(_)
GprodOp(i) ==
  LET nx == Pick(1..4)
      ne == Pick(1..4)
      R0 == TLCEval([k \in 1..Pick(1..5) |-> [a |-> TLCEval([t \in 1..nx |-> Pick({0, 1, -1})]), e |-> TLCEval([k2 \in 1..ne |-> Pick({0, 1, -1})])]])
      o == TLCEval([op |-> "gprod", n |-> nx - 1, R0 |-> R0, vars |-> DrawPoint([n |-> nx - 1, R0 |-> R0])])
      env == NumEnv(o, o.vars, Flags0, PointSource)
  IN  IF \A k \in 1..Len(o.R0) : HPLe(HPTen(-3), HPNorm(HPAdd(HPDot(o.R0[k].a, env.X), HPDot(o.R0[k].e, env.E)))) THEN o ELSE GprodOp(i)

\* --- poles and algebra: products of any lines
RandomLines(i, nx, ne) ==
  LET k == Pick(1..6)
      base == TLCEval([b \in 1..3 |-> [a |-> TLCEval([t \in 1..nx |-> Pick({0, 1, -1})]), e |-> TLCEval([x \in 1..ne |-> PickQ(<<0, 0, 1, -1>>)]), s |-> 0]])
      draw == TLCEval([l \in 1..k |-> LET d == base[Pick(1..3)]
                                      IN  [a |-> TLCEval(IF Chance(1, 4) THEN VScale(-1, d.a) ELSE d.a),
                                           e |-> TLCEval(CASE Chance(1, 4) -> VScale(-1, d.e) [] Chance(1, 4) -> VPut(d.e, Pick(1..ne), Pick({0, 1, -1})) [] OTHER -> d.e),
                                           s |-> Pick({0, 0, 1})]])
      ok == SelectSeq(draw, LAMBDA l : ~(VIsZero(l.a) /\ VIsZero(l.e)))
  IN  ok
RECURSIVE RandomProduct(_, _, _)
RandomProduct(i, nx, ne) == LET r == TLCEval(RandomLines(i, nx, ne)) IN IF r = <<>> THEN RandomProduct(i, nx, ne) ELSE r
Sizes(i) == {<<Pick(1..4), Pick(1..5)>>}
FindPolesOp(i) ==
  CHOOSE o \in { [op |-> "find_poles", i |-> IF Chance(1, 20) THEN z[1] + Pick({0, 1}) ELSE Pick(0..(z[1] - 1)), R0 |-> RandomProduct(i, z[1], z[2])] : z \in Sizes(i) } : TRUE
\* residues: with one or the other interface, of a product with poles in this frequency whose
\* residues exist
RECURSIVE ResidueOp(_)
ResidueOp(i) ==
  LET z == TLCEval(<<Pick(1..4), Pick(1..5)>>)
      R0 == TLCEval(RandomProduct(i, z[1], z[2]))
      j == TLCEval(Pick(1..z[1]))
      fs == FormsOf(R0)
      S == {fs[k] : k \in 1..Len(fs)}
      fine == /\ \E f \in S : f[1][j] # 0
              /\ \A f \in S : f[1][j] # 0 => ~Left(PoleOf(f, j), [dropM |-> TRUE, bos |-> FALSE])
              /\ Cost(Monomial(fs), <<j>>) <= 200
              /\ WellPosed(S, <<j>>, [ferm |-> Ferm(z[1], "Sigma"), docc |-> FALSE, dropM |-> TRUE, bos |-> FALSE, zeros |-> TRUE])
  IN  IF fine THEN [op |-> Pick({"residue_terms", "residue_spr"}), i |-> j - 1, R0 |-> R0] ELSE ResidueOp(i)
\* substitution
SubOp(i) ==
  CHOOSE o \in { LET j == Pick(1..z[1])
                     v(n) == TLCEval([t \in 1..n |-> Pick({0, 1, -1})])
                 IN  [op |-> Pick({"sub_g", "sub_z"}), g |-> [a |-> v(z[1]), e |-> v(z[2]), s |-> Pick({0, 1, 2})],
                      pole |-> [a |-> VPut(v(z[1]), j, 0), e |-> v(z[2]), i |-> j - 1]] : z \in Sizes(i) } : TRUE
\* derivative of a term by the frequency of a pole
DerivOp(i) ==
  CHOOSE o \in { LET nx == z[1] 
                     ne == z[2]
                     j == Pick(1..nx)
                     v(n) == TLCEval([t \in 1..n |-> Pick({0, 1, -1})])
                     gs == TLCEval([k \in 1..Pick(1..4) |-> [a |-> v(nx), e |-> VPut(v(ne), 1, 1), s |-> 0]])
                     po == [a |-> VPut(v(nx), j, 0), e |-> VPut(v(ne), 1, 2), i |-> j - 1, d |-> Pick(0..2)]
                 IN  IF Chance(1, 2) THEN [op |-> "deriv_terms", pole |-> po, terms |-> <<[sg |-> <<Pick({1, -1}), Pick({1, 2})>>, p |-> <<po>>, g |-> gs]>>]
                     ELSE [op |-> "deriv_spr", pole |-> po, sg |-> <<Pick({1, -1}), Pick({1, 2})>>, R0 |-> gs]
                 : z \in {<<Pick(1..3), Pick(1..4)>>} } : TRUE
\* what of a term contains a frequency
SplitOp(i) ==
  CHOOSE o \in { LET nx == z[1]
                     ne == z[2]
                     v(n) == TLCEval([t \in 1..n |-> Pick({0, 1, -1})])
                     line(k) == [a |-> v(nx), e |-> v(ne), s |-> Pick({0, 1})]
                     po(k) == [a |-> v(nx), e |-> v(ne), i |-> Pick(0..(nx - 1)), d |-> Pick(0..2)]
                 IN  [op |-> "split", pole |-> po(0),
                      terms |-> <<[sg |-> <<Pick({1, -1}), Pick({1, 2})>>, p |-> TLCEval([k \in 1..Pick(0..3) |-> po(k)]),
                                   g |-> TLCEval([k \in 1..Pick(0..4) |-> line(k)])]>>]
                 : z \in Sizes(i) } : TRUE
\* combinatorial coefficients
NumberOp(i) ==
  LET f == Pick({"binomial", "factorial", "frk"})
      n == CASE f = "binomial" -> Pick(0..28) [] f = "factorial" -> Pick(0..20) [] OTHER -> Pick(1..12)
  IN  CHOOSE o \in {[op |-> "number", f |-> x[1], n |-> x[2], k |-> Pick(0..x[2])] : x \in {TLCEval(<<f, n>>)}} : TRUE
\* pairs of lines that are equal, opposite, or close to that
DrawEquiv(i) ==
  CHOOSE o \in { LET v(n) == TLCEval([t \in 1..n |-> PickQ(<<0, 1, -1, 0, 1, -1, 2>>)])
                     a1 == v(z[1])
                     e1 == v(z[2])
                     sa == Pick({1, -1})
                     se == IF Chance(3, 4) THEN sa ELSE -sa
                     a2 == IF Chance(1, 4) THEN VPut(VScale(sa, a1), Pick(1..z[1]), Pick({0, 1, -1})) ELSE VScale(sa, a1)
                     e2 == IF Chance(1, 4) THEN VPut(VScale(se, e1), Pick(1..z[2]), Pick({0, 1, -1})) ELSE VScale(se, e1)
                     s1 == Pick({0, 1})
                     more == Pick({0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10})
                 IN  [op |-> "equiv", g1 |-> [a |-> a1, e |-> e1, s |-> s1],
                      g2 |-> [a |-> TLCEval(IF more = 1 THEN Append(a2, 0) ELSE a2), e |-> TLCEval(IF more = 2 THEN Append(e2, 0) ELSE e2), s |-> IF Chance(3, 4) THEN s1 ELSE Pick({0, 1, 2})]]
                 : z \in Sizes(i) } : TRUE
RECURSIVE EquivOp(_)
EquivOp(i) == LET o == TLCEval(DrawEquiv(i))
              IN  IF (VIsZero(o.g1.a) /\ VIsZero(o.g1.e)) \/ (VIsZero(o.g2.a) /\ VIsZero(o.g2.e)) THEN EquivOp(i) ELSE o
\* factorisation of any list of products (given as terms)
RawTerms(i) ==
  CHOOSE r \in { LET base == TLCEval([b \in 1..3 |-> CHOOSE l \in {[a |-> TLCEval(VPut([t \in 1..z[1] |-> Pick({0, 1, -1})], z[1], 1)), e |-> TLCEval([k \in 1..z[2] |-> Pick({0, 1, -1})]), s |-> 0]} : TRUE])
                     line(x) == LET b == base[Pick(1..3)]
                                IN  TLCEval([a |-> VScale(x, b.a), e |-> VScale(x, b.e), s |-> Pick({0, 0, 0, 1})])
                 IN  [t \in 1..Pick(2..6) |-> [sg |-> <<Pick({1, -1}), 1>>, p |-> <<>>, g |-> [k \in 1..Pick(1..4) |-> line(Pick({1, -1}))]]]
                 : z \in Sizes(i) } : TRUE

\* a list of terms given by the user, evaluated where it is regular
OwnTerms(h, vs) ==
  LET nx == Len(h.R0[1].a)
      ne == Len(h.R0[1].e)
      v(n) == TLCEval([t \in 1..n |-> Pick({0, 1, -1})])
      line(k) == [a |-> VPut(v(nx), nx, Pick({1, -1})), e |-> v(ne), s |-> Pick({0, 0, 1})]
      po(k) == [a |-> VPut([t \in 1..nx |-> 0], Pick(1..nx), 1), e |-> v(ne), i |-> 0, d |-> Pick({0, 0, 1, 2})]
      term(k) == [sg |-> <<Pick({1, -1}), Pick({1, 2})>>, p |-> TLCEval([x \in 1..Pick(0..3) |-> po(x)]), g |-> TLCEval([x \in 1..Pick(1..3) |-> line(x)])]
      ts == TLCEval([k \in 1..Pick(1..4) |-> term(k)])
      ok(x) == LET env == NumEnv([type |-> h.type], x, Flags0, PointSource)
               IN  \A k \in 1..Len(ts) :
                     /\ \A i \in 1..Len(ts[k].g) : HPLe(HPTen(-3), HPNorm(HPAdd(HPDot(ts[k].g[i].a, env.X), HPDot(ts[k].g[i].e, env.E))))
                     /\ \A i \in 1..Len(ts[k].p) : LET q == ts[k].p[i]
                                                         IN  HPLe(HPTen(-3), HPNorm(HPAdd(HPOne, HPMul(HPInt(Sigma(Form(q), q.i + 1, env)), HPProdPow(env.x, q.e)))))
      good == SelectSeq(vs, ok)
      o(op, x) == [op |-> op, n |-> h.n, type |-> h.type, src |-> "o", vars |-> x]
  IN  <<[op |-> "set_terms", dst |-> "o", terms |-> ts, ctor |-> Pick({0, 1})], [op |-> "dump_terms", src |-> "o"]>> \o
      (IF h.opts.ereg[1] # 0 THEN <<>>
       ELSE Flatten([i \in 1..Len(good) |-> <<o("eval_terms", good[i])>>]) \o
            <<[op |-> "fact_terms", src |-> "o", dst |-> "fo", out |-> 1]>> \o
            Flatten([i \in 1..Len(good) |-> <<o("eval_terms_opt", good[i]) @@ [fac |-> "fo"]>>]))

\* --- steps
Order(n) == TLCEval(Pick(Permutations(1..n)))
\* all poles are simple, in every step
RECURSIVE Simple(_, _)
Simple(mono, js) ==
  /\ \A i \in 1..Len(mono) : mono[i][2] = 1
  /\ js = <<>> \/
     LET j == Head(js)
         act == {i \in 1..Len(mono) : mono[i][1][1][j] # 0}
     IN  /\ \A i \in act, k \in act : PoleOf(mono[i][1], j) = PoleOf(mono[k][1], j) => i = k
         /\ \A i \in act :
              Simple(FoldLeftDomain(LAMBDA m, r : IF r = i THEN m ELSE AddTo(m, Sub(mono[r][1], PoleOf(mono[i][1], j), j), 1, 1), <<>>, mono), Tail(js))
\* the operation that integrates the arrays: one of them is for simple poles, with the frequencies in order
StepOp(p) == IF (\A k \in 1..Len(p) : p[k] = k) /\ Chance(1, 2) /\ Simple(Monomial(FormsOf(g.R0)), p) THEN "step_simple" ELSE "step_spr"
StepsSpr(p, out) == <<[op |-> "start_spr", R0 |-> g.R0, dst |-> "a"]>> \o
                    LET so == TLCEval(StepOp(p))
                    IN  [k \in 1..Len(p) |-> [op |-> so, i |-> p[k] - 1, src |-> "a", out |-> IF k = Len(p) THEN out ELSE 0]]
StepsTerms(p, out) == <<[op |-> "start_terms", R0 |-> g.R0, dst |-> "t"]>> \o
                      [k \in 1..Len(p) |-> [op |-> "step_terms", i |-> p[k] - 1, src |-> "t", dst |-> "t", out |-> IF k = Len(p) THEN out ELSE 0]]
\* all frequencies in some order, evaluating in between
StepsWithValues(p, v) ==
  <<[op |-> "start_spr", R0 |-> g.R0, dst |-> "a"], [op |-> "start_terms", R0 |-> g.R0, dst |-> "t"]>> \o
  LET so == TLCEval(StepOp(p)) IN
  Flatten([k \in 1..Len(p) |-> << [op |-> so, i |-> p[k] - 1, src |-> "a", out |-> 1],
                                  [op |-> "step_terms", i |-> p[k] - 1, src |-> "t", dst |-> "t", out |-> 1],
                                  [op |-> "eval_terms", n |-> k, type |-> g.type, src |-> "t", vars |-> v],
                                  [op |-> "eval_spr", n |-> k, type |-> g.type, src |-> "a", vars |-> v] >>])
\* the orders of integration for which the integrand is well posed and the point regular throughout
OrderOK(p, v) ==
  LET fs == FormsOf(g.R0)
      S == {fs[i] : i \in 1..Len(fs)}
      env == NumEnv([type |-> g.type], v, Flags0, Source(g.R0, p, TRUE, FALSE))
  IN  /\ WellPosed(S, p, Plain(Len(v.w), g.type, g.opts))
      /\ Cost(Monomial(fs), p) <= Prof.cost
      /\ \A k \in 1..Len(p) : Regular(S, SubSeq(p, 1, k), env @@ Tolerance(v))
GoodOrders(v) == {p \in Permutations(1..g.n) : OrderOK(p, v)}
\* values for the frequencies not yet summed over
Generic(v) == [v EXCEPT !.w = TLCEval([t \in 1..Len(@) |-> IF t <= g.n THEN Pick({-11, -7, 5, 9, 13}) ELSE @[t]])]
OrdersNow(v) == {p \in Permutations(1..g.n) : WellPosed({FormsOf(g.R0)[i] : i \in 1..Len(g.R0)}, p, Plain(Len(g.R0[1].a), g.type, g.opts))}

\* --- sessions: any operations on a few containers, reused
\* state: the operations so far; the integrand (by number, or 0) that each container of arrays and of
\* terms holds; <<kind, container, integrand, times derived>> of each factorised form, or <<>>; the flag drop_der
\* (Py: what the Python module offers)
Py == P = "pysession"
Walk0 == [ops |-> <<>>, sp |-> [c \in {"a", "b"} |-> 0], tm |-> [c \in {"t", "u"} |-> 0], fa |-> [c \in {"f", "h"} |-> <<>>], dd |-> FALSE]
Do(st, op) == [st EXCEPT !.ops = Append(@, op)]
Forget(fa, kind, c) == [f \in DOMAIN fa |-> IF fa[f] # <<>> /\ fa[f][1] = kind /\ fa[f][2] = c THEN <<>> ELSE fa[f]]
\* an evaluation, with the earlier one that it has to agree with, if any: the same route, integrand,
\* derivative, point and flags
Evaluated2(st, o) ==
  LET op == o @@ [dd |-> IF st.dd THEN 1 ELSE 0]
      prev == {n \in 1..Len(st.ops) : \A x \in {"op", "int", "vars", "dd", "dv"} : Has(st.ops[n], x) /\ st.ops[n][x] = op[x]}
  IN  Do(st, IF prev = {} THEN op ELSE op @@ [same |-> CHOOSE n \in prev : \A m \in prev : n <= m])
\* the last operation, if an evaluation, once more at another point
Again(st, point(_)) ==
  IF st.ops = <<>> \/ ~Has(Last(st.ops), "int") THEN st
  ELSE LET o == Last(st.ops)
       IN  Evaluated2(st, [x \in DOMAIN o \ {"same", "dd"} |-> IF x = "vars" THEN point(o.int) ELSE o[x]])
One(S) == CHOOSE x \in S : TRUE        \* of a set with one element, which TLC evaluates once
\* one step, drawn by: an integrand, containers, a choice of operation, and further draws
WalkStep(st) ==
  LET spHeld == {x \in DOMAIN st.sp : st.sp[x] # 0}
      tmHeld == {x \in DOMAIN st.tm : st.tm[x] # 0}
      faHeld == {x \in DOMAIN st.fa : st.fa[x] # <<>>}
      point(j) == PickQ(pts[j])
      Of(j, dv) == [int |-> j, dv |-> dv]
      Build(i, c, t, f, x, y, z, choice, coin, coin2) ==
        CASE choice \in {1, 2} -> [Do(st, Spr(ints[i], c, 1)) EXCEPT !.sp[c] = i, !.fa = Forget(@, "spr", c)]
          [] choice \in {3, 4} -> [Do(st, TermList(ints[i], t, 1)) EXCEPT !.tm[t] = i, !.fa = Forget(@, "terms", t)]
          [] choice = 5 /\ x # "" -> [Do(st, [op |-> "fact_spr", src |-> x, dst |-> f, out |-> 1]) EXCEPT !.fa[f] = <<"spr", x, st.sp[x], 0>>]
          [] choice = 6 /\ y # "" -> [Do(st, [op |-> "fact_terms", src |-> y, dst |-> f, out |-> 1]) EXCEPT !.fa[f] = <<"terms", y, st.tm[y], 0>>]
          [] choice \in {7, 8, 9} /\ x # "" ->
               Evaluated2(st, Evalu(ints[st.sp[x]], IF coin = 0 /\ ~Py THEN "eval_otf" ELSE "eval_spr", x, point(st.sp[x])) @@ Of(st.sp[x], 0))
          [] choice \in {10, 11} /\ y # "" ->
               Evaluated2(st, Evalu(ints[st.tm[y]], "eval_terms", y, point(st.tm[y])) @@ Of(st.tm[y], 0))
          [] choice \in {12, 13} /\ z # "" ->
               LET h == ints[st.fa[z][3]]
               IN  Evaluated2(st, EvaluF(h, IF st.fa[z][1] = "spr" THEN "eval_spr_opt" ELSE "eval_terms_opt", st.fa[z][2], z, point(st.fa[z][3]))
                                    @@ Of(st.fa[z][3], st.fa[z][4]))
          [] choice = 12 /\ z = "" /\ x # "" ->
               Evaluated2(st, EvaluF(ints[st.sp[x]], "eval_spr_opt", x, "none", point(st.sp[x])) @@ Of(st.sp[x], 9))
          [] choice = 13 /\ z = "" /\ y # "" ->
               Evaluated2(st, EvaluF(ints[st.tm[y]], "eval_terms_opt", y, "none", point(st.tm[y])) @@ Of(st.tm[y], 9))
          [] choice \in {14, 15, 16} -> Again(st, point)
          [] choice = 17 /\ Py -> st
          [] choice = 17 -> CASE coin = 0 -> Do(st, [op |-> "flags", verbose |-> coin2 % 2])
                              [] coin = 1 -> Do(st, [op |-> "flags", cutoff |-> <<<<1, 1000>>, <<1, 1>>, <<1000, 1>>, <<1000000, 1>>>>[coin2 + 1]])
                              [] coin = 2 -> Do(st, IF coin2 % 2 = 0 THEN [op |-> "flags", drop_bosonic_diverge |-> coin2 \div 2]
                                                    ELSE [op |-> "flags", drop_matsubara_poles |-> coin2 \div 2])
                              [] OTHER -> [Do(st, [op |-> "flags", drop_der |-> coin2 % 2]) EXCEPT !.dd = coin2 % 2 = 1]
          [] choice = 18 /\ x # "" /\ coin % 2 = 0 -> Do(IF Py THEN st ELSE Do(st, [op |-> "print", spr |-> x]), [op |-> "dump_spr", src |-> x])
          [] choice = 18 /\ y # "" -> Do(IF Py THEN st ELSE Do(st, [op |-> "print", terms |-> y]), [op |-> "dump_terms", src |-> y])
          [] choice = 19 /\ z # "" -> IF coin > 1 /\ st.fa[z][4] = 0 /\ ~Py
                                      THEN [Do(st, [op |-> "deriv_opt", dst |-> z, out |-> 1]) EXCEPT !.fa[z][4] = @ + 1]
                                      ELSE Do(st, [op |-> "dump_fac", src |-> z])
          [] choice = 20 /\ coin = 0 -> [Do(st, [op |-> "object", ctor |-> coin2 % 2]) EXCEPT !.dd = FALSE]
          [] OTHER -> st
      Held(S) == IF S = {} THEN "" ELSE Pick(S)
  IN  One({Build(i, c, t, f, x, y, z, choice, coin, coin2) :
             i \in {Pick(1..Len(ints))}, c \in {Pick(DOMAIN st.sp)}, t \in {Pick(DOMAIN st.tm)}, f \in {Pick(DOMAIN st.fa)},
             x \in {Held(spHeld)}, y \in {Held(tmHeld)}, z \in {Held(faHeld)}, choice \in {Pick(1..20)}, coin \in {Pick(0..3)}, coin2 \in {Pick(0..3)}})
\* (a fold, which evaluates every step once)
Walk(st, k) == FoldLeft(LAMBDA s, n : WalkStep(s), st, [n \in 1..k |-> n]).ops

\* some operations are performed many times
Often(ops) ==
  TLCEval([k \in 1..Len(ops) |->
     IF ops[k].op \in Evals \cup {"spr", "terms", "fact_spr", "fact_terms"} /\ Chance(1, 10)
     THEN ops[k] @@ [times |-> PickQ(<<2, 10, 50, 300>>)] ELSE ops[k]])
AWalk(k) == Often(Walk(Walk0, k))

\* --- overflow: evaluations under several cutoffs, the flag being that of the last evaluation
OvfOps ==
  LET cut(x) == [op |-> "flags", cutoff |-> x]
      cuts == <<<<1, 1>>, <<1000, 1>>, <<10000000, 1>>, <<1000000000, 1>>, <<1, 1000>>>>
  IN  <<SprOp(0), TermsOp(0), FactS(0), FactT(0)>> \o
      Flatten([i \in 1..Len(pts[1]) |->
         (IF Chance(1, 2) THEN <<cut(PickQ(cuts))>> ELSE <<>>) \o MostRoutes(pts[1][i]) \o
         (IF Chance(1, 4) THEN <<Unfactored("eval_spr_opt", "a", pts[1][i]), Unfactored("eval_terms_opt", "t", pts[1][i])>> ELSE <<>>)])

Script ==
  CASE P \in {"spr", "cold", "deep", "wide", "big"} -> <<SprOp(1)>> \o Each(LAMBDA v : Eval("eval_spr", "a", v))
    [] P \in {"terms", "coldterms", "deepterms", "wideterms", "bigterms"} -> <<TermsOp(1), SprOp(0)>> \o Each(LAMBDA v : Eval("eval_terms", "t", v)) \o Each(LAMBDA v : Eval("eval_spr", "a", v))
    [] P \in {"multi", "pf", "all", "lots"} -> <<SprOp(1), TermsOp(1), FactS(1), FactT(1)>> \o Flatten(Each(AllRoutes))
    [] P = "multisan" -> <<SprOp(0), TermsOp(0), FactS(0), FactT(0)>> \o Flatten(Each(AllRoutes))
    [] P \in {"types", "typesdeep"} -> <<SprOp(1), TermsOp(1), FactS(0), FactT(0)>> \o Flatten(Each(AllRoutes))
    [] P \in {"fspr", "widef", "bigf"} -> <<SprOp(1), FactS(1)>> \o Flatten(Each(LAMBDA v : <<EvalF("eval_spr_opt", "a", "f", v), Eval("eval_spr", "a", v)>>)) \o
                   Each(LAMBDA v : Unfactored("eval_spr_opt", "a", v)) \o <<[op |-> "dump_fac", src |-> "f"]>>
    [] P = "fterms" ->
         <<TermsOp(1), FactT(1)>> \o Each(LAMBDA v : EvalF("eval_terms_opt", "t", "ft", v)) \o Each(LAMBDA v : Unfactored("eval_terms_opt", "t", v)) \o
         <<TermList(ints[2], "u", 0), TermList(ints[3], "v", 0),
           [op |-> "cat_terms", srcs |-> <<"t", "u", "v">>, dst |-> "w"],
           [op |-> "fact_terms", src |-> "w", dst |-> "fw", out |-> 0]>> \o
         Each(LAMBDA v : EvalF("eval_terms_opt", "w", "fw", v)) \o Each(LAMBDA v : Eval("eval_terms", "w", v)) \o OwnTerms(g, pts[1])
    [] P = "bigfterms" -> <<TermsOp(1), FactT(1)>> \o Each(LAMBDA v : EvalF("eval_terms_opt", "t", "ft", v))
    [] P \in {"otf", "wideotf", "bigotf"} -> <<SprOp(0)>> \o Each(LAMBDA v : Eval("eval_otf", "a", v))
    [] P = "opts" -> <<FlagsOp(g.opts), SprOp(0), TermsOp(0), FactS(0), FactT(0)>> \o Flatten(Each(AllRoutes))
    [] P = "ovf" -> OvfOps
    [] P \in {"session", "pysession"} -> AWalk(40)
    [] P = "marathon" -> AWalk(600)
    [] P = "threads" -> << AWalk(25), AWalk(25), AWalk(25), AWalk(25) >>
    [] P = "stat" -> Many(30, StatOp) \o Many(12, PoleOp) \o Many(5, EnergyOp) \o Many(5, GprodOp) \o Many(5, NumberOp)
    [] P = "poles" -> Many(25, FindPolesOp) \o Many(15, ResidueOp) \o Many(10, SubOp) \o Many(10, DerivOp) \o Many(5, SplitOp)
    [] P = "equiv" -> Many(50, EquivOp) \o
         Flatten(Many(5, LAMBDA i : << [op |-> "set_terms", dst |-> "t", terms |-> RawTerms(i)], [op |-> "dump_terms", src |-> "t"],
                                       [op |-> "fact_terms", src |-> "t", dst |-> "ft", out |-> 1] >>))
    [] P = "der" -> <<SprOp(1), TermsOp(1), FactS(1), FactT(1), [op |-> "deriv_opt", dst |-> "f", out |-> 1], [op |-> "deriv_opt", dst |-> "ft", out |-> 1]>> \o
         Flatten(Each(LAMBDA v : <<EvalF("eval_spr_opt", "a", "f", v), EvalF("eval_terms_opt", "t", "ft", v)>>)) \o
         (IF Chance(1, 2) THEN <<>>
          ELSE <<[op |-> "deriv_opt", dst |-> "f", out |-> 1], [op |-> "deriv_opt", dst |-> "ft", out |-> 1]>> \o
               Flatten(Each(LAMBDA v : <<EvalF("eval_spr_opt", "a", "f", v), EvalF("eval_terms_opt", "t", "ft", v)>>)))
    [] P = "variants" ->
         Flatten([k \in 1..Len(ints) |->
           LET v == PointFor(k, pts[1][1])
               rel(n) == IF k = 1 THEN [x \in {} |-> 0] ELSE [rel |-> <<n, ints[k].sg>>]
               a == <<"a", "b", "c", "d">>[k]
               t == <<"t", "u", "v", "w">>[k]
           IN  << Spr(ints[k], a, 0), TermList(ints[k], t, 0),
                  Evalu(ints[k], "eval_spr", a, v) @@ rel(3), Evalu(ints[k], "eval_terms", t, v) @@ rel(3),
                  Evalu(ints[k], "eval_spr_parts", a, v) @@ rel(3) >>])
    [] P = "shape" -> <<SprOp(1)>> \o
         LET p == RandomElement(OrdersNow(<<>>)) IN StepsSpr(p, 1)
    [] P = "steps" -> LET v == Generic(pts[1][1])
                      IN  CHOOSE q \in { LET ps == GoodOrders(x) IN IF ps = {} THEN <<[op |-> "flags", verbose |-> 0]>>
                                                                    ELSE LET p == RandomElement(ps) IN StepsWithValues(p, x) : x \in {TLCEval(v)} } : TRUE
    [] P = "species" -> <<SprOp(1), TermsOp(1), FactS(1), FactT(1)>>
    [] P = "parts" -> <<SprOp(0), TermsOp(0)>> \o Flatten(Each(LAMBDA v : <<Eval("eval_spr_parts", "a", v), Eval("eval_terms_each", "t", v), Eval("eval_terms_parts", "t", v),
                                                                    Unfactored("eval_spr_opt", "a", v), Unfactored("eval_terms_opt", "t", v)>>))
    [] P = "python" ->
         Flatten([k \in 1..Len(ints) |->
           <<Spr(ints[k], "a", 1), TermList(ints[k], "t", 1), FactS(1), FactT(1)>> \o
           Flatten([n \in 1..Len(pts[k]) |-> LET h == ints[k] IN
             <<Evalu(h, "eval_spr", "a", pts[k][n]), Evalu(h, "eval_terms", "t", pts[k][n]),
               EvaluF(h, "eval_spr_opt", "a", "f", pts[k][n]), EvaluF(h, "eval_terms_opt", "t", "ft", pts[k][n]),
               EvaluF(h, "eval_spr_opt", "a", "none", pts[k][n]), EvaluF(h, "eval_terms_opt", "t", "none", pts[k][n])>>]) \o
           <<[op |-> "dump_spr", src |-> "a"], [op |-> "dump_terms", src |-> "t"], [op |-> "dump_fac", src |-> "f"]>> \o
           OwnTerms(ints[k], pts[k])])

WriteScript ==
  /\ Ready /\ hist = <<>>
  /\ hist' = TLCEval(Script)
  /\ UNCHANGED <<shape, draft, ints, pts>>

\* (a case with threads has a list of operations for each)
Done == hist # <<>> /\ PrintT(ToJson(IF P = "threads" THEN [threads |-> hist] ELSE [ops |-> hist])) /\ FALSE /\ UNCHANGED vars

Next == ChooseShape \/ DrawIntegrand \/ JudgeIntegrand \/ Derive \/ DrawAPoint \/ WriteScript \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
