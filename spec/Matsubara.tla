------------------------------- MODULE Matsubara ------------------------------
(***************************************************************************)
(* What the library computes: the Matsubara sum of a product of lines.     *)
(*                                                                         *)
(* The sum over one frequency of a product of lines is, by the residue     *)
(* theorem, the sum over its distinct poles z of the coefficient of 1/t in *)
(* f(z + t) * (product at z + t).  MSum writes this down with power series *)
(* in t (a line with power n contributes binomial coefficients), and not   *)
(* with the library's repeated product-rule derivatives; equal lines are   *)
(* kept together as powers, and poles are compared as forms.               *)
(*                                                                         *)
(* A point, env, gives values to the symbols:                              *)
(*   X, E   frequencies and energies        x    x[i] = exp(beta E_i)      *)
(*   beta   inverse temperature             ferm ferm[t]: X_t is fermionic *)
(*   docc   the last frequency, when it is summed over, is bosonic and the *)
(*          sum gets a minus sign (double occupancy)                       *)
(*   ereg, xreg, dropBose, dropDer          evaluation options (below)     *)
(*   dropM, bos                             construction options (below)   *)
(*   der    evaluate the der-th derivative by the last frequency           *)
(***************************************************************************)
EXTENDS Forms, HP, SequencesExt, TLC

OverSet(op(_, _), base, S) == FoldLeft(op, base, SetToSeq(S))   \* op(accumulated, element)

\* ------------------------------------------------------- Fermi and Bose
\* f = 1/(s x + 1), g = 1 - f, x = exp(beta E).  f' = -beta f g, so that the m-th
\* derivative is beta^m f g Q_m(f), with Q_1 = -1 and
\* Q_{m+1} = (2f - 1) Q_m - (f - f^2) Q_m'.   Polynomials are sequences, low powers first.
MaxDer == 14
QPoly[m \in 1..MaxDer] ==
  IF m = 1 THEN <<HPInt(-1)>>
  ELSE LET q == QPoly[m - 1]
           n == Len(q)
           c(i) == IF i >= 1 /\ i <= n THEN q[i] ELSE HPZero     \* coefficient of f^(i-1)
       IN  TLCEval([i \in 1..(n + 1) |->   \* 2f Q + f^2 Q'  and  -Q - f Q'
              HPAdd(HPMul(HPInt(i), c(i-1)), HPMul(HPInt(-i), c(i)))])
\* (kept as strings, which TLC computes once)
Shown(q) == TLCEval([i \in 1..Len(q) |-> HPShow(q[i])])
QTable == TLCEval([m \in 1..MaxDer |-> Shown(QPoly[m])])

Horner(q, f) == FoldRight(LAMBDA c, acc : HPAdd(HPRead(c), HPMul(f, acc)), q, HPZero)

\* the m-th derivative by E of 1/(s x + 1)
FermiBose(m, s, x, beta) ==
  LET f == HPInv(HPAdd(HPOne, HPMul(HPInt(s), x)))
      g == HPMul(HPMul(HPInt(s), x), f)
  IN  IF m = 0 THEN f
      ELSE HPMul(HPPow(beta, m), HPMul(HPMul(f, g), Horner(QTable[m], f)))

\* The size of the terms of the sum over k of k! S(m,k) (-1)^k f g^k (S: Stirling numbers of
\* the second kind), which gives the same derivative: how well doubles can know it.
SPoly[m \in 0..MaxDer] ==   \* k! S(m, k) for k = 0..m
  IF m = 0 THEN <<HPOne>>
  ELSE LET q == SPoly[m - 1]
           c(i) == IF i >= 1 /\ i <= m THEN q[i] ELSE HPZero
       IN  TLCEval([i \in 1..(m + 1) |-> HPMul(HPInt(i - 1), HPAdd(c(i), c(i-1)))])
STable == TLCEval([m \in 1..MaxDer |-> Shown(SPoly[m])])
FermiBoseSize(m, s, x, beta) ==
  LET f == HPInv(HPAdd(HPOne, HPMul(HPInt(s), x)))
  IN  IF m = 0 THEN HPNorm(f)
      ELSE HPMul(HPPow(beta, m), HPMul(HPNorm(f), Horner(STable[m], HPNorm(HPMul(x, f)))))

\* How much less well doubles know 1/(s x + 1) close to its pole.
FermiBoseSens(s, x) ==
  LET d == HPNorm(HPAdd(HPOne, HPMul(HPInt(s), x)))
  IN  IF HPLe(HPTen(-5), d) THEN HPOne ELSE HPMul(HPTen(-5), HPInv(d))

\* The statistics of a pole in the frequency j: +1 Fermi, -1 Bose.
CountFermi(p, env) == Cardinality({t \in 1..Len(p[1]) : p[1][t] # 0 /\ env.ferm[t]})
LastVar(p, j) == j = Len(p[1])
Sigma(p, j, env) ==
  LET n == CountFermi(p, env) + (IF env.docc /\ LastVar(p, j) THEN 1 ELSE 0)
  IN  IF n % 2 = 0 THEN 1 ELSE -1

\* The statistical factor of the pole p of frequency j, differentiated m times.
\* A regulator moves its energy away from zero; a Bose function at zero energy
\* may be dropped instead, and so may all derivatives.
Regulated(x, E, env) ==
  IF env.ereg = FALSE THEN x
  ELSE HPMul(x, IF HPIsZero(HPRe(E)) \/ HPLe(HPZero, E) THEN env.xreg ELSE HPInv(env.xreg))
PoleFactor(m, p, j, env) ==
  LET E == HPDot(p[2], env.E)
      s == Sigma(p, j, env)
      x == HPProdPow(env.x, p[2])
      atZero == HPIsZero(E)
      xr == Regulated(x, E, env)
      v == FermiBose(m, s, xr, env.beta)
  IN  IF atZero /\ s = -1 /\ env.dropBose THEN HPZero
      ELSE IF env.dropDer /\ m # 0 THEN HPZero
      ELSE IF env.docc /\ LastVar(p, j) THEN HPNeg(v) ELSE v

\* How large the numbers are from which doubles compute it.
PoleSize(m, p, j, env) ==
  LET E == HPDot(p[2], env.E)
      s == Sigma(p, j, env)
      xr == Regulated(HPProdPow(env.x, p[2]), E, env)
  IN  IF (HPIsZero(E) /\ s = -1 /\ env.dropBose) \/ (env.dropDer /\ m # 0) THEN HPZero
      ELSE HPMul(IF HPIsZero(E) THEN HPOne ELSE FermiBoseSens(s, xr), FermiBoseSize(m, s, xr, env.beta))

\* A pole without energy at a Matsubara frequency of its own line: the construction
\* leaves it out when asked to.  (It counts the other frequencies of the pole; a
\* bosonic external one does not count.)
IsMatsubaraPole(p, env) ==
  /\ VIsZero(p[2])
  /\ Cardinality({t \in 1..Len(p[1]) : p[1][t] # 0 /\ ~(env.bos /\ t = Len(p[1]))}) % 2 = 1
Left(p, env) == env.dropM /\ IsMatsubaraPole(p, env)

\* ------------------------------------------------------------- the lines
GVal(f, env) == HPInv(HPAdd(HPDot(f[1], env.X), HPDot(f[2], env.E)))

\* ------------------------------------------------------------ the results
\* <<value, sum of the absolute values of the contributions, largest coefficient of
\*   a product of lines, largest derivative of a statistical factor, some product of
\*   lines has a real part close to an integer, number of terms of repeated product rules>>
Nothing == <<HPZero, HPZero, HPZero, HPZero, FALSE, HPZero>>
Vanishing == <<HPZero, HPZero, HPZero, HPZero, TRUE, HPZero>>    \* of products not looked at
Max2(a, b) == IF HPLe(a, b) THEN b ELSE a
Plus(r, q) == <<HPAdd(r[1], q[1]), HPAdd(r[2], q[2]), Max2(r[3], q[3]), Max2(r[4], q[4]), r[5] \/ q[5], HPAdd(r[6], q[6])>>

LeafVal(mono, env) ==
  LET gs == [i \in 1..Len(mono) |-> GVal(mono[i][1], env)]
      P  == FoldLeftDomain(LAMBDA acc, i : HPMul(acc, HPPow(gs[i], mono[i][2])), HPOne, mono)
      \* logarithmic derivative by the last frequency, and its derivative
      s1 == FoldLeftDomain(LAMBDA acc, i : HPAdd(acc, HPMul(HPInt(-mono[i][2] * Last(mono[i][1][1])), gs[i])), HPZero, mono)
      s2 == FoldLeftDomain(LAMBDA acc, i : HPAdd(acc, HPMul(HPInt(mono[i][2] * Last(mono[i][1][1]) * Last(mono[i][1][1])), HPMul(gs[i], gs[i]))), HPZero, mono)
  IN  CASE env.der = 0 -> P
        [] env.der = 1 -> HPMul(P, s1)
        [] env.der = 2 -> HPMul(P, HPAdd(HPMul(s1, s1), s2))

\* ----------------------------------------------------------- the sum itself
HPFact(n) == FoldLeft(LAMBDA acc, k : HPMul(acc, HPInt(k)), HPOne, [k \in 1..n |-> k])
\* K: the coefficient so far; W: how many terms of repeated product rules this is;
\* Z: how large the numbers were from which doubles compute K; md: the largest derivative so far
RECURSIVE MSum(_, _, _, _, _, _, _)
MSum(mono, vars, env, K, W, Z, md) ==
  IF vars = <<>>
  THEN LET P == HPMul(env.pf, LeafVal(mono, env))
           v == HPMul(K, P)
       IN  <<v, HPMul(Z, HPNorm(P)), HPNorm(K), md, HPLe(HPFrac(P), HPTen(-9)), W>>
  ELSE
    LET j     == Head(vars)
        act   == {i \in 1..Len(mono) : mono[i][1][1][j] # 0}
        poles == {PoleOf(mono[i][1], j) : i \in act}
        Residue(p) ==
          LET on   == {i \in act : PoleOf(mono[i][1], j) = p}
              M    == OverSet(LAMBDA n, i : n + mono[i][2], 0, on)
              sgn  == OverSet(LAMBDA n, i : IF mono[i][1][1][j] = -1 /\ mono[i][2] % 2 = 1 THEN -n ELSE n, 1, on)
              rest == SelectSeq([i \in 1..Len(mono) |-> IF i \in on THEN <<>> ELSE mono[i]], LAMBDA m : m # <<>>)
              dep  == SelectSeq([i \in 1..Len(rest) |-> IF rest[i][1][1][j] # 0 THEN i ELSE 0], LAMBDA i : i # 0)
              Order(k) ==   \* the k-th derivative of the statistical factor
                LET f == PoleFactor(k, p, j, env)
                    c == HPMul(K, HPMul(f, HPMul(HPInt(sgn), HPInv(HPFact(k)))))
                    z == HPMul(Z, HPMul(PoleSize(k, p, j, env), HPInv(HPFact(k))))
                    d == IF k = 0 THEN md ELSE Max2(md, HPNorm(f))
                    Expand(cs) ==   \* take the power cs[i] of t from line dep[i]
                      LET w == FoldLeftDomain(LAMBDA n, i :
                                 n * (IF cs[i] % 2 = 1 THEN -rest[dep[i]][1][1][j] ELSE 1)
                                   * Binomial(rest[dep[i]][2] + cs[i] - 1, cs[i]), 1, cs)
                          extra(r) == LET at == {i \in 1..Len(dep) : dep[i] = r}
                                      IN  IF at = {} THEN 0 ELSE cs[CHOOSE i \in at : TRUE]
                          m2 == FoldLeftDomain(LAMBDA m, r :
                                  AddTo(m, Sub(rest[r][1], p, j), rest[r][2] + extra(r), 1), <<>>, rest)
                          aw == HPInt(IF w < 0 THEN -w ELSE w)
                      IN  MSum(m2, Tail(vars), env, HPMul(c, HPInt(w)),
                               HPMul(W, HPMul(aw, HPMul(HPFact(M - 1), HPInv(HPFact(k))))), HPMul(z, aw), d)
                IN  IF HPIsZero(z) THEN Vanishing
                    ELSE OverSet(LAMBDA acc, cs : Plus(acc, Expand(cs)), Nothing, Compositions(M - 1 - k, Len(dep)))
          IN  OverSet(LAMBDA acc, k : Plus(acc, Order(k)), Nothing, 0..(M - 1))
    IN  OverSet(LAMBDA acc, p : IF Left(p, env) THEN acc ELSE Plus(acc, Residue(p)), Nothing, poles)

MatsubaraSum(forms, vars, env) == MSum(Monomial(forms), vars, env, HPOne, HPOne, HPOne, HPZero)
FirstVars(n) == [i \in 1..n |-> i]

\* ------------------------------------------------------- well-posed integrands
\* Following every choice of poles: no frequency gets a coefficient other than 0, 1, -1
\* (so that the statistics follow from how many frequencies there are),
\* every frequency has a pole, no Bose function is taken at zero energy, no line vanishes.
\* (env.zeros: the options take care of Bose functions at zero energy.)
RECURSIVE WellPosed(_, _, _)
WellPosed(S, vars, env) ==
  IF vars = <<>> THEN \A f \in S : ~(VIsZero(f[1]) /\ VIsZero(f[2]))
  ELSE LET j == Head(vars)
           act == {f \in S : f[1][j] # 0}
       IN  /\ act # {}
           /\ \A f \in act : f[1][j] \in {1, -1}
           /\ \A p \in {PoleOf(f, j) : f \in act} :
                /\ \A t \in 1..Len(p[1]) : p[1][t] \in {0, 1, -1}
                /\ env.zeros \/ (~(VIsZero(p[2]) /\ Sigma(p, j, env) = -1) /\ ~Left(p, env))
                /\ LET S2 == {Sub(f, p, j) : f \in {g \in S : g[1][j] = 0 \/ PoleOf(g, j) # p}}
                   IN  WellPosed(S2, Tail(vars), env)

\* The point is regular for the integrand: values that differ as symbols differ as
\* numbers, by env.tol, wherever the evaluation divides by their difference.
RECURSIVE Regular(_, _, _)
Regular(S, vars, env) ==
  IF vars = <<>> THEN \A f \in S : HPLe(env.tol, HPNorm(HPAdd(HPDot(f[1], env.X), HPDot(f[2], env.E))))
  ELSE LET j == Head(vars)
           poles == {PoleOf(f, j) : f \in {g \in S : g[1][j] # 0}}
       IN  \A p \in poles :
             \/ Left(p, env)
             \/ /\ LET xr == HPProdPow(env.x, p[2])
                       d  == HPAdd(HPOne, HPMul(HPInt(Sigma(p, j, env)), xr))
                   IN  \/ HPLe(env.tol, HPNorm(d))
                       \/ HPIsZero(HPDot(p[2], env.E)) /\ Sigma(p, j, env) = -1 /\ (env.dropBose \/ env.ereg)
                /\ \A q \in poles : q # p /\ q[1] = p[1] =>
                     HPLe(env.tol, HPNorm(HPAdd(HPDot(p[2], env.E), HPNeg(HPDot(q[2], env.E)))))
                /\ LET S2 == {Sub(f, p, j) : f \in {g \in S : g[1][j] = 0 \/ PoleOf(g, j) # p}}
                   IN  Regular(S2, Tail(vars), env)
===============================================================================
