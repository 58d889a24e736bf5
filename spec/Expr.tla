---------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* What the library's results denote.  Lines, poles, terms and S/P/R       *)
(* arrays are recorded as JSON:                                            *)
(*   line  [a, e, s]            pole  [a, e, i (from 0), m, d, g]          *)
(*   term  [sg, p, g]           arrays [R, P, S];  signs are <<num, den>>  *)
(*   or <<num, den, den>>                                                  *)
(* Values are <<value, sum of absolute values>> at a point (see Matsubara).*)
(***************************************************************************)
EXTENDS Matsubara

Rat(q) == IF Len(q) = 3 THEN HPMul(HPRat(q[1], q[2]), HPRat(1, q[3])) ELSE HPRat(q[1], q[2])

ProdG(gs, env) == FoldLeft(LAMBDA acc, g : HPMul(acc, GVal(Form(g), env)), HPOne, gs)
ProdP(ps, env) == FoldLeft(LAMBDA acc, p : HPMul(acc, PoleFactor(p.d, Form(p), p.i + 1, env)), HPOne, ps)

\* derivative by the last frequency of a product of lines (env.der times)
ProdGD(gs, env) == LeafVal(Monomial([i \in 1..Len(gs) |-> Form(gs[i])]), env)

Sum2(acc, v) == <<HPAdd(acc[1], v), HPAdd(acc[2], HPNorm(v))>>
Zero2 == <<HPZero, HPZero>>

TermVal(t, env) == HPMul(Rat(t.sg), HPMul(ProdP(t.p, env), HPMul(env.pf, ProdGD(t.g, env))))
TermsVal(ts, env) == FoldLeft(LAMBDA acc, t : Sum2(acc, TermVal(t, env)), Zero2, ts)

\* The arrays of n integrations are well formed: one list of poles and signs for every
\* product of a step, and as many poles in all as there are products after the step.
ArraysShape(A, n) ==
  /\ Len(A.R) = n + 1 /\ Len(A.P) = n /\ Len(A.S) = n
  /\ Len(A.R[1]) = 1
  /\ \A i \in 1..n :
       /\ Len(A.P[i]) = Len(A.R[i]) /\ Len(A.S[i]) = Len(A.R[i])
       /\ \A k \in 1..Len(A.P[i]) : Len(A.P[i][k]) = Len(A.S[i][k])
       /\ FoldLeft(LAMBDA acc, l : acc + Len(l), 0, A.P[i]) = Len(A.R[i + 1])

\* the coefficients of the products after step n: each product of step n - 1 hands its
\* coefficient to its poles
RECURSIVE Coefs(_, _, _)
Coefs(A, n, env) ==
  IF n = 0 THEN <<HPOne>>
  ELSE LET prev == Coefs(A, n - 1, env)
           row(k) == [r \in 1..Len(A.P[n][k]) |->
                        LET p == A.P[n][k][r]
                        IN  HPMul(prev[k], HPMul(Rat(A.S[n][k][r]), PoleFactor(p.d, Form(p), p.i + 1, env)))]
       IN  FoldLeftDomain(LAMBDA acc, k : acc \o row(k), <<>>, A.P[n])

ArraysVal(A, n, env) ==
  LET K == Coefs(A, n, env)
      R == A.R[n + 1]
  IN  FoldLeftDomain(LAMBDA acc, k : Sum2(acc, HPMul(K[k], HPMul(env.pf, ProdGD(R[k], env)))), Zero2, R)

\* No line of the result depends on the frequencies that were summed over.
Eliminated(gs, vars) == \A i \in 1..Len(gs) : \A k \in 1..Len(vars) : gs[i].a[vars[k]] = 0


Close(v, w, mag, digits) ==   \* |v - w| <= 10^-digits * mag, but for what doubles cannot represent
  HPLe(HPNorm(HPAdd(v, HPNeg(w))), HPAdd(HPMul(HPTen(-digits), mag), HPTen(-250)))
===============================================================================
