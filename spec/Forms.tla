--------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* The symbolic objects of algorithmic Matsubara integration.              *)
(*                                                                         *)
(* A form is a pair <<a, e>> of integer vectors.  It stands for the line   *)
(*      G = 1 / (X + E),   X = sum_t a[t] X_t,   E = sum_i e[i] E_i,       *)
(* X_t being the frequencies (the integration variables first, then the    *)
(* external ones) and E_i the energies.  A pole is a form too: it gives    *)
(* the location of the pole, X_j = sum_t a[t] X_t + sum_i e[i] E_i.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Vec

Form(g) == <<g.a, g.e>>                       \* of a recorded line or pole

\* The pole of line f in the frequency j, for f[1][j] = 1 or -1.
PoleOf(f, j) == << VPut(VScale(-f[1][j], f[1]), j, 0), VScale(-f[1][j], f[2]) >>

\* Line (or pole) f with X_j replaced by the pole p.
Sub(f, p, j) ==
  IF f[1][j] = 0 THEN f
  ELSE << VPut(VAxpy(f[1], f[1][j], p[1]), j, 0), VAxpy(f[2], f[1][j], p[2]) >>

Opposite(f) == << VScale(-1, f[1]), VScale(-1, f[2]) >>

\* A monomial is a sequence of <<form, power>> with distinct forms.
RECURSIVE AddTo(_, _, _, _)
AddTo(mono, f, n, i) ==
  IF i > Len(mono) THEN Append(mono, <<f, n>>)
  ELSE IF mono[i][1] = f THEN [mono EXCEPT ![i] = <<f, @[2] + n>>]
  ELSE AddTo(mono, f, n, i + 1)

RECURSIVE MonoOf(_, _)
MonoOf(fs, k) == IF k = 0 THEN <<>> ELSE AddTo(MonoOf(fs, k - 1), fs[k], 1, 1)
Monomial(fs) == MonoOf(fs, Len(fs))           \* of a sequence of forms

Binomial(n, k) ==
  LET b[i \in 0..k] == IF i = 0 THEN 1 ELSE (b[i-1] * (n - i + 1)) \div i IN b[k]

Factorial(n) == LET f[i \in 0..n] == IF i = 0 THEN 1 ELSE i * f[i-1] IN f[n]

\* All sequences of k naturals with sum n.
RECURSIVE Compositions(_, _)
Compositions(n, k) ==
  IF k = 0 THEN (IF n = 0 THEN {<<>>} ELSE {})
  ELSE UNION { { <<c>> \o r : r \in Compositions(n - c, k - 1) } : c \in 0..n }
===============================================================================
