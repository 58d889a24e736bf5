---------------------------------- MODULE HP ----------------------------------
(***************************************************************************)
(* Complex numbers to 70 significant digits, for comparing the library's   *)
(* doubles with exact values.  TLC has only 32-bit integers, so these      *)
(* operators are evaluated by java/HP.java (a TLC module override, which   *)
(* implements arithmetic and nothing else).  The definitions below only    *)
(* give their meaning; TLC never evaluates them.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Undefined == CHOOSE x : TRUE

HPRat(n, d)       == Undefined  \* n / d
HPCx(a, b)        == Undefined  \* a + i b
HPAdd(a, b)       == Undefined  \* a + b
HPMul(a, b)       == Undefined  \* a * b
HPNeg(a)          == Undefined  \* -a
HPInv(a)          == Undefined  \* 1 / a
HPPow(a, n)       == Undefined  \* a^n for an integer n of either sign
HPDot(ns, vs)     == Undefined  \* the sum of ns[k] * vs[k]
HPProdPow(vs, ns) == Undefined  \* the product of vs[k]^ns[k]
HPExp(a)          == Undefined  \* exp(a)
HPLn2             == Undefined  \* ln 2
HPPi              == Undefined  \* pi
HPNorm(a)         == Undefined  \* |Re a| + |Im a|
HPRe(a)           == Undefined  \* Re a
HPIsZero(a)       == Undefined  \* a = 0
HPLe(a, b)        == Undefined  \* Re a <= Re b
HPTen(n)          == Undefined  \* 10^n
HPFrac(a)         == Undefined  \* the distance of Re a from the nearest integer
HPFinite(s)       == Undefined  \* the string s is a number (not "nan", "inf", "-inf")
HPParse(s)        == Undefined  \* the number the string s denotes
HPShow(a)         == Undefined  \* a as a string
HPRead(s)         == Undefined  \* the number that HPShow wrote

HPInt(n) == HPRat(n, 1)
HPIm(a)  == HPRe(HPMul(a, HPCx(HPRat(0, 1), HPRat(-1, 1))))     \* Im a
HPAbs(a) == IF HPLe(HPRat(0, 1), a) THEN a ELSE HPNeg(a)         \* of a real a
HPZero   == HPRat(0, 1)
HPOne    == HPRat(1, 1)
===============================================================================
