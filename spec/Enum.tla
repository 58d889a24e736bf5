---------------------------------- MODULE Enum ---------------------------------
(***************************************************************************)
(* Complete enumeration of small integrands, each written out as an        *)
(* operation sequence for the driver (as Gen does for drawn ones): every   *)
(* set of lines with coefficients 0, 1, -1 up to the order of lines, every *)
(* way for lines to have equal energies, that is well posed.               *)
(*                                                                         *)
(* TLC enumerates the initial states; each prints its case.                *)
(***************************************************************************)
EXTENDS Small, Json, IOUtils

P    == IOEnv.PROFILE
Tier == IOEnv.TIER
Parts == atoi(IOEnv.PARTS)
Part  == atoi(IOEnv.PART)

Blocks == IF Tier = "thorough"
          THEN << <<0, 1, 1, TRUE>>, <<0, 1, 2, TRUE>>, <<0, 1, 3, TRUE>>, <<1, 1, 1, TRUE>>, <<1, 1, 2, TRUE>>, <<1, 1, 3, TRUE>>, <<1, 1, 4, TRUE>>,
                  <<1, 2, 1, TRUE>>, <<1, 2, 2, TRUE>>, <<1, 2, 3, TRUE>>, <<1, 2, 4, FALSE>>, <<1, 3, 2, TRUE>>, <<1, 3, 3, FALSE>>,
                  <<2, 2, 2, TRUE>>, <<2, 2, 3, TRUE>>, <<2, 2, 4, FALSE>>, <<2, 3, 2, TRUE>>, <<2, 3, 3, TRUE>>, <<2, 3, 4, FALSE>>,
                  <<3, 3, 3, FALSE>>, <<3, 4, 3, FALSE>> >>
          ELSE << <<0, 1, 1, TRUE>>, <<0, 1, 2, TRUE>>, <<1, 1, 1, TRUE>>, <<1, 1, 2, TRUE>>, <<1, 1, 3, TRUE>>,
                  <<1, 2, 1, TRUE>>, <<1, 2, 2, TRUE>>, <<1, 2, 3, FALSE>>, <<2, 2, 2, TRUE>>, <<2, 3, 2, FALSE>>, <<2, 2, 3, FALSE>>, <<2, 3, 3, FALSE>> >>

\* a point: a fixed one, regular for all of these integrands (no combination of energies with coefficients up to 2 vanishes)
PointFor(n, nx, ne) ==
  [e |-> [i \in 1..ne |-> <<5, -1, 25, -125>>[i]], den |-> 32, beta |-> <<3, 2>>,
   w |-> [t \in 1..nx |-> IF t <= n THEN 0 ELSE <<7, 5, 11, 9>>[t]], wr |-> [t \in 1..nx |-> 0], wden |-> 4, pf |-> <<1, 1>>]

Ops(n, R0) ==
  LET v == PointFor(n, Len(R0[1].a), Len(R0[1].e))
      spr(out) == [op |-> "spr", n |-> n, type |-> "Sigma", R0 |-> R0, dst |-> "a", out |-> out]
      trm(out) == [op |-> "terms", n |-> n, type |-> "Sigma", R0 |-> R0, dst |-> "t", out |-> out]
      eval(op, src) == [op |-> op, n |-> n, type |-> "Sigma", src |-> src, vars |-> v]
      evalf(op, src, f) == eval(op, src) @@ [fac |-> f]
      fs == [op |-> "fact_spr", src |-> "a", dst |-> "f", out |-> 1]
      ft == [op |-> "fact_terms", src |-> "t", dst |-> "ft", out |-> 1]
      der(f) == [op |-> "deriv_opt", dst |-> f, out |-> 1]
  IN  CASE P = "enumspr"   -> << spr(1), eval("eval_spr", "a") >>
        [] P = "enumterms" -> << trm(1), eval("eval_terms", "t") >>
        [] P = "enumfspr"  -> << spr(1), fs, evalf("eval_spr_opt", "a", "f") >>
        [] P = "enumfterms" -> << trm(1), ft, evalf("eval_terms_opt", "t", "ft") >>
        [] P = "enumotf"   -> << spr(0), eval("eval_otf", "a") >>
        [] P = "enumder"   -> << spr(1), trm(1), fs, ft, der("f"), der("ft"), evalf("eval_spr_opt", "a", "f"), evalf("eval_terms_opt", "t", "ft") >>
        [] OTHER -> << spr(1), trm(1), fs, ft, eval("eval_spr", "a"), eval("eval_terms", "t"), evalf("eval_spr_opt", "a", "f"),
                       evalf("eval_terms_opt", "t", "ft"), eval("eval_otf", "a") >>

VARIABLES n, R0
vars == <<n, R0>>
Init ==
  \E b \in 1..Len(Blocks) : \E x \in Integrands(Blocks[b], LAMBDA k : k % Parts = Part) :
    n = x[1] /\ R0 = x[2] /\ PrintT(ToJson([ops |-> Ops(n, R0)]))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
===============================================================================
