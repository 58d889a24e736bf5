---------------------------------- MODULE Direct --------------------------------
(***************************************************************************)
(* Is MatsubaraSum what its name says?  Residues against the definition:   *)
(*                                                                         *)
(*   (1/beta) sum over all X = i pi (2m+1)/beta (fermionic) or             *)
(*                         X = i pi 2m/beta     (bosonic)                  *)
(*                                                                         *)
(* of the product of lines, for one frequency after the other, with        *)
(* truncated sums of integrands that fall off fast enough.  External       *)
(* frequencies are Matsubara frequencies.  The sum over a bosonic          *)
(* frequency has a minus sign (double occupancy).                          *)
(***************************************************************************)
EXTENDS Small, IOUtils

Tier == IOEnv.TIER
\* integrations, frequencies, lines, orientations; of these one in how many; how far to sum; digits
Blocks == << <<1, 1, 4, TRUE, 1, 120, 4>>, <<1, 2, 4, FALSE, 50, 120, 4>>, <<2, 2, 6, FALSE, 400, 40, 3>> >> \o
          (IF Tier = "thorough" THEN << <<1, 2, 5, FALSE, 50, 60, 4>>, <<2, 2, 7, FALSE, 4000, 40, 4>>, <<2, 3, 5, FALSE, 3000, 40, 3>> >> ELSE <<>>)

VARIABLES integrand, type, checked
vars == <<integrand, type, checked>>

\* along every direction that frequencies can go to infinity, enough lines fall off
Falls(x) ==
  LET n == x[1]
      dirs == {d \in [1..n -> {-1, 0, 1}] : \E t \in 1..n : d[t] # 0}
      varying(d) == {i \in 1..Len(x[2]) : VDot(SubSeq(x[2][i].a, 1, n), d) # 0}
  IN  \A d \in dirs : Cardinality(varying(d)) >= (IF n = 1 THEN 4 ELSE 3)

\* temperature, energies and external frequencies
Beta == HPRat(3, 2)
Energies == <<HPRat(3, 8), HPRat(-7, 8), HPRat(5, 4), HPRat(-1, 4), HPRat(17, 16), HPRat(-13, 16)>>
Freq(fermionic, m) == HPCx(HPZero, HPMul(HPMul(HPPi, HPInv(Beta)), HPInt(IF fermionic THEN 2 * m + 1 ELSE 2 * m)))
Env(x, ty) ==
  LET nx == Len(x[2][1].a)
      ne == Len(x[2][1].e)
  IN  [GenericEnv(1, nx, ne, ty, Source(<<>>, <<>>, TRUE, FALSE)) EXCEPT
         !.X = TLCEval([t \in 1..nx |-> Freq(Ferm(nx, ty)[t], IF t % 2 = 0 THEN 1 ELSE -2)]),
         !.E = TLCEval([i \in 1..ne |-> Energies[i]]),
         !.x = TLCEval([i \in 1..ne |-> HPExp(HPMul(Beta, Energies[i]))]), !.beta = Beta]

\* the lines with what is known of them so far: <<coefficients, value of the rest>>
Assign(ls, j, v) == [i \in 1..Len(ls) |-> IF ls[i][1][j] = 0 THEN ls[i] ELSE <<ls[i][1], HPAdd(ls[i][2], HPMul(HPInt(ls[i][1][j]), v))>>]
RECURSIVE Sum(_, _, _, _, _)
Sum(ls, j, n, fermionic, far) ==
  IF j > n THEN FoldLeft(LAMBDA acc, l : HPMul(acc, HPInv(l[2])), HPOne, ls)
  ELSE LET from == IF fermionic[j] THEN -far ELSE -far + 1
           s == FoldLeft(LAMBDA acc, k : HPAdd(acc, Sum(TLCEval(Assign(ls, j, Freq(fermionic[j], k))), j + 1, n, fermionic, far)),
                         HPZero, [k \in 1..(far - from) |-> from + k - 1])
       IN  HPMul(HPInv(Beta), s)
Definition(x, env, far) ==
  LET fs == FormsOf(x[2])
      n == x[1]
      nx == Len(env.X)
      \* the double occupancy's last frequency is summed over, and bosonic
      ferm == [t \in 1..nx |-> env.ferm[t]]
      ls == [i \in 1..Len(fs) |-> <<fs[i][1], HPAdd(HPDot(fs[i][2], env.E), HPDot(SubSeq(fs[i][1], n + 1, nx), SubSeq(env.X, n + 1, nx)))>>]
      v == Sum(TLCEval(ls), 1, n, ferm, far)
  IN  IF env.docc /\ n = nx THEN HPNeg(v) ELSE v

Init ==
  \E b \in 1..Len(Blocks) :
  \E ty \in (IF Blocks[b][1] < Blocks[b][2] THEN {"Sigma", "Pi_phuu"} ELSE {"Sigma", "doubleocc"}) :
  \E x \in Integrands(Blocks[b], LAMBDA k : (k * 13 + b) % Blocks[b][5] = 0) :
    /\ Falls(x)
    /\ LET fs == FormsOf(x[2])
           S == {fs[i] : i \in 1..Len(fs)}
       IN  /\ WellPosed(S, FirstVars(x[1]), [Plain(x[1], Blocks[b][2]) EXCEPT !.ferm = Ferm(Blocks[b][2], ty), !.docc = ty = "doubleocc"])
           /\ Regular(S, FirstVars(x[1]), Env(x, ty) @@ [tol |-> HPTen(-3)])
    /\ integrand = <<x, Blocks[b][6], Blocks[b][7]>> /\ type = ty /\ checked = FALSE

Agrees ==
  LET env == Env(integrand[1], type)
      r == MatsubaraSum(FormsOf(integrand[1][2]), FirstVars(integrand[1][1]), env)
  IN  Close(Definition(integrand[1], env, integrand[2]), r[1], r[2], integrand[3])

Next == ~checked /\ checked' = TRUE /\ UNCHANGED <<integrand, type>>
Spec == Init /\ [][Next]_vars
Checked == checked => Agrees
===============================================================================
