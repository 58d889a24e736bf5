--------------------------------- MODULE Small ---------------------------------
(***************************************************************************)
(* Small integrands, all of them: every set of lines with coefficients     *)
(* 0, 1, -1 up to the order of the lines, and every way for lines to have  *)
(* equal energies, that is well posed.                                     *)
(***************************************************************************)
EXTENDS LibAmi

\* the coefficients that a line can have; with one orientation only, the first one is positive
FirstSign(a) == LET i == CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A k \in 1..(i - 1) : a[k] = 0 IN a[i]
Coefs3(nx, both) == LET all == [1..nx -> {-1, 0, 1}]
                    IN  SetToSeq({a \in all : (\E i \in 1..nx : a[i] # 0) /\ (both \/ FirstSign(a) = 1)})

\* restricted growth strings: the ways for k lines to have equal energies
RECURSIVE Growth(_, _)
Growth(k, m) == IF k = 0 THEN {<<>>}
                ELSE UNION { { <<c>> \o r : r \in Growth(k - 1, IF c > m THEN c ELSE m) } : c \in 1..(m + 1) }
MaxOf(s) == LET m[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE IF s[i] > m[i-1] THEN s[i] ELSE m[i-1] IN m[Len(s)]

\* nondecreasing index sequences
RECURSIVE Multi(_, _, _)
Multi(k, from, to) == IF k = 0 THEN {<<>>} ELSE UNION { { <<c>> \o r : r \in Multi(k - 1, c, to) } : c \in from..to }

Plain(n, nx) == [ferm |-> Ferm(nx, "Sigma"), docc |-> FALSE, dropM |-> TRUE, bos |-> FALSE, zeros |-> FALSE]

LinesOf(cs, idx, en) ==
  LET ne == MaxOf(en)
  IN  [i \in 1..Len(idx) |-> [a |-> cs[idx[i]], e |-> [k \in 1..ne |-> IF en[i] = k THEN 1 ELSE 0], s |-> 0]]

Good(n, R0) ==
  LET fs == FormsOf(R0)
      S == {fs[i] : i \in 1..Len(fs)}
  IN  /\ \A j \in 1..n : \E i \in 1..Len(fs) : fs[i][1][j] # 0
      /\ WellPosed(S, FirstVars(n), Plain(n, Len(R0[1].a)))

\* block: <<integrations, frequencies, lines, both orientations>>; some choose by a hash
Integrands(block, some(_)) ==
  LET n == block[1]
      cs == Coefs3(block[2], block[4])
      choices == {ie \in Multi(block[3], 1, Len(cs)) \X Growth(block[3], 0) :
                    some(FoldLeftDomain(LAMBDA s, i : (s * 31 + ie[1][i] * 7 + ie[2][i]) % 9999991, n, ie[1]))}
  IN  {x \in {<<n, LinesOf(cs, ie[1], ie[2])>> : ie \in choices} : Good(n, x[2])}
===============================================================================
