----------------------------------- MODULE Ami ----------------------------------
(***************************************************************************)
(* The algorithm of libami as a state machine, to be model-checked against *)
(* what it is for (Matsubara).                                             *)
(*                                                                         *)
(* A bag of terms: a rational coefficient, the poles whose statistical     *)
(* factors multiply the term, lines, and the frequencies still to be       *)
(* summed.  A term is replaced by its residues at all poles in its next    *)
(* frequency; a residue of order m is m - 1 applications of the product    *)
(* rule, to the statistical factor and to every line, and then the         *)
(* substitution of the pole.  Which term goes on next is left open.        *)
(***************************************************************************)
EXTENDS Small, Bags, IOUtils

Tier == IOEnv.TIER
Blocks == IF Tier = "thorough"
          THEN << <<1, 1, 3, TRUE>>, <<1, 2, 3, TRUE>>, <<2, 2, 3, FALSE>>, <<2, 3, 3, FALSE>>, <<2, 2, 4, FALSE>> >>
          ELSE << <<1, 1, 3, TRUE>>, <<1, 2, 2, TRUE>>, <<1, 2, 3, FALSE>>, <<2, 2, 2, TRUE>>, <<2, 2, 3, FALSE>> >>
\* of the larger blocks, some
Share == IF Tier = "thorough" THEN 1 ELSE 5

VARIABLES integrand, work
vars == <<integrand, work>>

\* at: the pole being taken, or <<>>; der, left: derivatives of its factor, and product rules left to do
Term(c, poles, at, der, left, lines, todo) ==
  [c |-> c, poles |-> poles, at |-> at, der |-> der, left |-> left, lines |-> lines, todo |-> todo]

\* rationals, reduced
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Times(c, n, d) == LET p == c[1] * n
                      q == c[2] * d
                      k == Gcd(IF p < 0 THEN -p ELSE p, q)
                  IN  <<p \div k, q \div k>>

Init ==
  \E b \in 1..Len(Blocks) : \E x \in Integrands(Blocks[b], LAMBDA k : Blocks[b][3] < 3 \/ k % Share = 0) :
    /\ integrand = x
    /\ work = SetToBag({Term(<<1, 1>>, <<>>, <<>>, 0, 0, FormsOf(x[2]), FirstVars(x[1]))})

Terms_ == BagToSet(work)
\* one copy of t is replaced by the terms of the sequence ts
RECURSIVE BagOf(_)
BagOf(ts) == IF ts = <<>> THEN EmptyBag ELSE SetToBag({Head(ts)}) (+) BagOf(Tail(ts))
Replace(t, ts) == work' = (work (-) SetToBag({t})) (+) BagOf(ts) /\ UNCHANGED integrand

\* the residues of a term at the poles in its next frequency
Residues(t) ==
  /\ t.at = <<>> /\ t.todo # <<>>
  /\ LET j == Head(t.todo)
         act(i) == t.lines[i][1][j] # 0
         at(i, p) == act(i) /\ PoleOf(t.lines[i], j) = p
         poles == SetToSeq({PoleOf(t.lines[i], j) : i \in {k \in 1..Len(t.lines) : act(k)}})
         order(p) == Cardinality({i \in 1..Len(t.lines) : at(i, p)})
         sign(p) == FoldLeftDomain(LAMBDA s, i : IF at(i, p) THEN s * t.lines[i][1][j] ELSE s, 1, t.lines)
         rest(p) == FoldLeftDomain(LAMBDA s, i : IF at(i, p) THEN s ELSE Append(s, t.lines[i]), <<>>, t.lines)
     IN  Replace(t, [k \in 1..Len(poles) |->
           LET p == poles[k]
           IN  Term(Times(t.c, sign(p), Factorial(order(p) - 1)), t.poles, <<p>>, 0, order(p) - 1, rest(p), t.todo)])

ProductRule(t) ==
  /\ t.at # <<>> /\ t.left > 0
  /\ LET j == Head(t.todo)
         on == SelectSeq([i \in 1..Len(t.lines) |-> IF t.lines[i][1][j] # 0 THEN i ELSE 0], LAMBDA i : i # 0)
     IN  Replace(t, << [t EXCEPT !.der = @ + 1, !.left = @ - 1] >> \o
                    [k \in 1..Len(on) |-> [t EXCEPT !.c = Times(@, -t.lines[on[k]][1][j], 1), !.left = @ - 1,
                                                    !.lines = Append(@, t.lines[on[k]])]])

Substitute(t) ==
  /\ t.at # <<>> /\ t.left = 0
  /\ LET j == Head(t.todo)
         p == t.at[1]
     IN  Replace(t, << Term(t.c, Append(t.poles, <<p, j, t.der>>), <<>>, 0, 0, [i \in 1..Len(t.lines) |-> Sub(t.lines[i], p, j)], Tail(t.todo)) >>)

Next == \E t \in Terms_ : Residues(t) \/ ProductRule(t) \/ Substitute(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --------------------------------------------------------------- properties
Nx == Len(integrand[2][1].a)
Env == GenericEnv(1, Nx, Len(integrand[2][1].e), "Sigma", Source(<<>>, <<>>, TRUE, FALSE))

Factor(t, env) == FoldLeft(LAMBDA acc, q : HPMul(acc, PoleFactor(q[3], q[1], q[2], env)), HPRat(t.c[1], t.c[2]), t.poles)
\* What a term stands for: its lines summed over the frequencies still to do; while a pole is
\* taken, the derivative there of statistical factor and lines, by the Leibniz rule.
Meaning(t, env) ==
  IF t.at = <<>> THEN MSum(Monomial(t.lines), t.todo, env, Factor(t, env), HPOne, HPOne, HPZero)[1]
  ELSE LET j == Head(t.todo)
           p == t.at[1]
           K == Factor(t, env)
           dep == SelectSeq([i \in 1..Len(t.lines) |-> IF t.lines[i][1][j] # 0 THEN i ELSE 0], LAMBDA i : i # 0)
           at(k, cs) ==   \* k derivatives of the factor, cs[i] of the line dep[i]
             LET w == FoldLeftDomain(LAMBDA n, i : n * (IF cs[i] % 2 = 1 THEN -t.lines[dep[i]][1][j] ELSE 1), 1, cs)
                 more(r) == LET s == {i \in 1..Len(dep) : dep[i] = r} IN IF s = {} THEN 0 ELSE cs[CHOOSE i \in s : TRUE]
                 m2 == FoldLeftDomain(LAMBDA m, r : AddTo(m, Sub(t.lines[r], p, j), 1 + more(r), 1), <<>>, t.lines)
                 c == HPMul(HPMul(K, PoleFactor(t.der + k, p, j, env)), HPRat(w * Factorial(t.left), Factorial(k)))
             IN  MSum(m2, Tail(t.todo), env, c, HPOne, HPOne, HPZero)[1]
       IN  OverSet(LAMBDA acc, k : OverSet(LAMBDA acc2, cs : HPAdd(acc2, at(k, cs)), acc, Compositions(t.left - k, Len(dep))), HPZero, 0..t.left)

\* The terms always stand for the same sum.
Conserved ==
  LET env == Env
      sum == OverSet(LAMBDA acc, t : HPAdd(acc, HPMul(HPInt(CopiesIn(t, work)), Meaning(t, env))), HPZero, Terms_)
      mag == OverSet(LAMBDA acc, t : HPAdd(acc, HPNorm(Meaning(t, env))), HPZero, Terms_)
  IN  Close(sum, MatsubaraSum(FormsOf(integrand[2]), FirstVars(integrand[1]), env)[1], mag, 40)

\* Frequencies summed over do not come back, neither in lines nor in later poles.
Gone == \A t \in Terms_ :
  LET summed == {k \in 1..integrand[1] : \A i \in 1..Len(t.todo) : t.todo[i] # k}
  IN  /\ \A i \in 1..Len(t.lines) : \A k \in summed : t.lines[i][1][k] = 0
      /\ \A i \in 1..Len(t.poles) : \A k \in 1..i : t.poles[i][1][1][t.poles[k][2]] = 0
\* No line vanishes, and coefficients stay 0, 1, -1 in the frequencies that matter.
Sound == \A t \in Terms_ :
  /\ \A i \in 1..Len(t.lines) : ~(VIsZero(t.lines[i][1]) /\ VIsZero(t.lines[i][2]))
  /\ t.at # <<>> \/ t.todo = <<>> \/ \A i \in 1..Len(t.lines) : t.lines[i][1][Head(t.todo)] \in {-1, 0, 1}
\* Every pole belongs to the frequency whose turn it was, and the derivatives are fewer than the multiplicity.
Ordered == \A t \in Terms_ : \A i \in 1..Len(t.poles) : t.poles[i][2] = i /\ t.poles[i][3] \in 0..(Len(integrand[2]) + integrand[1])

Finished == \A t \in Terms_ : t.todo = <<>>
Termination == <>Finished
===============================================================================
