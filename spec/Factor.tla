---------------------------------- MODULE Factor --------------------------------
(***************************************************************************)
(* Factorisation as a state machine: lines are looked up among the unique  *)
(* ones (equal up to a sign, and of the same species) or added to them;    *)
(* products of the same unique lines are grouped, in any order; and the    *)
(* factorised form is differentiated by the last frequency, by taking each *)
(* line of each group twice.  Model-checked for all small lists of         *)
(* products, against what FactorVerdict (LibAmi) asks of recorded ones:    *)
(* it accepts every outcome of this machine, and no damaged one.           *)
(***************************************************************************)
EXTENDS LibAmi, IOUtils

Tier == IOEnv.TIER

\* the lines: two different ones, their opposites, and one of another species
Line(a, e, s) == [a |-> a, e |-> e, s |-> s]
Letters == << Line(<<0, 1>>, <<1, 0>>, 0), Line(<<0, -1>>, <<-1, 0>>, 0), Line(<<0, 0>>, <<1, 1>>, 0), Line(<<0, 1>>, <<1, 0>>, 1), Line(<<0, -1>>, <<0, -1>>, 0) >>
Words(k) == UNION { [1..m -> 1..Len(Letters)] : m \in 0..k }
Few(k) == UNION { [1..m -> 1..3] : m \in 0..k }
Lists == UNION { [1..m -> Words(2)] : m \in 1..2 } \cup
         (IF Tier = "thorough" THEN [1..3 -> Few(2)] \cup [1..2 -> Few(3)] \cup [1..1 -> Words(4)] ELSE [1..1 -> Words(4)])

VARIABLES products,    \* the list of products
          todo,        \* <<product, line>> that is looked up next, or <<>> when all are done
          form,        \* the factorised form: unique lines U, products Ref, lists Ev
          loose,       \* products not yet in a group
          der          \* derivatives taken
vars == <<products, todo, form, loose, der>>

Init ==
  \E w \in Lists :
    /\ products = TLCEval([i \in 1..Len(w) |-> [k \in 1..Len(w[i]) |-> Letters[w[i][k]]]])
    /\ todo = <<1, 1>>
    /\ form = [U |-> <<>>, Ref |-> <<<<>>>>, Ev |-> <<>>]
    /\ loose = {} /\ der = 0

Same(g, u) == g.s = u.s /\ (Form(g) = Form(u) \/ Form(g) = Opposite(Form(u)))
SignTo(g, u) == IF Form(g) = Form(u) THEN 1 ELSE -1

\* look up one line
LookUp ==
  /\ todo # <<>> /\ todo[2] <= Len(products[todo[1]])
  /\ LET g == products[todo[1]][todo[2]]
         at == {i \in 1..Len(form.U) : Same(g, form.U[i])}
     IN  \/ \E i \in at : form' = [form EXCEPT !.Ref[todo[1]] = Append(@, <<i - 1, SignTo(g, form.U[i])>>)]
         \/ at = {} /\ form' = [form EXCEPT !.U = Append(@, g), !.Ref[todo[1]] = Append(@, <<Len(form.U), 1>>)]
  /\ todo' = <<todo[1], todo[2] + 1>>
  /\ UNCHANGED <<products, loose, der>>
NextProduct ==
  /\ todo # <<>> /\ todo[2] > Len(products[todo[1]])
  /\ IF todo[1] = Len(products)
     THEN todo' = <<>> /\ loose' = 1..Len(products) /\ UNCHANGED form
     ELSE todo' = <<todo[1] + 1, 1>> /\ form' = [form EXCEPT !.Ref = Append(@, <<>>)] /\ UNCHANGED loose
  /\ UNCHANGED <<products, der>>

\* group a loose product with all others of the same lines; form.Ev holds the groups, and their
\* lines replace the references when all are made
Count(i) == [u \in 1..Len(form.U) |-> Cardinality({k \in 1..Len(form.Ref[i]) : form.Ref[i][k][1] = u - 1})]
SignOf(i) == FoldLeft(LAMBDA s, r : s * r[2], 1, form.Ref[i])
Group ==
  /\ todo = <<>>
  /\ \E i \in loose :
       LET like == {k \in loose : Count(k) = Count(i)}
       IN  \E first \in like :
             /\ form' = [form EXCEPT !.Ev = Append(@, [k \in 1..Cardinality(like) |->
                            LET q == <<first>> \o SetToSeq(like \ {first}) IN <<q[k] - 1, SignOf(q[k])>>])]
             /\ loose' = loose \ like
  /\ UNCHANGED <<products, todo, der>>
Close_ ==
  /\ todo = <<>> /\ loose = {} /\ der = 0 /\ Len(form.Ev) > 0
  /\ form' = [form EXCEPT !.Ref = [k \in 1..Len(form.Ev) |-> [r \in 1..Len(form.Ref[form.Ev[k][1][1] + 1]) |-> <<form.Ref[form.Ev[k][1][1] + 1][r][1], 1>>]]]
  /\ der' = 1
  /\ UNCHANGED <<products, todo, loose>>

\* the derivative, group by group and line by line; without any such line the sum is zero
Derive ==
  /\ der \in 1..2
  /\ LET all == {<<n, k>> \in (1..Len(form.Ref)) \X (1..10) : k <= Len(form.Ref[n]) /\ Last(form.U[form.Ref[n][k][1] + 1].a) # 0}
         q == SetToSeq(all)
         c(x) == -Last(form.U[form.Ref[x[1]][x[2]][1] + 1].a)
     IN  form' = IF all = {} THEN [form EXCEPT !.Ev = [n \in 1..Len(@) |-> [m \in 1..Len(@[n]) |-> <<@[n][m][1], 0>>]]]
                 ELSE [form EXCEPT !.Ref = [x \in 1..Len(q) |-> Append(form.Ref[q[x][1]], form.Ref[q[x][1]][q[x][2]])],
                                   !.Ev = [x \in 1..Len(q) |-> [m \in 1..Len(form.Ev[q[x][1]]) |->
                                                <<form.Ev[q[x][1]][m][1], form.Ev[q[x][1]][m][2] * c(q[x])>>]]]
  /\ der' = der + 1
  /\ UNCHANGED <<products, todo, loose>>

Next == LookUp \/ NextProduct \/ Group \/ Close_ \/ Derive
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --------------------------------------------------------------- properties
\* der - 1 is the number of derivatives of a complete form
All == {"fac", "dup", "species"}
Accepted == der > 0 => FactorVerdict(form, products, der - 1, All) = "ok"

\* every product looked up so far is its references' product
Looked ==
  der = 0 => \A i \in 1..Len(form.Ref) : \A k \in 1..Len(form.Ref[i]) :
     LET u == form.U[form.Ref[i][k][1] + 1]
         g == products[i][k]
     IN  g.s = u.s /\ Form(g) = (IF form.Ref[i][k][2] = 1 THEN Form(u) ELSE Opposite(Form(u)))
Unique == \A i \in 1..Len(form.U) : \A k \in 1..Len(form.U) : i = k \/ ~Same(form.U[i], form.U[k])

\* damaged forms, each of which has to be rejected
Flipped(k, m) == [form EXCEPT !.Ev[k][m][2] = -@]
Lost(k, m) == [form EXCEPT !.Ev[k] = SubSeq(@, 1, m - 1) \o SubSeq(@, m + 1, Len(@))]
Stored(k, r) == [form EXCEPT !.U = Append(@, @[form.Ref[k][r][1] + 1]), !.Ref[k][r][1] = Len(form.U)]
Wrong(k, r, u) == [form EXCEPT !.Ref[k][r][1] = u - 1]
Shorter(k, r) == [form EXCEPT !.Ref[k] = SubSeq(@, 1, r - 1) \o SubSeq(@, r + 1, Len(@))]
Split(k) == [form EXCEPT !.Ref = Append(@, @[k]), !.Ev = Append([@ EXCEPT ![k] = <<Head(@)>>], Tail(form.Ev[k]))]
Species(u) == [form EXCEPT !.U[u].s = 7]
Damaged ==
  {Flipped(k, m) : <<k, m>> \in {x \in (1..Len(form.Ev)) \X (1..3) : x[2] <= Len(form.Ev[x[1]])}} \cup
  {Lost(k, m) : <<k, m>> \in {x \in (1..Len(form.Ev)) \X (1..3) : x[2] <= Len(form.Ev[x[1]])}} \cup
  {Shorter(k, r) : <<k, r>> \in {x \in (1..Len(form.Ref)) \X (1..4) : x[2] <= Len(form.Ref[x[1]])}} \cup
  {Stored(k, r) : <<k, r>> \in {x \in (1..Len(form.Ref)) \X (1..4) : x[2] <= Len(form.Ref[x[1]])}} \cup
  {Wrong(x[1], x[2], x[3]) : x \in {y \in (1..Len(form.Ref)) \X (1..4) \X (1..Len(form.U)) : y[2] <= Len(form.Ref[y[1]]) /\ form.Ref[y[1]][y[2]][1] # y[3] - 1}} \cup
  {Split(k) : k \in {n \in 1..Len(form.Ev) : Len(form.Ev[n]) > 1}} \cup
  {Species(u) : u \in {n \in 1..Len(form.U) : \E k \in 1..Len(form.Ref) : \E r \in 1..Len(form.Ref[k]) : form.Ref[k][r][1] = n - 1}}
Sensitive == der = 1 => \A F \in Damaged : FactorVerdict(F, products, 0, All) # "ok"
\* and of derivatives, those with a wrong coefficient (unless it is zero)
SensitiveDer == der > 1 => \A k \in 1..Len(form.Ev) : \A m \in 1..Len(form.Ev[k]) :
  form.Ev[k][m][2] = 0 \/ FactorVerdict(Flipped(k, m), products, der - 1, All) # "ok"

Finished == der = 3
Termination == <>Finished
===============================================================================
