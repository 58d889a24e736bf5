--------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Are the recorded histories of the real library behaviours of LibAmi?    *)
(* Every case of the trace file is one initial state; each event is one    *)
(* step of the specification, taken only if its outcome is allowed.  An    *)
(* event that is not allowed is printed and ends its history in the state  *)
(* Rejected.                                                               *)
(***************************************************************************)
EXTENDS LibAmi, Properties, Json, IOUtils

\* the property that is decided, which says what is judged (Properties)
Focus == AspectsOf(IOEnv.PROPERTY)

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES case, pos, session, memo    \* case, position, session, reference values so far
vars == <<case, pos, session, memo>>

Ev == Cases[case].ev
Rejected == -1

Init == case \in 1..Len(Cases) /\ pos = 1 /\ session = Session0 /\ memo = NoContainers

IsEvent(ops) == pos >= 1 /\ pos <= Len(Ev) /\ Ev[pos]["in"].op \in ops
\* an equivalent integrand's evaluation is remembered (its container still has it)
Related(op) ==
  IF ~Has(op, "rel") \/ "rel" \notin Focus THEN HPZero
  ELSE ReadRef(memo[RefKey(session, Ev, op.rel[1], Focus)])[2]
\* (The sets with one element make TLC evaluate their elements once.)
Take ==
  \E kr \in {Ref(session, memo, Ev, pos, Focus)} :
  \E v \in {Verdict(session, Ev, pos, IF kr[1] = "" THEN Nothing ELSE Append(ReadRef(kr[2]), Related(Ev[pos]["in"])), Focus)} :
     IF v = "ok"
     THEN pos' = pos + 1 /\ session' = After(session, Ev, pos) /\ memo' = (IF kr[1] = "" THEN memo ELSE Put(memo, kr[1], kr[2])) /\ UNCHANGED case
     ELSE /\ PrintT(<<"REJECTED", Cases[case].id, pos, Ev[pos]["in"].op, v>>)
          /\ pos' = Rejected /\ UNCHANGED <<case, session, memo>>

ChangeFlags == IsEvent({"flags", "object"}) /\ Take
Construct   == IsEvent({"spr", "terms", "start_spr", "start_terms", "set_terms", "cat_terms"}) /\ Take
Integrate   == IsEvent({"step_spr", "step_simple", "step_terms"}) /\ Take
Factorise   == IsEvent({"fact_spr", "fact_terms", "deriv_opt"}) /\ Take
Evaluate    == IsEvent(Evals) /\ Take
Statistics  == IsEvent({"fermi_bose", "fermi_pole", "number"}) /\ Take
Algebra     == IsEvent({"find_poles", "residue_terms", "residue_spr", "deriv_terms", "deriv_spr", "sub_g", "sub_z",
                        "equiv", "split", "energy", "gprod"}) /\ Take
Inspect     == IsEvent({"dump_spr", "dump_terms", "dump_fac", "print"}) /\ Take
Failure     == IsEvent({"CRASH", "DRIVER"}) /\ Take

Next == ChangeFlags \/ Construct \/ Integrate \/ Factorise \/ Evaluate \/ Statistics \/ Algebra \/ Inspect \/ Failure
Spec == Init /\ [][Next]_vars

Accepted == pos # Rejected
===============================================================================
