------------------------------- MODULE Properties ------------------------------
(* Which aspects of the outcomes each property of properties.jsonl is about. *)
EXTENDS LibAmi

AspectsOf(id) ==
  CASE id \in {"C01", "C02", "C05", "C07", "C08", "C09", "C12"} -> {"value", "symb"}
    [] id \in {"C03", "C04"} -> {"value", "fac", "dup"}
    [] id = "C06" -> {"value"}
    [] id = "C10" -> {"ovf"}
    [] id = "C11" -> {"mut", "same", "value"}
    [] id = "C13" -> {"value", "symb", "fac", "dup"}
    [] id = "C14" -> {"value", "symb", "fac", "dup", "mut", "same", "shape", "species"}
    [] id = "C15" -> {"shape", "symb"}
    [] id = "C16" -> {"poles", "alg"}
    [] id = "C17" -> {"value", "fac"}
    [] id = "C18" -> {"value", "rel"}
    [] id = "C19" -> {"value", "symb", "shape"}
    [] id = "C20" -> {"alg", "dup"}
    [] id = "C21" -> {"species"}
    [] id = "C22" -> {}
    [] id = "C23" -> {"value"}
    [] OTHER -> AllAspects
===============================================================================
