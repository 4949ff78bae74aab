------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* The contract of the Material constructor.  Every argument is abstracted  *)
(* to a class: absent, None, a well-typed value, a value of the wrong type  *)
(* or a table of the wrong shape.  The specification says which outcomes    *)
(* are allowed for every combination, and in which type and unit the table  *)
(* values of a successful construction are to be read.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS ArgSets
VARIABLES built, op
vars == <<built, op>>
Sources == {"file_path", "fixed_n", "fixed_nk", "fixed_eps_r", "fixed_eps", "tabulated_n",
            "tabulated_nk", "tabulated_n_alpha", "tabulated_eps", "model_kw"}
Tables == {"tabulated_n", "tabulated_nk", "tabulated_n_alpha", "tabulated_eps"}
\* option classes: absent, none, type (wrong type) or a well-typed value
Units == {"nm", "um", "ev"}          \* values of unit
Types == {"wavelength", "energy"}    \* values of spectrum_type
Given(a) == {s \in Sources : a.src[s] \notin {"absent", "none"}}

Eff(x, default) == IF x \in {"absent", "none"} THEN default ELSE x
Compatible(t, u) == (t = "wavelength" /\ u \in {"nm", "um"}) \/ (t = "energy" /\ u = "ev")
WrongType(a) == \/ \E s \in Given(a) : a.src[s] = "type"
                \/ "type" \in {a.st, a.un, a.io}
Errors(a) ==
  (IF Cardinality(Given(a)) # 1 THEN {"ValueError"} ELSE {})
  \cup (IF WrongType(a) THEN {"TypeError"} ELSE {})
  \cup (IF \E s \in Given(a) : a.src[s] = "shape" THEN {"ValueError"} ELSE {})
  \cup (IF /\ Given(a) \cap Tables # {}
           /\ a.st # "type" /\ a.un # "type"
           /\ ~Compatible(Eff(a.st, "wavelength"), Eff(a.un, "nm"))
        THEN {"ValueError"} ELSE {})
Outcome(a) == IF Errors(a) = {} THEN {"ok"} ELSE Errors(a)

Init == built = 0 /\ op = [n |-> "init"]
Construct(a) ==
  /\ built = 0
  /\ op' = [n |-> "construct", src |-> a.src, st |-> a.st, un |-> a.un, io |-> a.io, allowed |-> Outcome(a),
            reads |-> <<Eff(a.st, "wavelength"), Eff(a.un, "nm")>>]
  /\ built' = 1
Next == \E a \in ArgSets : Construct(a)
Spec == Init /\ [][Next]_vars
\* exactly one source, and no other way to succeed
OneSource == op.n = "construct" => ("ok" \in op.allowed => Cardinality({s \in Sources : op.src[s] = "ok"}) = 1)
View == built
Emit == PrintT(<<"@@", ToJson([f |-> <<0>>, o |-> op', t |-> <<0>>])>>)
=============================================================================
