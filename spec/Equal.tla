-------------------------------- MODULE Equal --------------------------------
(***************************************************************************)
(* Equality of materials.  A material has an origin, a data name and a      *)
(* metadata dictionary; the dictionary may gain entries of the user's own.  *)
(* Materials are compared with each other and with other objects at any     *)
(* point of a history of metadata changes and uses.                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Origins,   \* [o, name]
          Keys, Values, Others, N, MaxEdits
VARIABLES mats, edits, op
vars == <<mats, edits, op>>
Missing == "-"
Own == "own"                       \* an entry only some dictionaries have
Metas == {f \in [Keys -> Values \cup {Missing}] : \A k \in Keys : k # Own => f[k] # Missing}
Fresh(o) == {f \in Metas : /\ (Own \in Keys => f[Own] = Missing)
                           /\ (~o.file => \A k \in Keys \ {Own} : f[k] = "empty")}
Init == mats = <<>> /\ edits = 0 /\ op = [n |-> "init"]
Make(o, f) ==
  /\ Len(mats) < N /\ edits = 0
  /\ mats' = Append(mats, [o |-> o.o, name |-> o.name, meta |-> f])
  /\ UNCHANGED edits
  /\ op' = [n |-> "make", o |-> o.o, meta |-> f]
Edit(i, k, v) ==
  /\ Len(mats) = N /\ edits < MaxEdits
  /\ mats[i].meta[k] # v /\ (v = Missing => k = Own)
  /\ mats' = [mats EXCEPT ![i].meta[k] = v] /\ edits' = edits + 1
  /\ op' = [n |-> "edit", i |-> i, k |-> k, v |-> v]
Use(i, how) == /\ Len(mats) = N /\ UNCHANGED <<mats, edits>> /\ op' = [n |-> "use", i |-> i, how |-> how]
Eq(a, b) == a.name = b.name /\ a.meta = b.meta
Compare(i, j) ==
  /\ Len(mats) = N
  /\ UNCHANGED <<mats, edits>> /\ op' = [n |-> "compare", i |-> i, j |-> j, eq |-> Eq(mats[i], mats[j])]
CompareOther(i, x) ==
  /\ Len(mats) = N
  /\ UNCHANGED <<mats, edits>> /\ op' = [n |-> "other", i |-> i, x |-> x, eq |-> FALSE]
Next == \/ \E o \in Origins : \E f \in Fresh(o) : Make(o, f)
        \/ \E i \in DOMAIN mats : \/ \E k \in Keys, v \in Values \cup {Missing} : Edit(i, k, v)
                                  \/ \E h \in {"evaluate", "range", "remove", "copy"} : Use(i, h)
                                  \/ \E j \in DOMAIN mats : Compare(i, j)
                                  \/ \E x \in Others : CompareOther(i, x)
Spec == Init /\ [][Next]_vars
Equivalence == \A i, j, k \in DOMAIN mats :
  /\ Eq(mats[i], mats[i])
  /\ Eq(mats[i], mats[j]) = Eq(mats[j], mats[i])
  /\ (Eq(mats[i], mats[j]) /\ Eq(mats[j], mats[k])) => Eq(mats[i], mats[k])
\* an edit of one of two equal materials separates them
Separates == [][op'.n = "edit" => \A j \in DOMAIN mats : (j # op'.i /\ Eq(mats[op'.i], mats[j])) => ~Eq(mats'[op'.i], mats'[j])]_vars
View == <<mats, edits>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<mats', edits'>>])>>)
=============================================================================
