------------------------------- MODULE Rebuild -------------------------------
(***************************************************************************)
(* The rebuild script, run again and again while the data files, the        *)
(* configuration and the catalogue change.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Items,     \* data files, by module: "u1", "u2" (user), "r1" (library)
          Answers
VARIABLES asked, disk, broken, enabled, csv, op
vars == <<asked, disk, broken, enabled, csv, op>>
Module(i) == IF i \in {"r1"} THEN "rii" ELSE "user"
NoCsv == {"none"}
Init == /\ asked = FALSE /\ disk = Items /\ broken \in {FALSE} /\ enabled = {"user", "rii"} /\ csv = NoCsv /\ op = [n |-> "init"]
Start == /\ ~asked /\ asked' = TRUE /\ UNCHANGED <<disk, broken, enabled, csv>> /\ op' = [n |-> "start"]
Rows == {i \in disk : Module(i) \in enabled}
BuildFails == broken /\ "user" \in enabled
Answer(a) ==
  /\ asked /\ UNCHANGED <<disk, broken, enabled>>
  /\ CASE a = "n" -> /\ asked' = FALSE /\ UNCHANGED csv /\ op' = [n |-> "answer", a |-> a, end |-> "returns"]
       [] a = "y" -> /\ asked' = FALSE /\ csv' = (IF BuildFails THEN csv ELSE Rows)
                     /\ op' = [n |-> "answer", a |-> a, end |-> IF BuildFails THEN "fails" ELSE "returns"]
       [] a \in {"eof", "interrupt"} -> /\ asked' = FALSE /\ UNCHANGED csv /\ op' = [n |-> "answer", a |-> a, end |-> "aborts"]
       [] OTHER -> /\ asked' = TRUE /\ UNCHANGED csv /\ op' = [n |-> "answer", a |-> a, end |-> "asks"]
Toggle(i) == /\ ~asked /\ disk' = (IF i \in disk THEN disk \ {i} ELSE disk \cup {i}) /\ UNCHANGED <<asked, broken, enabled, csv>>
             /\ op' = [n |-> "toggle", i |-> i]
Break == /\ ~asked /\ broken' = ~broken /\ UNCHANGED <<asked, disk, enabled, csv>> /\ op' = [n |-> "break"]
Enable(m) == /\ ~asked /\ enabled' = (IF m \in enabled THEN enabled \ {m} ELSE enabled \cup {m}) /\ UNCHANGED <<asked, disk, broken, csv>>
             /\ op' = [n |-> "enable", m |-> m]
\* the user gives the stored catalogue an alias: it is lost by the next rebuild
Next == \/ Start \/ Break
        \/ \E a \in Answers : Answer(a)
        \/ \E i \in Items : Toggle(i)
        \/ \E m \in {"user", "rii"} : Enable(m)
Spec == Init /\ [][Next]_vars
OnlyOnYes == [][csv' # csv => op'.n = "answer" /\ op'.a = "y"]_vars
FullRebuild == [][op'.n = "answer" /\ op'.a = "y" /\ op'.end = "returns" => csv' = {i \in disk : Module(i) \in enabled}]_vars
View == <<asked, disk, broken, enabled, csv>>
R(a, b, c, d, e) == [asked |-> a, disk |-> b, broken |-> c, enabled |-> d, csv |-> e]
Emit == PrintT(<<"@@", ToJson([f |-> R(asked, disk, broken, enabled, csv), o |-> op' @@ [csv |-> csv', disk |-> disk', broken |-> broken', enabled |-> enabled'],
                                t |-> R(asked', disk', broken', enabled', csv')])>>)
=============================================================================
