------------------------------ MODULE Printing ------------------------------
(***************************************************************************)
(* The metadata of a material printed to the terminal: the characters the   *)
(* terminal can always show, in order, of what is stored at that moment.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Classes,    \* classes of characters
          Plain,      \* those of ASCII
          MaxLen, Origins
VARIABLES mat, op     \* mat: where the material is from and its two texts
vars == <<mat, op>>
Ascii(s) == SelectSeq(s, LAMBDA c : c \in Plain)
Texts == UNION {[1 .. n -> Classes] : n \in 0 .. MaxLen}
Init == mat = <<>> /\ op = [n |-> "init"]
\* text files hold single lines without surrounding white space
Single(s) == IF s = <<>> THEN TRUE ELSE ((\A i \in DOMAIN s : s[i] \notin {"newline"}) /\ s[1] # "space" /\ s[Len(s)] # "space")
Make(o, r, c) ==
  /\ mat = <<>> /\ (IF o = "text" THEN Single(r) /\ Single(c) ELSE TRUE)
  /\ mat' = <<[o |-> o, ref |-> r, com |-> c]>>
  /\ op' = [n |-> "make", o |-> o, ref |-> r, com |-> c]
Set(what, s) ==
  /\ mat # <<>> /\ mat[1].o = "changed" /\ mat[1][what] = <<>> /\ mat' = <<[mat[1] EXCEPT ![what] = s]>>
  /\ op' = [n |-> "set", what |-> what, s |-> s]
ToScreen(what) == /\ mat # <<>> /\ UNCHANGED mat /\ op' = [n |-> "print", what |-> what, out |-> Ascii(mat[1][what])]
Next == \/ \E o \in Origins, r \in Texts, c \in {<<>>, <<"letter", "other">>} : Make(o, r, c)
        \/ \E w \in {"ref", "com"} : ToScreen(w) \/ \E s \in Texts : Set(w, s)
Spec == Init /\ [][Next]_vars
\* nothing but ASCII is printed, and all of it
Faithful == op.n = "print" => /\ \A i \in DOMAIN op.out : op.out[i] \in Plain
                              /\ Len(op.out) = Len(SelectSeq(mat[1][op.what], LAMBDA c : c \in Plain))
View == mat
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> mat'])>>)
=============================================================================
