------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* Documents of nested mappings and lists, written out token by token, and  *)
(* the files and texts they are stored in.  A document is stored when it is *)
(* complete; what is read is the document last stored.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Leaves,     \* classes of plain values
          Keys,       \* classes of keys
          MaxTokens, MaxDepth, MaxStores
VARIABLES doc, open, file, op
\* doc: the tokens so far; open: the containers not yet closed, innermost last;
\* file: the documents in the file (at most one) and how often it was written
vars == <<doc, open, file, op>>
Top == IF open = <<>> THEN "none" ELSE open[Len(open)]
Complete == doc # <<>> /\ open = <<>>
Empty == <<>>
Init == doc = <<>> /\ open = <<>> /\ file = [doc |-> Empty, n |-> 0] /\ op = [n |-> "init"]
Room == Len(doc) + Len(open) < MaxTokens /\ file.n < MaxStores
\* a value may come first, in a list, or in a mapping after a key
Place(k) == IF Top = "map" THEN k # "" ELSE k = "" /\ (Top = "list" \/ doc = <<>>)
Tok(t, k) == [t |-> t, k |-> k]
Value(v, k) == /\ Room /\ Place(k) /\ doc' = Append(doc, Tok(v, k)) /\ UNCHANGED <<open, file>> /\ op' = [n |-> "token", t |-> v, k |-> k]
Begin(c, k) == /\ Room /\ Len(open) < MaxDepth /\ Place(k) /\ doc' = Append(doc, Tok(c, k)) /\ open' = Append(open, c)
               /\ UNCHANGED file /\ op' = [n |-> "token", t |-> c, k |-> k]
End == /\ open # <<>> /\ doc' = Append(doc, Tok("end", "")) /\ open' = SubSeq(open, 1, Len(open) - 1)
       /\ UNCHANGED file /\ op' = [n |-> "token", t |-> "end", k |-> ""]
Store(how) ==
  /\ Complete /\ file.n < MaxStores
  /\ file' = IF how = "file" THEN [doc |-> doc, n |-> file.n + 1] ELSE [file EXCEPT !.n = @ + 1]
  /\ doc' = <<>> /\ open' = <<>>
  /\ op' = [n |-> "store", how |-> how, doc |-> doc, now |-> IF how = "file" THEN doc ELSE file.doc]
Next == \/ \E k \in Keys \cup {""} : \/ \E v \in Leaves : Value(v, k)
                                     \/ \E c \in {"map", "list"} : Begin(c, k)
        \/ End \/ \E h \in {"file", "text"} : Store(h)
Spec == Init /\ [][Next]_vars
\* containers close in the order they were opened, the file only ever holds complete documents
RECURSIVE Balance(_, _)
Balance(d, i) == IF i = 0 THEN 0 ELSE Balance(d, i - 1) + (IF d[i].t \in {"map", "list"} THEN 1 ELSE IF d[i].t = "end" THEN -1 ELSE 0)
WellFormed == Balance(doc, Len(doc)) = Len(open) /\ Balance(file.doc, Len(file.doc)) = 0
LastWins == [][op'.n = "store" /\ op'.how = "file" => file'.doc = doc]_vars
View == <<doc, open, file>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<doc', open', file'>>])>>)
=============================================================================
