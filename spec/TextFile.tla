------------------------------- MODULE TextFile -------------------------------
(***************************************************************************)
(* The text file format (.txt, .csv, .nk).  A file is a sequence of header  *)
(* lines followed by data rows.  It is written line by line and may be read *)
(* after any line; the specification says what a reader must make of it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Settings,   \* [ext, ft, fu, dt, at, au]: extension, values of SPECTRUMTYPE, UNIT and DATATYPE in
                      \* the file, arguments of the constructor ("" = not given)
          RowSets,    \* sequences of ticks: the spectral values of the rows
          Prefixes,   \* header lines present from the start
          MaxHead
VARIABLES file, op
vars == <<file, op>>
MetaKeys == {"REFERENCES", "AUTHOR", "NAME", "FULLNAME", "COMMENTS"}
DataKeys == {"SPECTRUMTYPE", "UNIT", "DATATYPE"}
Others   == {"plain",      \* text without a colon
             "plainkey",   \* text without a colon that begins with a keyword
             "other",      \* text with a colon whose first word is no keyword
             "blank"}      \* the comment sign alone
Ends == {"empty"}          \* an empty line: comment lines after it lead the file no more
Kinds == MetaKeys \cup DataKeys \cup Others \cup Ends
Range(s) == {s[i] : i \in DOMAIN s}
EndsAt(h) == {i \in DOMAIN h : h[i] \in Ends}
Lead(h) == IF EndsAt(h) = {} THEN h ELSE SubSeq(h, 1, (CHOOSE i \in EndsAt(h) : \A j \in EndsAt(h) : i <= j) - 1)
Compatible(t, u) == (t = "wavelength" /\ u \in {"nm", "um"}) \/ (t = "energy" /\ u = "ev") \/ (t = "frequency" /\ u = "hz")

\* ---- reading ------------------------------------------------------------------
\* metadata: the line that gives each key
LineOf(h, key) == IF key \in Range(Lead(h)) THEN CHOOSE i \in DOMAIN Lead(h) : h[i] = key ELSE 0
Meta(h) == [key \in MetaKeys |-> LineOf(h, key)]
Comment(h) == SelectSeq([i \in 1 .. Len(Lead(h)) |-> i], LAMBDA i : h[i] \in Others)
\* rows in ascending order of the spectral value; of equal values the first row counts
RECURSIVE Sorted(_, _)
Sorted(rows, V) == IF V = {} THEN <<>>     \* V: spectral values still to come
  ELSE LET v == CHOOSE v \in V : \A w \in V : v <= w
           same == {i \in DOMAIN rows : rows[i] = v}
       IN <<CHOOSE i \in same : \A j \in same : i <= j>> \o Sorted(rows, V \ {v})
Keep(rows) == Sorted(rows, Range(rows))
First(a, b, c) == IF a # "" THEN a ELSE IF b # "" THEN b ELSE c
EffType(f) == First(IF "SPECTRUMTYPE" \in Range(Lead(f.head)) THEN f.set.ft ELSE "", f.set.at, "wavelength")
EffUnit(f) == First(IF "UNIT" \in Range(Lead(f.head)) THEN f.set.fu ELSE "", f.set.au, "nm")
DataType(f) == IF "DATATYPE" \in Range(Lead(f.head)) THEN f.set.dt ELSE IF f.cols = 2 THEN "n" ELSE "nk"
Cols(dt) == IF dt \in {"n", "k"} THEN 2 ELSE 3

Init == /\ \E s \in Settings, p \in Prefixes, c \in {2, 3} :
              /\ ("DATATYPE" \in Range(p) => s.dt # "" /\ Cols(s.dt) = c)
              /\ ("SPECTRUMTYPE" \in Range(p) => s.ft # "")
              /\ ("UNIT" \in Range(p) => s.fu # "")
              /\ file = [set |-> s, head |-> p, cols |-> c]
        /\ op = [n |-> "init"]
Write(k) ==
  /\ Len(file.head) < MaxHead
  /\ (k \notin Others => k \notin Range(file.head) \/ (k \notin Ends /\ "empty" \in Range(file.head)))
  /\ (k = "SPECTRUMTYPE" => file.set.ft # "") /\ (k = "UNIT" => file.set.fu # "")
  /\ (k = "DATATYPE" => file.set.dt # "" /\ Cols(file.set.dt) = file.cols)
  /\ file' = [file EXCEPT !.head = Append(@, k)]
  /\ op' = [n |-> "write", k |-> k]
Read(rows) ==
  /\ Compatible(EffType(file), EffUnit(file))
  /\ UNCHANGED file
  /\ op' = [n |-> "read", set |-> file.set, head |-> file.head, cols |-> file.cols, rows |-> rows,
            meta |-> Meta(file.head), comment |-> Comment(file.head), keep |-> Keep(rows),
            dt |-> DataType(file), pair |-> <<EffType(file), EffUnit(file)>>]
Next == (\E k \in Kinds : Write(k)) \/ \E r \in RowSets : Read(r)
Spec == Init /\ [][Next]_vars

\* every header line is either metadata, data description or metacomment, exactly once
Partition == LET h == file.head
                 c == Range(Comment(h))
                 m == Range(Meta(h)) IN
  \A i \in DOMAIN Lead(h) : (IF i \in c THEN 1 ELSE 0)
                      + (IF i \in m THEN 1 ELSE 0)
                      + (IF h[i] \in DataKeys THEN 1 ELSE 0) = 1
\* the kept rows increase strictly, every spectral value is kept, from its first row
KeepOK == \A r \in RowSets : LET k == Keep(r) IN
  /\ \A i \in 1 .. Len(k) - 1 : r[k[i]] < r[k[i + 1]]
  /\ \A i \in DOMAIN r : \E j \in DOMAIN k : r[k[j]] = r[i] /\ k[j] <= i
\* what follows the first empty line is no part of the header
LateIgnored == LET h == file.head IN Meta(h) = Meta(Lead(h)) /\ Comment(h) = Comment(Lead(h))
View == file
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> file'])>>)
=============================================================================
