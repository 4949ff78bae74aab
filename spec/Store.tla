-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Writing materials to files and reading them back.  The state is the      *)
(* material in memory and what every file holds.  A file holds what was     *)
(* last written to it, whole; a write the format cannot represent raises    *)
(* and leaves the file alone; reading gives the stored material.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Contents,   \* [re, im, cx, name, id]: parts of a material, see Part
          Metas,      \* sets of filled metadata entries
          Files,      \* [name, ext]
          Remake      \* whether a new material may replace the one in memory
VARIABLES mat, disk, op
vars == <<mat, disk, op>>
\* a part is [k, u, g]: kind, unit and grid; kinds: zero, const, table, model, cmodel,
\* extrap (a table that has been extrapolated)
ZeroPart == [k |-> "zero", u |-> "", g |-> ""]
None == [c |-> [id |-> <<>>], m |-> {}]
TextExt == {"txt", "csv", "nk"}
Ext(f) == f.ext
Stored(c) == {p \in {"re", "im", "cx"} : c[p].k # "zero"}
\* tables with the same grid in the same unit are one table
SameTable(c) == c.re.k = "table" /\ c.im.k = "table" /\ c.re.u = c.im.u /\ c.re.g = c.im.g
Tables(c) == IF SameTable(c) THEN 1 ELSE Cardinality({p \in Stored(c) : c[p].k = "table"})
HasConst(c) == \E p \in Stored(c) : c[p].k = "const"
Models(c) == {p \in Stored(c) : c[p].k \in {"model", "cmodel"}}
Extended(c) == \E p \in Stored(c) : c[p].k = "extrap"
Representable(c, ext) ==
  /\ ~HasConst(c) /\ ~Extended(c) /\ Stored(c) # {}
  /\ \/ ext = "yml"
     \/ ext \in TextExt /\ Models(c) = {} /\ Tables(c) = 1
\* text files have no place for the specification (a mapping); entries of the user's own
\* ("Further") are not read back, and do no harm
Kept(m, ext) == (IF ext = "yml" THEN m ELSE m \ {"Specification"}) \ {"Further"}
DataTypes(c) == \* what the file calls the data sets
  LET real == IF c.name = "nk" THEN "n" ELSE "eps_r"
      imag == IF c.name = "nk" THEN "k" ELSE "eps_k" IN
  IF SameTable(c) THEN {"tabulated " \o c.name}
  ELSE {IF c[p].k = "table" THEN "tabulated " \o (IF p = "re" THEN real ELSE imag) ELSE "model" : p \in Stored(c)}

Init == /\ mat = None /\ disk = [f \in Files |-> None] /\ op = [n |-> "init"]
Make(c, m) == /\ (mat = None \/ Remake) /\ mat' = [c |-> c, m |-> m] /\ UNCHANGED disk
              /\ op' = [n |-> "make", c |-> c, m |-> m]
Edit(m) == /\ Remake /\ mat # None /\ m # mat.m /\ mat' = [mat EXCEPT !.m = m] /\ UNCHANGED disk
           /\ op' = [n |-> "edit", m |-> m]
Write(f) ==
  /\ mat # None /\ UNCHANGED mat
  /\ LET ok == Representable(mat.c, f.ext) IN
       /\ disk' = IF ok THEN [disk EXCEPT ![f] = [mat EXCEPT !.m = Kept(@, f.ext)]] ELSE disk
       /\ op' = [n |-> "write", f |-> f, res |-> IF ok THEN "ok" ELSE "ValueError",
                 types |-> IF ok THEN DataTypes(mat.c) ELSE {},
                 old |-> disk[f] # None]
Read(f) ==
  /\ disk[f] # None /\ UNCHANGED disk
  /\ mat' = disk[f]
  /\ op' = [n |-> "read", f |-> f, c |-> disk[f].c, m |-> disk[f].m]
Next == \/ \E c \in Contents, m \in Metas : Make(c, m)
        \/ \E m \in Metas : Edit(m)
        \/ \E f \in Files : Write(f) \/ Read(f)
Spec == Init /\ [][Next]_vars
\* only representable materials ever get into a file; writing what was read changes nothing
OnlyRepresentable == \A f \in Files : disk[f] # None => Representable(disk[f].c, f.ext)
Idempotent == [][op'.n = "write" /\ op.n = "read" /\ op'.f = op.f => disk' = disk]_vars
FailureIsClean == [][op'.n = "write" /\ op'.res # "ok" => UNCHANGED <<mat, disk>>]_vars
OthersUntouched == [][op'.n = "write" => \A f \in Files : f # op'.f => disk'[f] = disk[f]]_vars
Id(x) == <<x.c.id, x.m>>
View == <<Id(mat), [f \in Files |-> Id(disk[f])]>>
FJ(d) == [n \in {f.name : f \in Files} |-> LET f == CHOOSE f \in Files : f.name = n IN Id(d[f])]
Emit == PrintT(<<"@@", ToJson([f |-> <<Id(mat), FJ(disk)>>, o |-> op', t |-> <<Id(mat'), FJ(disk')>>])>>)
=============================================================================
