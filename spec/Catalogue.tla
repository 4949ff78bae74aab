------------------------------ MODULE Catalogue ------------------------------
(***************************************************************************)
(* The catalogue of material files: the files of the modules on disk, the   *)
(* stored catalogue file (csv), the configuration and the catalogue in      *)
(* memory (db), with every operation a user has on them.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Files,      \* [m, id, ext, kind, own, w, of]: module, identity, extension, kind of content, unit
                      \* given in the file ("" if none), whether the reference value is inside its range,
                      \* and, for a second page of the library with the same data file, the page whose file it is
          First,      \* files present at the start
          Confs,      \* sets of enabled modules
          Rebuilds,   \* sequences of modules, <<"All">> or <<"None">>
          Names,      \* aliases that may be registered
          Layouts,    \* layouts of the refractiveindex.info database, [dirs, lists]: the data folders and
                      \* page lists that exist; {} if the layout is of no concern
          Targets,    \* files whose rows are given aliases
          Ops,        \* enabled operations
          MaxVer,     \* versions of a file's content
          MaxSteps    \* bound on the length of histories, 0 if none
VARIABLES disk, csv, db,
          other,      \* another catalogue object of the same user, for the same catalogue file
          steps, op
vars == <<disk, csv, db, other, steps, op>>
NoFile == [m |-> "", id |-> "", ext |-> "", kind |-> "", own |-> "", w |-> "", of |-> ""]
Absent == {[f |-> NoFile, v |-> 0, a |-> "", u |-> ""]}     \* no catalogue
ModuleUnit(m) == IF m = "RefractiveIndexInfo" THEN "um" ELSE "nm"
\* a directory or page list entry is catalogued if it is a data file of a known format
Listed(f) == f.kind # "dir" /\ (f.m = "RefractiveIndexInfo" \/ f.ext \in {"txt", "csv", "yml"})
Bad(f) == f.kind = "junk" /\ Listed(f)
Source(f) == IF f.of = "" THEN f ELSE CHOOSE g \in Files : g.m = f.m /\ g.id = f.of
Ver(f) == disk[Source(f)]
Present == {f \in Files : Ver(f) > 0}
\* a row: its file, the content it was made of, its alias and the unit the user has put into it ("": that of the module)
Row(f, v, a) == [f |-> f, v |-> v, a |-> a, u |-> ""]
UnitOf(r) == IF r.u = "" THEN ModuleUnit(r.f.m) ELSE r.u
Fresh(mods) == {Row(f, Ver(f), "") : f \in {g \in Present : Listed(g) /\ ~Bad(g) /\ g.m \in mods}}
Fails(mods) == \E f \in Present : Bad(f) /\ f.m \in mods
RowsOf(rows, mods) == {r \in rows : r.f.m \in mods}
Facts(r) == [f |-> r.f, v |-> r.v, a |-> r.a, unit |-> UnitOf(r), base |-> ModuleUnit(r.f.m),
             own |-> IF r.f.own = "" THEN UnitOf(r) ELSE r.f.own, nan |-> r.f.w \notin {"in", "edge"}]
FactsOf(rows) == {Facts(r) : r \in rows}
Tick == /\ (MaxSteps = 0 \/ steps < MaxSteps) /\ steps' = IF MaxSteps = 0 THEN 0 ELSE steps + 1
Loaded == db # Absent

Init == /\ disk = [f \in Files |-> IF f \in First /\ f.of = "" THEN 1 ELSE 0]
        /\ csv = Absent /\ db = Absent /\ other = Absent /\ steps = 0 /\ op = [n |-> "init"]
\* ---- the file system changes --------------------------------------------------
Add(f) == /\ "add" \in Ops /\ f.of = "" /\ disk[f] = 0 /\ disk' = [disk EXCEPT ![f] = 1] /\ UNCHANGED <<csv, db>>
          /\ op' = [n |-> "add", f |-> f]
Change(f) == /\ "change" \in Ops /\ disk[f] \in 1 .. MaxVer - 1 /\ disk' = [disk EXCEPT ![f] = @ + 1] /\ UNCHANGED <<csv, db>>
             /\ op' = [n |-> "change", f |-> f, v |-> disk[f] + 1]
Remove(f) == /\ "remove" \in Ops /\ disk[f] > 0 /\ disk' = [disk EXCEPT ![f] = 0] /\ UNCHANGED <<csv, db>>
             /\ op' = [n |-> "remove", f |-> f]
\* ---- creating a catalogue object -------------------------------------------------
Range(s) == {s[i] : i \in DOMAIN s}
Result(reb, mods) ==      \* outcome and rows of Catalogue(conf, rebuild)
  CASE reb = <<"All">> -> IF Fails(mods) THEN [res |-> "fails", rows |-> Absent] ELSE [res |-> "ok", rows |-> Fresh(mods)]
    [] reb = <<"None">> -> IF csv = Absent THEN [res |-> "fails", rows |-> Absent] ELSE [res |-> "ok", rows |-> csv]
    [] OTHER -> IF ~(Range(reb) \subseteq mods) THEN [res |-> IF csv = Absent THEN "fails" ELSE "ValueError", rows |-> Absent]
                ELSE IF csv = Absent \/ Fails(Range(reb)) THEN [res |-> "fails", rows |-> Absent]
                ELSE [res |-> "ok", rows |-> Fresh(Range(reb)) \cup RowsOf(csv, mods \ Range(reb))]
\* where the pages are listed and where their files lie, of what exists
Layout(l) == [dirs |-> l.dirs, lists |-> l.lists,
              dir |-> IF "data" \in l.dirs THEN "data" ELSE "data-nk",
              list |-> IF "catalog-nk.yml" \in l.lists THEN "catalog-nk.yml" ELSE "library.yml"]
NoLayout == [dirs |-> {}, lists |-> {}]
Open(reb, mods, lay) ==
  /\ "open" \in Ops /\ UNCHANGED <<disk, csv>>
  /\ LET r == Result(reb, mods) IN
       /\ db' = IF r.res = "ok" THEN r.rows ELSE db
       /\ op' = [n |-> "open", reb |-> reb, mods |-> mods, res |-> r.res, lay |-> IF lay = NoLayout THEN <<>> ELSE <<Layout(lay)>>,
                 rows |-> IF r.res = "ok" THEN FactsOf(r.rows) ELSE {}]
Save == /\ "save" \in Ops /\ Loaded /\ csv' = db /\ UNCHANGED <<disk, db>> /\ op' = [n |-> "save"]
\* ---- aliases -----------------------------------------------------------------------
Holder(a) == {r \in db : r.a = a}
WithAlias(f, a) == {IF r.f = f THEN [r EXCEPT !.a = a] ELSE r : r \in db}
InDb(f) == \E r \in db : r.f = f
Register(f, a) ==
  /\ "register" \in Ops /\ Loaded /\ InDb(f) /\ UNCHANGED <<disk, csv>>
  /\ LET taken == \E r \in Holder(a) : r.f # f IN
       /\ db' = IF taken THEN db ELSE WithAlias(f, a)
       /\ op' = [n |-> "register", f |-> f, a |-> a, res |-> IF taken THEN "ValueError" ELSE "ok", rows |-> FactsOf(db')]
RegisterBad(how, a) ==   \* selections of no or several rows, unknown rows, other arguments
  /\ "badregister" \in Ops /\ Loaded /\ UNCHANGED <<disk, csv, db>>
  /\ (how = "several" => Cardinality(db) > 1)
  /\ op' = [n |-> "badregister", how |-> how, a |-> a, res |-> "ValueError", rows |-> FactsOf(db)]
\* ---- lookup ------------------------------------------------------------------------
GetAlias(a) ==
  /\ "get" \in Ops /\ Loaded /\ UNCHANGED <<disk, csv, db>>
  /\ LET h == Holder(a) IN
     op' = [n |-> "getalias", a |-> a,
            res |-> IF a = "" \/ h = {} THEN "ValueError" ELSE IF Ver((CHOOSE r \in h : TRUE).f) = 0 THEN "fails" ELSE "ok",
            row |-> IF a = "" \/ h = {} THEN <<>> ELSE <<Facts(CHOOSE r \in h : TRUE)>>,
            now |-> IF a = "" \/ h = {} THEN 0 ELSE Ver((CHOOSE r \in h : TRUE).f)]
GetRow(f) ==
  /\ "get" \in Ops /\ Loaded /\ InDb(f) /\ UNCHANGED <<disk, csv, db>>
  /\ op' = [n |-> "getrow", f |-> f, res |-> IF Ver(f) = 0 THEN "fails" ELSE "ok",
            row |-> <<Facts(CHOOSE r \in db : r.f = f)>>, now |-> Ver(f)]
GetBad(how) == /\ "getbad" \in Ops /\ Loaded /\ UNCHANGED <<disk, csv, db>> /\ op' = [n |-> "getbad", how |-> how,
                         res |-> IF how \in {"beyond", "before"} THEN "fails" ELSE "ValueError"]
\* ---- the user rearranges the table ----------------------------------------------------
Reorder == /\ "reorder" \in Ops /\ Loaded /\ Cardinality(db) > 1 /\ UNCHANGED <<disk, csv, db>>
           /\ op' = [n |-> "reorder", rows |-> FactsOf(db)]
Drop(f) == /\ "drop" \in Ops /\ Loaded /\ InDb(f) /\ UNCHANGED <<disk, csv>> /\ db' = {r \in db : r.f # f}
           /\ op' = [n |-> "drop", f |-> f, rows |-> FactsOf(db')]
\* the aliases of two rows are exchanged in the table
Exchange(f, g) == /\ "exchange" \in Ops /\ Loaded /\ InDb(f) /\ InDb(g) /\ f # g /\ UNCHANGED <<disk, csv>>
                  /\ LET A(h) == (CHOOSE r \in db : r.f = h).a IN
                     db' = {IF r.f = f THEN [r EXCEPT !.a = A(g)] ELSE IF r.f = g THEN [r EXCEPT !.a = A(f)] ELSE r : r \in db}
                  /\ op' = [n |-> "exchange", f |-> f, g |-> g, rows |-> FactsOf(db')]
\* the user corrects the unit in the row of a file which gives none
Unitless(f) == f.own = "" /\ f.kind \in {"nk", "n", "eps", "row"}
Relabel(f, u) == /\ "relabel" \in Ops /\ Loaded /\ InDb(f) /\ Unitless(f) /\ UNCHANGED <<disk, csv>>
                 /\ UnitOf(CHOOSE r \in db : r.f = f) # u
                 /\ db' = {IF r.f = f THEN [r EXCEPT !.u = IF u = ModuleUnit(f.m) THEN "" ELSE u] ELSE r : r \in db}
                 /\ op' = [n |-> "relabel", f |-> f, u |-> u, rows |-> FactsOf(db')]
\* the user goes on with the other object
Switch == /\ "switch" \in Ops /\ (Loaded \/ other # Absent) /\ db' = other /\ other' = db /\ UNCHANGED <<disk, csv>>
          /\ op' = [n |-> "switch", rows |-> IF other = Absent THEN {} ELSE FactsOf(other)]

Work == \/ \E f \in Files : Add(f) \/ Change(f) \/ Remove(f) \/ GetRow(f) \/ Drop(f)
        \/ \E r \in Rebuilds, c \in Confs : \E l \in (IF Layouts = {} THEN {NoLayout} ELSE Layouts) : Open(r, c, l)
        \/ Save \/ Reorder
        \/ \E f, g \in Targets : Exchange(f, g)
        \/ \E f \in Targets, a \in Names : Register(f, a)
        \/ \E f \in Targets, u \in {"um", "nm", "ev"} : Relabel(f, u)
        \/ \E h \in {"none", "several", "unknown", "negative", "float", "str", "noneobj"}, a \in Names : RegisterBad(h, a)
        \/ \E a \in Names \cup {"", "nobody"} : GetAlias(a)
        \/ \E h \in {"float", "none", "list", "bytes", "beyond", "before"} : GetBad(h)
Step == (Work /\ UNCHANGED other) \/ Switch
Next == Tick /\ Step
Spec == Init /\ [][Next]_vars

\* ---- properties ----------------------------------------------------------------------
Unique(rows) == rows # Absent => \A r, s \in rows : r.f = s.f \/ (r.a # "" => r.a # s.a)
OneRowEach(rows) == rows # Absent => \A r, s \in rows : r.f = s.f => r = s
AliasUnique == Unique(db) /\ Unique(csv) /\ Unique(other)                                                    \* C17
EachFileOnce == OneRowEach(db) /\ OneRowEach(csv) /\ OneRowEach(other)                                           \* C15
OnlySaveWrites == [][csv' # csv => op'.n = "save"]_vars                                     \* C16
PartialKeepsRest == [][op'.n = "open" /\ op'.res = "ok" /\ op'.reb \notin {<<"All">>, <<"None">>} =>   \* C16
                        RowsOf(db', op'.mods \ Range(op'.reb)) = RowsOf(csv, op'.mods \ Range(op'.reb))]_vars
FailureIsClean == [][(op'.n \in {"register", "badregister", "open"} /\ op'.res # "ok") => UNCHANGED <<csv, db>>]_vars
OneRowChanges == [][op'.n = "register" => Cardinality(db' \ db) <= 1 /\ Cardinality(db \ db') <= 1]_vars    \* C17
ReloadIsSaved == [][op.n = "save" /\ op'.n = "open" /\ op'.reb = <<"None">> => db' = db]_vars               \* C19
LookupRight == [][op'.n = "getalias" /\ op'.res = "ok" => \E r \in db : r.a = op'.a /\ Facts(r) = op'.row[1]]_vars   \* C18
LookupUnit == [][op'.n \in {"getalias", "getrow"} /\ op'.res = "ok" =>                                            \* C18
                 op'.row[1].own = IF op'.row[1].f.own # "" THEN op'.row[1].f.own ELSE op'.row[1].unit]_vars
RebuildResets == [][op'.n = "open" /\ op'.res = "ok" /\ op'.reb = <<"All">> => \A r \in db' : r.u = "" /\ r.a = ""]_vars   \* C16
FName(f) == f.m \o "/" \o f.id
S(rows) == IF rows = Absent THEN {"absent"} ELSE {<<FName(r.f), ToString(r.v), r.a, r.u>> : r \in rows}
ObjectsAreSeparate == [][other' # other => op'.n = "switch"]_vars       \* what is done to one object stays there
View == <<disk, csv, db, other, steps>>
Short(d, c, b, o, s) == <<{<<FName(f), d[f]>> : f \in {g \in Files : d[g] > 0}}, S(c), S(b), s, S(o)>>
Emit == PrintT(<<"@@", ToJson([f |-> Short(disk, csv, db, other, steps), o |-> op', t |-> Short(disk', csv', db', other', steps')])>>)
=============================================================================
