----------------------------- MODULE Interactive -----------------------------
(***************************************************************************)
(* Interactive viewing and editing of the catalogue.  The widget holds a    *)
(* copy of the table of the moment it was made; what the user does in it    *)
(* reaches the catalogue with save_interactive only, and then completely.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rows,       \* rows of the catalogue at the start
          Names,      \* aliases
          Marks,      \* what a number of a row is: its own, missing, another
          Stored      \* TRUE: the stored catalogue is part of the histories
VARIABLES on, db, grid, csv, op
vars == <<on, db, grid, csv, op>>
NoGrid == <<>>
Table(d) == {[r |-> r, a |-> d[r].a, x |-> d[r].x] : r \in DOMAIN d}
Fresh == [r \in Rows |-> [a |-> "", x |-> "own"]]
Without(d, r) == [s \in DOMAIN d \ {r} |-> d[s]]

Init == /\ on \in BOOLEAN /\ db = Fresh /\ csv = Fresh /\ grid = NoGrid /\ op = [n |-> "init"]

Show(ed) ==
  /\ UNCHANGED <<on, db, csv>>
  /\ grid' = IF on THEN <<[ed |-> ed, t |-> db]>> ELSE grid
  /\ op' = [n |-> "show", ed |-> ed, res |-> IF on THEN "ok" ELSE "ValueError", db |-> Table(db)]
\* the user works in the widget
Cell(r, a) ==
  /\ grid # NoGrid /\ grid[1].ed /\ r \in DOMAIN grid[1].t /\ grid[1].t[r].a # a /\ UNCHANGED <<on, db, csv>>
  /\ grid' = <<[grid[1] EXCEPT !.t[r].a = a]>>
  /\ op' = [n |-> "cell", r |-> r, a |-> a, db |-> Table(db)]
Number(r, x) ==
  /\ grid # NoGrid /\ grid[1].ed /\ r \in DOMAIN grid[1].t /\ grid[1].t[r].x # x /\ UNCHANGED <<on, db, csv>>
  /\ grid' = <<[grid[1] EXCEPT !.t[r].x = x]>>
  /\ op' = [n |-> "number", r |-> r, x |-> x, db |-> Table(db)]
Delete(r) ==
  /\ grid # NoGrid /\ grid[1].ed /\ r \in DOMAIN grid[1].t /\ UNCHANGED <<on, db, csv>>
  /\ grid' = <<[grid[1] EXCEPT !.t = Without(grid[1].t, r)]>>
  /\ op' = [n |-> "delete", r |-> r, db |-> Table(db)]
Accept ==
  /\ UNCHANGED <<on, grid, csv>>
  /\ db' = IF on /\ grid # NoGrid THEN grid[1].t ELSE db
  /\ op' = [n |-> "accept", res |-> IF ~on THEN "ValueError" ELSE IF grid = NoGrid THEN "fails" ELSE "ok", db |-> Table(db')]
\* other operations on the catalogue meanwhile
Register(r, a) ==
  /\ r \in DOMAIN db /\ UNCHANGED <<on, grid, csv>>
  /\ LET taken == db[r].a # a /\ \E s \in DOMAIN db : db[s].a = a IN
       /\ db' = IF taken THEN db ELSE [db EXCEPT ![r].a = a]
       /\ op' = [n |-> "register", r |-> r, a |-> a, res |-> IF taken THEN "ValueError" ELSE "ok", db |-> Table(db')]
Save == /\ Stored /\ csv' = db /\ UNCHANGED <<on, db, grid>> /\ op' = [n |-> "save", db |-> Table(db)]
Reload == /\ Stored /\ db' = csv /\ grid' = NoGrid /\ UNCHANGED <<on, csv>> /\ op' = [n |-> "reload", on |-> on, db |-> Table(db')]

Next == \/ \E e \in BOOLEAN : Show(e)
        \/ \E r \in Rows : Delete(r) \/ (\E x \in Marks : Number(r, x)) \/ (\E a \in Names \cup {""} : Cell(r, a)) \/ \E a \in Names : Register(r, a)
        \/ Accept \/ Save \/ Reload
Spec == Init /\ [][Next]_vars
\* only accepting, registering and reloading change the catalogue, only saving the file
OnlyAccepted == [][db' # db => op'.n \in {"accept", "register", "reload"}]_vars
FileOnlySaved == [][csv' # csv => op'.n = "save"]_vars
\* a widget that cannot be edited shows the table it was made of
ReadOnly == [][grid # NoGrid /\ grid' # NoGrid /\ ~grid[1].ed /\ op'.n # "show" => grid' = grid]_vars
Disabled == ~on => grid = NoGrid
View == <<on, db, grid, csv>>
St(o, d, g, c) == <<o, Table(d), IF g = NoGrid THEN {} ELSE {[ed |-> g[1].ed, t |-> Table(g[1].t)]}, Table(c)>>
Emit == PrintT(<<"@@", ToJson([f |-> St(on, db, grid, csv), o |-> op', t |-> St(on', db', grid', csv')])>>)
=============================================================================
