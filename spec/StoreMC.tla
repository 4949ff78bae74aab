------------------------------- MODULE StoreMC -------------------------------
EXTENDS Store
T(u, g) == [k |-> "table", u |-> u, g |-> g]
M(m) == [k |-> "model", u |-> "um", g |-> m]
CM(m) == [k |-> "cmodel", u |-> "ev", g |-> m]
K == [k |-> "const", u |-> "", g |-> ""]
X(u, g) == [k |-> "extrap", u |-> u, g |-> g]
Z == ZeroPart
Content(name, re, im, cx, v) == [name |-> name, re |-> re, im |-> im, cx |-> cx, id |-> <<name, re, im, cx, v>>]
Units == {"nm", "um", "ev", "hz"}
RealModels == {"Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy", "Gases", "Herzberger", "Retro", "Exotic"}
CplxModels == {"Drude", "DrudeLorentz", "TaucLorentz"}
\* single tables
Singles == {Content(nm, T(u, "g1"), T(u, "g1"), Z, 1) : nm \in {"nk", "eps"}, u \in Units}
           \cup {Content(nm, T(u, "g1"), Z, Z, 1) : nm \in {"nk", "eps"}, u \in Units}
           \cup {Content(nm, Z, T(u, "g1"), Z, 1) : nm \in {"nk", "eps"}, u \in Units}
Long == {c \in Singles : c.id[2].u \in {"nm", "ev", ""} /\ c.id[3].u \in {"nm", "ev", ""}}
\* two tables: different grids and/or units
Doubles == {Content(nm, T(u, "g1"), T(w, "g2"), Z, 1) : nm \in {"nk", "eps"}, u \in Units, w \in Units}
\* two tables with the same numbers in different units
Twins == {Content(nm, T(u, "same"), T(w, "same"), Z, 1) : nm \in {"nk", "eps"}, <<u, w>> \in {<<a, b>> \in {"nm", "um", "ev", "a", "m"} \X {"nm", "um", "ev", "a", "m"} : a # b}}
Modelled == {Content("nk", M(m), Z, Z, 1) : m \in RealModels} \cup {Content("eps", Z, Z, CM(m), 1) : m \in CplxModels}
            \cup {Content("nk", M(m), T(u, "g1"), Z, 1) : m \in RealModels, u \in Units}
Consts == {Content("nk", K, Z, Z, 1), Content("eps", K, Z, Z, 1), Content("nk", K, K, Z, 1), Content("eps", K, K, Z, 1),
           Content("nk", K, T("nm", "g1"), Z, 1), Content("nk", T("nm", "g1"), K, Z, 1)}
Extended_ == {Content(nm, X(u, "g1"), X(u, "g1"), Z, 1) : nm \in {"nk", "eps"}, u \in Units} \cup {Content("nk", X("nm", "g1"), Z, Z, 1)}
AllContents == Extended_ \cup Singles \cup Doubles \cup Twins \cup Modelled \cup Consts
\* contents for long histories
Few == {Content("nk", T("nm", "g1"), T("nm", "g1"), Z, 1), Content("nk", T("nm", "g1"), T("nm", "g1"), Z, 2),
        Content("eps", T("ev", "g1"), Z, Z, 1), Content("nk", M("Sellmeier"), T("ev", "g1"), Z, 1)}
AllKeys == {"Reference", "Author", "Name", "FullName", "Comment", "MetaComment"}
Full == AllKeys \cup {"Specification", "Further"}
TwoMetas == {{}, Full}
EveryMeta == SUBSET (Full \ {"Further"})
OneMeta == {Full}
F(n, e) == [name |-> n, ext |-> e]
FilesYml == {F("a.yml", "yml"), F("b.yml", "yml")}
FilesMix == {F("a.yml", "yml"), F("b.txt", "txt")}
FilesTxt == {F("a.txt", "txt"), F("a.csv", "csv")}
FilesAll == {F("a.yml", "yml"), F("b.txt", "txt"), F("c.csv", "csv"), F("d.nk", "nk"), F("e.dat", "dat"), F("f", ""), F("g.yaml", "yaml")}
Tiny == {Content("nk", T("nm", "g1"), T("nm", "g1"), Z, 1), Content("nk", M("Cauchy"), Z, Z, 1)}
MetaOnly == {Content("nk", T("nm", "g1"), T("nm", "g1"), Z, 1)}
=============================================================================
