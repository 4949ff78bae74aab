----------------------------- MODULE CatalogueMC -----------------------------
EXTENDS Catalogue
U == "UserData"
R == "RefractiveIndexInfo"
M == "Filmetrics"
F(m, id, ext, kind, own, w) == [m |-> m, id |-> id, ext |-> ext, kind |-> kind, own |-> own, w |-> w, of |-> ""]
\* another page of the library with the data file of page f
Twin(f, id) == [f EXCEPT !.id = id, !.of = f.id]
\* user files of every format, unit and kind
UserFiles == {F(U, "u1", "txt", "nk", "", "in"), F(U, "u2", "txt", "nk", "ev", "in"), F(U, "u3", "csv", "n", "um", "out"),
              F(U, "u4", "yml", "model", "um", "in"), F(U, "u5", "yml", "nk", "", "out"), F(U, "u6", "yml", "eps", "hz", "in"),
              F(U, "u7", "nk", "nk", "nm", "in"), F(U, "u8", "txt", "dir", "", "in"), F(U, "u9", "dat", "nk", "", "in")}
UserFiles2 == {F(U, "v1", "txt", "row", "", "out"), F(U, "v2", "csv", "eps", "ev", "out"), F(U, "v3", "yml", "mixed", "", "in"), F(U, "v4", "yml", "n", "ev", "in"),
               F(M, "m1", "txt", "nk", "", "in"), F(M, "m2", "csv", "nk", "um", "out"), F(M, "m3", "log", "nk", "", "in"), F(U, "v5", "yml", "model", "um", "out"),
               F(U, "v6", "yml", "drude", "ev", "in"), F(U, "v7", "yml", "mixed", "", "part")}
Pages == {F(R, "p1", "yml", "model", "", "in"), F(R, "p2", "yml", "nk", "", "in"), F(R, "p3", "yml", "mixed", "", "in"),
          F(R, "p4", "yml", "nk", "", "out"), F(R, "p5", "yml", "model", "", "out"), F(R, "p6", "yml", "n", "nm", "in"), F(R, "p7", "yml", "nk", "ev", "in"), F(R, "p8", "yml", "row", "", "out"), F(R, "p9", "yml", "mixed", "", "part")}
Mixed == {F(U, "u1", "txt", "nk", "", "in"), F(U, "u2", "csv", "nk", "ev", "out"), F(R, "p1", "yml", "model", "", "in"), F(R, "p2", "yml", "nk", "", "out"),
          F(M, "m1", "txt", "nk", "", "in"), F(U, "u9", "bak", "nk", "", "in")}
AllConfs == SUBSET {U, R, M}
SomeConfs == {{U, R, M}, {U, R}, {R}, {U}, {}, {M, R}}
FullConf == {{U, R, M}}
OnlyAll == {<<"All">>}
\* histories of rebuilds
Trio == {F(U, "u1", "txt", "nk", "", "in"), F(R, "p1", "yml", "model", "", "in"), F(M, "m1", "csv", "nk", "um", "out")}
TrioJunk == {F(U, "u1", "txt", "nk", "", "in"), F(R, "p1", "yml", "model", "", "in"), F(U, "j1", "txt", "junk", "", "in")}
NoJunk == {f \in TrioJunk : f.kind # "junk"}
Duo == {F(U, "u1", "txt", "nk", "", "in"), F(R, "p1", "yml", "model", "", "in")}
AllRebuilds == {<<"All">>, <<"None">>, <<U>>, <<R>>, <<M>>, <<U, R>>, <<M, U>>}
DuoRebuilds == {<<"All">>, <<"None">>, <<U>>, <<R>>, <<M>>, <<U, R>>}
RebuildConfs == {{U, R, M}, {U, R}, {R, M}}
TwoConfs == {{U, R, M}, {R, M}}
DuoConfs == {{U, R}, {R}}
LoadAll == {<<"All">>, <<"None">>}
OneAlias == {"a1"}
TwoAlias == {"a1", "a2"}
ThreeAlias == {"a1", "a2", "a3"}
NoNames == {}
FirstOnly == {F(U, "u1", "txt", "nk", "", "in")}
Four == {F(U, "u1", "txt", "nk", "", "in"), F(R, "p1", "yml", "model", "", "in"), F(R, "p2", "yml", "nk", "", "out"), F(U, "u2", "csv", "nk", "ev", "out")}
Three == {F(U, "u1", "txt", "nk", "", "in"), F(R, "p1", "yml", "model", "", "in"), F(U, "u2", "csv", "nk", "ev", "out")}
Namesakes == {F(U, "u1", "txt", "nk", "", "in"), F(M, "m1", "txt", "nk", "", "out"), F(U, "u2", "txt", "nk", "ev", "out")}
Nothing == {}
TwinPages == LET p == F(R, "p1", "yml", "model", "", "in")
                 q == F(R, "p2", "yml", "nk", "", "out") IN {p, q, Twin(p, "t1"), Twin(q, "t2"), Twin(p, "t3")}
\* files whose range begins or ends at the reference value
EdgeFiles == {F(U, "e1", "txt", "nk", "", "edge"), F(U, "e2", "yml", "eps", "ev", "edge"), F(R, "e3", "yml", "nk", "", "edge"), F(U, "e4", "csv", "n", "um", "edge"),
              F(R, "e5", "yml", "model", "", "edge"), F(U, "e6", "yml", "drude", "ev", "edge")}
TwinDuo == LET p == F(R, "p1", "yml", "model", "", "in") IN {p, Twin(p, "t1"), F(U, "u1", "txt", "nk", "", "in")}
PagesFew == {f \in Pages : f.id \in {"p1", "p4", "p7"}}
NoLayouts == {}
EveryLayout == {[dirs |-> d, lists |-> l] : d \in (SUBSET {"data", "data-nk"}) \ {{}}, l \in (SUBSET {"catalog-nk.yml", "library.yml"}) \ {{}}}
ASSUME \A l \in EveryLayout : Layout(l).dir \in l.dirs /\ Layout(l).list \in l.lists
=============================================================================
