------------------------------ MODULE YamlFileMC ------------------------------
EXTENDS YamlFile
Us == {"", "um", "nm", "ev"}
Styles == {"native", "rii", "mixed"}        \* mixed: any key of either style
D(k, m, ar, id, u, s) == [k |-> k, m |-> m, ar |-> ar, id |-> id, unit |-> u, style |-> s, gives |-> "both"]
Half(S) == {[d EXCEPT !.gives = g] : d \in {e \in S : e.unit # ""}, g \in {"unit", "type"}}
FormulaSets == UNION {{D("formula", Number[i], ar, i, u, s) : ar \in Arities(Number[i], 2)} : i \in 1 .. 9, u \in {"", "um"}, s \in Styles}
ModelSets == UNION {{D("model", m, ar, 0, u, s) : ar \in Arities(m, 1), u \in {"", OwnPair(m)[2]}, s \in Styles} : m \in IndexModels \cup EpsModels}
TabSets == {D("tab", m, 0, 0, u, s) : m \in {"n", "k", "nk", "eps", "eps_r", "eps_k"}, u \in Us \cup {"hz"}, s \in Styles}
BogusSets == {D("bogus", m, 0, 0, u, s) : m \in {"formula 0", "formula 10", "tabulated xy", "tabulated n2", "table nk", "model Nothing", "fixed n", "constant"},
                                          u \in {"um"}, s \in Styles}
Singles == FormulaSets \cup ModelSets \cup TabSets \cup BogusSets
           \cup Half({d \in FormulaSets : d.ar < 6 /\ d.style # "mixed"} \cup {d \in ModelSets : d.style = "native"} \cup {d \in TabSets : d.style = "native"})
\* two data sets: every formula (one arity), with tables for k in every unit, both orders
One(m) == CHOOSE a \in Arities(m, 1) : a > 1
Two == {"native", "rii"}
PairReal == {D("formula", Number[i], One(Number[i]), i, u, s) : i \in 1 .. 9, u \in {"", "um"}, s \in Two}
            \cup {D("model", Number[i], One(Number[i]), 0, "um", "native") : i \in 1 .. 9}
            \cup {d \in TabSets : d.m \in {"n", "eps_r"} /\ d.style \in Two}
            \cup {D("model", "Sellmeier", 3, 0, "um", "mixed"), D("tab", "n", 0, 0, "nm", "mixed")}
            \cup Half({D("formula", "Sellmeier", 3, 1, "um", "native"), D("tab", "n", 0, 0, "ev", "native"), D("tab", "eps_r", 0, 0, "nm", "rii")})
PairImag == {d \in TabSets : d.m \in {"k", "eps_k"} /\ d.style \in Two} \cup Half({d \in TabSets : d.m = "k" /\ d.style = "native"})
ArgSet == {<<>>, <<"wavelength", "um">>, <<"wavelength", "nm">>, <<"energy", "ev">>}
MK == {"REFERENCES", "COMMENTS", "NAME", "FULLNAME", "AUTHOR", "SPECS", "comment"}
NoMeta == {{}}
TwoMeta == {{}, MK}
AllMeta == SUBSET MK
FewData == {D("formula", "Sellmeier", 3, 1, "um", "rii"), D("tab", "nk", 0, 0, "nm", "native")}
=============================================================================
