------------------------------- MODULE YamlFile -------------------------------
(***************************************************************************)
(* The yaml format (native and refractiveindex.info).  A file consists of   *)
(* metadata entries and one or two data sets and is read with or without    *)
(* default type and unit.  The specification says which formula or table    *)
(* each part of the material is, in which unit, and how entries become      *)
(* metadata.                                                                *)
(***************************************************************************)
EXTENDS Formulas
CONSTANTS DataSets,   \* [k, m, ar, id, unit, style, gives]; gives: does it state type and unit or one of them
          Second,     \* data sets that may follow or precede a first one
          Args,       \* default pair handed to the constructor, <<>> if none
          MetaSets,   \* sets of metadata entries
          Caps,       \* letter case of the file's top-level keys, of no meaning
          Breaks      \* whether the file is valid yaml (FALSE) or damaged (TRUE)
VARIABLES file, op
vars == <<file, op>>
Number == <<"Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy", "Gases", "Herzberger", "Retro", "Exotic">>
PairOf(u) == CASE u = "um" -> <<"wavelength", "um">> [] u = "nm" -> <<"wavelength", "nm">>
               [] u = "ev" -> <<"energy", "ev">> [] u = "hz" -> <<"frequency", "hz">>
Model(d) == IF d.k = "formula" THEN Number[d.id] ELSE d.m
RealPart(d) == \/ d.k \in {"formula", "model"} /\ Model(d) \in IndexModels
               \/ d.k = "tab" /\ d.m = "n"
KPart(d) == d.k = "tab" /\ d.m = "k"

\* type and unit, each: the data set's own, else that of an earlier data set, else the argument, else wavelength/nm
RECURSIVE Unit(_, _, _)
Unit(ds, i, arg) == IF i = 0 THEN (IF arg = <<>> THEN <<"wavelength", "nm">> ELSE arg)
                    ELSE LET d == ds[i]
                             before == Unit(ds, i - 1, arg)
                         IN IF d.unit = "" THEN before
                            ELSE << IF d.gives = "unit" THEN before[1] ELSE PairOf(d.unit)[1],
                                    IF d.gives = "type" THEN before[2] ELSE PairOf(d.unit)[2] >>
\* formulas accept only their own unit, tables any unit of their type
UnitOK(d, p) == IF d.k = "tab" THEN p = PairOf(p[2]) ELSE p = OwnPair(Model(d))
Known(d) == d.k # "bogus"
Outcome(ds, arg) == IF \E i \in DOMAIN ds : ~Known(ds[i]) THEN "error"
                    ELSE IF \A i \in DOMAIN ds : UnitOK(ds[i], Unit(ds, i, arg)) THEN "ok" ELSE "ValueError"
Law(d) == IF d.k = "tab" \/ d.k = "bogus" THEN <<>> ELSE Formula(Model(d), d.ar)
\* what each part of the material is: data set and column (0 for a formula), or zero
NoPart == [ds |-> 0, col |-> 0]
P(i, c) == [ds |-> i, col |-> c]
Parts(ds) ==
  LET re == {i \in DOMAIN ds : RealPart(ds[i])}
      im == {i \in DOMAIN ds : KPart(ds[i])}
      both == {i \in DOMAIN ds : ds[i].k = "tab" /\ ds[i].m \in {"nk", "eps"}}
      er == {i \in DOMAIN ds : ds[i].k = "tab" /\ ds[i].m = "eps_r"}
      ei == {i \in DOMAIN ds : ds[i].k = "tab" /\ ds[i].m = "eps_k"}
      cx == {i \in DOMAIN ds : ds[i].k \in {"formula", "model"} /\ Model(ds[i]) \in EpsModels}
      C(S) == CHOOSE i \in S : TRUE
      isTab(i) == ds[i].k = "tab"
  IN [name |-> IF cx # {} \/ er # {} \/ ei # {} \/ (both # {} /\ ds[C(both)].m = "eps") THEN "eps" ELSE "nk",
      cx |-> IF cx # {} THEN C(cx) ELSE 0,
      re |-> IF both # {} THEN P(C(both), 1) ELSE IF re # {} THEN P(C(re), IF isTab(C(re)) THEN 1 ELSE 0)
             ELSE IF er # {} THEN P(C(er), 1) ELSE NoPart,
      im |-> IF both # {} THEN P(C(both), 2) ELSE IF im # {} THEN P(C(im), 1) ELSE IF ei # {} THEN P(C(ei), 1) ELSE NoPart]

Init == /\ file = [ds |-> <<>>, meta |-> {}] /\ op = [n |-> "init"]
AddMeta(s) == /\ file.meta = {} /\ file.ds = <<>> /\ s # {} /\ file' = [file EXCEPT !.meta = s] /\ op' = [n |-> "meta"]
AddData(d) ==
  /\ \/ file.ds = <<>>
     \/ /\ Len(file.ds) = 1 /\ d \in Second
        /\ \/ RealPart(file.ds[1]) /\ KPart(d)
           \/ KPart(file.ds[1]) /\ RealPart(d)
           \/ file.ds[1].m = "eps_r" /\ d.m = "eps_k"
  /\ file' = [file EXCEPT !.ds = Append(@, d)]
  /\ op' = [n |-> "data"]
Read(arg, caps, broken) ==
  /\ file.ds # <<>> /\ UNCHANGED file
  /\ op' = [n |-> "read", ds |-> file.ds, meta |-> file.meta, arg |-> arg, caps |-> caps, broken |-> broken, res |-> IF broken THEN "error" ELSE Outcome(file.ds, arg),
            pairs |-> [i \in DOMAIN file.ds |-> Unit(file.ds, i, arg)],
            own |-> Unit(file.ds, Len(file.ds), arg),
            laws |-> [i \in DOMAIN file.ds |-> Law(file.ds[i])],
            parts |-> Parts(file.ds)]
Next == (\E s \in MetaSets : AddMeta(s)) \/ (\E d \in DataSets \cup Second : AddData(d)) \/ (\E a \in Args, c \in Caps, b \in Breaks : Read(a, c, b))
Spec == Init /\ [][Next]_vars
\* every data set ends up in some part, and no two in the same
AllUsed == file.ds # <<>> /\ (\A i \in DOMAIN file.ds : Known(file.ds[i])) =>
  LET p == Parts(file.ds) IN
  /\ {p.cx, p.re.ds, p.im.ds} \ {0} = DOMAIN file.ds
  /\ (Len(file.ds) = 2 => p.re.ds # p.im.ds)
View == file
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> file'])>>)
=============================================================================
