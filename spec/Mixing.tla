-------------------------------- MODULE Mixing --------------------------------
(***************************************************************************)
(* Effective media.  A state is the list of media mixed so far; a mixture   *)
(* is a tree over base materials.  Positions are indices into a set of      *)
(* spectral values; a base material is known at every position it covers,   *)
(* an effective medium at the positions of the spectrum it was made for.    *)
(***************************************************************************)
EXTENDS Expr, FiniteSets, TLC, Json
CONSTANTS Bases,     \* set of [id, eps (integer or "f"), loss, diel, cover]
          Spectra,   \* set of [id, pair, pos, form]
          Fracs,     \* set of [num, den]
          Rules, QueryPairs, MaxEff
VARIABLES effs, op
vars == <<effs, op>>

\* ---- the mixing rules -------------------------------------------------------
F == Sym("f")
OneMinusF == Sub(I(1), F)
SimpleRule == Add(Mlt(OneMinusF, Sym("e1")), Mlt(F, Sym("e2")))
MGRule == Div(Mlt(Sym("e1"), Add(Mlt(Mlt(I(2), OneMinusF), Sym("e1")), Mlt(Add(I(1), Mlt(I(2), F)), Sym("e2")))),
              Add(Mlt(Add(I(2), F), Sym("e1")), Mlt(OneMinusF, Sym("e2"))))
\* symmetric Bruggeman equation (1-f)(e1-e)/(e1+2e) + f(e2-e)/(e2+2e) = 0, without the denominators
BruggemanEq == Add(Mlt(OneMinusF, Mlt(Sub(Sym("e1"), Sym("e")), Add(Sym("e2"), Mlt(I(2), Sym("e"))))),
                   Mlt(F, Mlt(Sub(Sym("e2"), Sym("e")), Add(Sym("e1"), Mlt(I(2), Sym("e"))))))
Law(rule) == CASE rule = "Simple" -> [k |-> "value", e |-> SimpleRule]
               [] rule = "MaxwellGarnett" -> [k |-> "value", e |-> MGRule]
               [] rule = "Bruggeman" -> [k |-> "zero", e |-> BruggemanEq]

\* ---- media ------------------------------------------------------------------
Ids == {b.id : b \in Bases}
Base(id) == CHOOSE b \in Bases : b.id = id
\* a medium is referred to by <<"base", id>> or <<"eff", k>>
RECURSIVE Tree(_)
Tree(r) == IF r[1] = "base" THEN r
           ELSE LET e == effs[r[2]] IN <<"mix", e.rule, e.f, Tree(e.a), Tree(e.b)>>
RECURSIVE Lossless(_), Dielectric(_), Amplifies(_)
Amplifies(r) == IF r[1] = "base" THEN Base(r[2]).gain ELSE Amplifies(effs[r[2]].a) \/ Amplifies(effs[r[2]].b)
Lossless(r) == IF r[1] = "base" THEN ~Base(r[2]).loss ELSE Lossless(effs[r[2]].a) /\ Lossless(effs[r[2]].b)
Dielectric(r) == IF r[1] = "base" THEN Base(r[2]).diel ELSE Dielectric(effs[r[2]].a) /\ Dielectric(effs[r[2]].b)
Range(s) == {s[i] : i \in DOMAIN s}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
\* positions at which a medium is known / at which it can be evaluated at all
Knots(r) == IF r[1] = "base" THEN Base(r[2]).cover ELSE Range(effs[r[2]].s.pos)
Covers(r, x) == IF r[1] = "base" THEN x \in Base(r[2]).cover
                ELSE LET P == Range(effs[r[2]].s.pos) IN MinS(P) <= x /\ x <= MaxS(P)
InUnit(f) == 0 <= f.num /\ f.num <= f.den
\* Maxwell Garnett is singular: (2+f) e1 + (1-f) e2 = 0, decided exactly for integer permittivities
ConstEps(r) == r[1] = "base" /\ Base(r[2]).real
Singular(rule, f, a, b) == rule = "MaxwellGarnett" /\ ConstEps(a) /\ ConstEps(b)
   /\ (2 * f.den + f.num) * Base(a[2]).eps + (f.den - f.num) * Base(b[2]).eps = 0
\* both media lossless and one of them metallic, or one with gain: the Bruggeman branch is not determined
Undetermined(rule, a, b) ==
  /\ rule = "Bruggeman"
  /\ \/ Lossless(a) /\ Lossless(b) /\ ~(Dielectric(a) /\ Dielectric(b))
     \/ Amplifies(a)
     \/ Amplifies(b)

Refs == {<<"base", id>> : id \in Ids} \cup {<<"eff", k>> : k \in DOMAIN effs}
Outcome(rule, f, a, b, s) ==
  IF \/ ~InUnit(f) \/ Singular(rule, f, a, b)
     \/ \E x \in Range(s.pos) : ~Covers(a, x) \/ ~Covers(b, x)
  THEN "ValueError" ELSE "ok"

Init == effs = <<>> /\ op = [n |-> "init"]
Mix(rule, f, a, b, s) ==
  /\ (MaxEff > 0 => Len(effs) < MaxEff)
  /\ (Len(effs) > 0 => "eff" \in {a[1], b[1]})
  /\ ~Undetermined(rule, a, b)
  \* mixtures of media that are not known at the positions are not followed further
  /\ (Outcome(rule, f, a, b, s) = "ok" => Range(s.pos) \subseteq Knots(a) \cap Knots(b))
  \* lossless metals only in two-component mixtures (resonances are not modelled)
  /\ ((a[1] = "eff" \/ b[1] = "eff") => Dielectric(a) /\ Dielectric(b))
  /\ IF Outcome(rule, f, a, b, s) = "ok" /\ Len(effs) < MaxEff /\ Dielectric(a) /\ Dielectric(b)
     THEN effs' = Append(effs, [rule |-> rule, f |-> f, a |-> a, b |-> b, s |-> s])
     ELSE UNCHANGED effs
  /\ op' = [n |-> "mix", rule |-> rule, f |-> f, a |-> a, b |-> b, ta |-> Tree(a), tb |-> Tree(b),
            s |-> s, law |-> Law(rule), keep |-> effs' # effs,
            same |-> IF f.num = 0 THEN "first" ELSE IF f.num = f.den THEN "second" ELSE "neither",
            passive |-> Lossless(a) /\ Lossless(b) /\ Dielectric(a) /\ Dielectric(b),
            res |-> Outcome(rule, f, a, b, s)]
Query(k, x, q) ==
  /\ k = Len(effs) /\ UNCHANGED effs
  /\ LET e == effs[k] P == Range(e.s.pos) IN
     /\ (x \in P \/ x < MinS(P) \/ x > MaxS(P))
     /\ op' = [n |-> "query", k |-> k, x |-> x, q |-> q, tree |-> Tree(<<"eff", k>>),
               res |-> IF x \in P THEN "ok" ELSE "ValueError"]
Report(k) ==
  /\ k \in DOMAIN effs /\ UNCHANGED effs
  /\ op' = [n |-> "report", k |-> k, lo |-> MinS(Range(effs[k].s.pos)), hi |-> MaxS(Range(effs[k].s.pos))]
Next ==
  \/ \E rule \in Rules, f \in Fracs, a \in Refs, b \in Refs, s \in Spectra : Mix(rule, f, a, b, s)
  \/ \E k \in DOMAIN effs, x \in 1 .. 7, q \in QueryPairs : Query(k, x, q)
  \/ \E k \in DOMAIN effs : Report(k)
Spec == Init /\ [][Next]_vars
\* an effective medium never claims to cover a position one of its constituents does not
Covered == \A k \in DOMAIN effs : \A x \in 1 .. 7 :
   Covers(<<"eff", k>>, x) => Covers(effs[k].a, x) /\ Covers(effs[k].b, x)
Earlier == \A k \in DOMAIN effs : \A r \in {effs[k].a, effs[k].b} : r[1] = "eff" => r[2] < k
View == effs
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> effs'])>>)
=============================================================================
