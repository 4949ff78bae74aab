------------------------------- MODULE Contain -------------------------------
(***************************************************************************)
(* Whether one spectrum lies within the extent of another.  Spectra are     *)
(* sequences of wavelengths in femtometres, written in some type and unit;  *)
(* they may be rewritten in place, which changes neither their extent nor   *)
(* what they contain.                                                       *)
(***************************************************************************)
EXTENDS Units, TLC, Json
CONSTANTS Seqs, ConvPairs, MaxConv
VARIABLES sp, conv, op       \* sp: the spectra made so far
vars == <<sp, conv, op>>
INF == 2147483647
NAN == -1
Range(s) == {s[i] : i \in DOMAIN s}
Vals(s) == Range(s.pos) \ {NAN}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
\* positions on an end of the other spectrum, where the units differ or were converted, are left to rounding
OnEnd(a, x) == x \in {MinS(Vals(a)), MaxS(Vals(a))}
Below(s) == \E i \in DOMAIN s : s[i] < NAN
Firm(a, b, x) == x \in {0, INF} \/ (a.p = b.p /\ ~a.moved /\ ~b.moved)
Outside(a, x) == x < MinS(Vals(a)) \/ x > MaxS(Vals(a))
Contains(a, b) == IF \E x \in Vals(b) : Outside(a, x) THEN "ValueError"
                  ELSE IF \E x \in Vals(b) : OnEnd(a, x) /\ ~Firm(a, b, x) THEN "either" ELSE "ok"

Init == sp = <<>> /\ conv = 0 /\ op = [n |-> "init"]
Make(s, p, form) ==
  /\ Len(sp) < 2 /\ UNCHANGED conv
  /\ (form = "float" => Len(s) = 1)
  /\ (Len(sp) = 0 => NAN \notin Range(s))
  /\ (Below(s) => p[1] = "wavelength")      \* negative values have no meaning, their order has
  /\ sp' = Append(sp, [pos |-> s, p |-> p, moved |-> FALSE])
  /\ op' = [n |-> "make", pos |-> s, p |-> p, form |-> form]
Rewrite(k, p) ==
  /\ Len(sp) = 2 /\ conv < MaxConv /\ conv' = conv + 1 /\ p # sp[k].p
  /\ (Below(sp[k].pos) => p[1] = "wavelength")
  /\ sp' = [sp EXCEPT ![k] = [@ EXCEPT !.p = p, !.moved = TRUE]]
  /\ op' = [n |-> "convert", k |-> k, p |-> p]
\* a spectrum that holds NaN only asks, it is not asked
Ask(i, j) ==
  /\ i \in DOMAIN sp /\ j \in DOMAIN sp /\ NAN \notin Range(sp[i].pos)
  /\ (Below(sp[1].pos \o sp[2].pos) => sp[1].p[1] = "wavelength" /\ sp[2].p[1] = "wavelength") /\ UNCHANGED <<sp, conv>>
  /\ op' = [n |-> "ask", i |-> i, j |-> j, res |-> IF i = j THEN "ok" ELSE Contains(sp[i], sp[j])]
Forms == {"float", "list", "tuple", "array"}
Next == \/ \E s \in Seqs, p \in ConvPairs, f \in Forms : Make(s, p, f)
        \/ \E k \in 1 .. 2, p \in ConvPairs : Rewrite(k, p)
        \/ Len(sp) = 2 /\ \E i, j \in 1 .. 2 : Ask(i, j)
Spec == Init /\ [][Next]_vars
\* containment does not depend on units, and both ways means the same extent
Both == Len(sp) = 2 /\ NAN \notin Range(sp[2].pos) =>
   (Contains(sp[1], sp[2]) # "ValueError" /\ Contains(sp[2], sp[1]) # "ValueError")
      <=> (MinS(Vals(sp[1])) = MinS(Vals(sp[2])) /\ MaxS(Vals(sp[1])) = MaxS(Vals(sp[2])))
Reflexive == \A i \in DOMAIN sp : Contains(sp[i], sp[i]) # "ValueError"
ASSUME ContainTransitive == \A a, b, c \in {[pos |-> s, p |-> <<"wavelength", "nm">>, moved |-> FALSE] : s \in {t \in Seqs : Range(t) # {NAN}}} :
   Contains(a, b) = "ok" /\ Contains(b, c) = "ok" => Contains(a, c) = "ok"
View == <<sp, conv>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<sp', conv'>>])>>)
=============================================================================
