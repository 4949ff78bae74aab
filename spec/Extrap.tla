-------------------------------- MODULE Extrap --------------------------------
(***************************************************************************)
(* Histories of extrapolate() calls on a material.  Positions are ticks on  *)
(* the axis of the material's own unit.  Each part is constant or a         *)
(* polynomial of degree `deg` known on the base range lo..hi; plo..phi is   *)
(* the range over which the specification still knows the polynomial.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Starts,     \* set of [re, im, cx]
          Calls,      \* sequences of ticks handed to extrapolate
          Orders, CallPairs, Forms, Ticks, QueryPairs, MaxHist
VARIABLES m, hist, op
vars == <<m, hist, op>>
None == [cx |-> "none"]
\* alo, ahi: sum of the spline orders used on that side, which bounds the round off
\* amplification of repeated extrapolation (about 1000^sum)
Const == [k |-> "const", deg |-> 0, lo |-> 0, hi |-> 0, plo |-> 0, phi |-> 0, alo |-> 0, ahi |-> 0, blo |-> 0, bhi |-> 0]
Part(k, d, lo, hi) == [k |-> k, deg |-> d, lo |-> lo, hi |-> hi, plo |-> lo, phi |-> hi, alo |-> 0, ahi |-> 0, blo |-> lo, bhi |-> hi]
MaxAmp == 4
Moving(mm) == {p \in {mm.re, mm.im} : p.k # "const"}

Inside(p, x) == p.lo <= x /\ x <= p.hi
\* two values on the same side are outside the property
SameSide(p, v) == Len(v) = 2 /\ ((v[1] < p.lo /\ v[2] < p.lo) \/ (v[1] > p.hi /\ v[2] > p.hi))
Ok(mm, v) == Len(v) <= 2 /\ \A p \in Moving(mm) : \A i \in DOMAIN v : ~Inside(p, v[i])
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Lowest(v) == IF Len(v) = 1 THEN v[1] ELSE Min2(v[1], v[2])
Highest(v) == IF Len(v) = 1 THEN v[1] ELSE Max2(v[1], v[2])
\* the polynomial is continued if it was known over the whole range and the order suffices
Extend(p, v, ord) ==
  IF p.k = "const" THEN p
  ELSE LET lo == Min2(p.lo, Lowest(v)) hi == Max2(p.hi, Highest(v))
           alo == IF lo < p.lo THEN p.alo + ord ELSE p.alo
           ahi == IF hi > p.hi THEN p.ahi + ord ELSE p.ahi
           contlo == p.plo = p.lo /\ ord >= p.deg /\ alo <= MaxAmp
           conthi == p.phi = p.hi /\ ord >= p.deg /\ ahi <= MaxAmp
       IN [p EXCEPT !.lo = lo, !.hi = hi, !.plo = IF contlo THEN lo ELSE @, !.phi = IF conthi THEN hi ELSE @,
                    !.alo = alo, !.ahi = ahi]
Outcome(mm, v) == IF mm.cx = "complex" THEN "NotImplementedError" ELSE IF Ok(mm, v) THEN "ok" ELSE "ValueError"

Init == m = None /\ hist = 0 /\ op = [n |-> "init"]
Construct(s) ==
  /\ m.cx = "none" /\ m' = s /\ UNCHANGED hist
  /\ op' = [n |-> "construct", re |-> s.re, im |-> s.im, cx |-> s.cx]
Extrapolate(v, ord, q, form) ==
  /\ m.cx # "none" /\ hist < MaxHist
  /\ \A p \in Moving(m) : ~SameSide(p, v)
  \* a bound given in another unit is only equal to it up to rounding
  /\ (hist > 0 \/ q # <<"own", "own">>) => \A p \in Moving(m) : \A i \in DOMAIN v : v[i] \notin {p.lo, p.hi}
  /\ (Moving(m) = {} => Len(v) <= 2)
  /\ (form = "float" => Len(v) = 1)
  /\ hist' = hist + 1
  /\ m' = IF Outcome(m, v) = "ok" /\ m.cx = "sep"
          THEN [m EXCEPT !.re = Extend(@, v, ord), !.im = Extend(@, v, ord)] ELSE m
  /\ op' = [n |-> "extrapolate", v |-> v, ord |-> ord, q |-> q, form |-> form, res |-> Outcome(m, v)]

\* what is known of a part's value at tick x
Known(p, x) == IF p.k = "const" THEN "const" ELSE IF p.plo <= x /\ x <= p.phi THEN "poly" ELSE "any"
\* round off amplification that applies at tick x: none inside the original range
Amp(p, x) == IF p.k = "const" THEN 0 ELSE IF x < p.blo THEN Min2(p.alo, MaxAmp) ELSE IF x > p.bhi THEN Min2(p.ahi, MaxAmp) ELSE 0
Valid(mm, x) == \A p \in Moving(mm) : Inside(p, x)
Query(x, q) ==
  /\ m.cx = "sep"
  /\ UNCHANGED <<m, hist>>
  /\ op' = [n |-> "query", x |-> x, q |-> q, res |-> IF Valid(m, x) THEN "ok" ELSE "ValueError",
            re |-> Known(m.re, x), im |-> Known(m.im, x),
            are |-> Amp(m.re, x), aim |-> Amp(m.im, x)]
\* the range the material reports, in ticks
Lo(mm) == CHOOSE l \in {p.lo : p \in Moving(mm)} : \A p \in Moving(mm) : l >= p.lo
Hi(mm) == CHOOSE h \in {p.hi : p \in Moving(mm)} : \A p \in Moving(mm) : h <= p.hi
Sweep ==
  /\ m.cx # "none" /\ UNCHANGED <<m, hist>>
  /\ op' = [n |-> "sweep", unb |-> m.cx = "complex" \/ Moving(m) = {},
            cx |-> m.cx, lo |-> IF m.cx = "complex" \/ Moving(m) = {} THEN 0 ELSE Lo(m),
            hi |-> IF m.cx = "complex" \/ Moving(m) = {} THEN 0 ELSE Hi(m)]

Next ==
  \/ \E s \in Starts : Construct(s)
  \/ \E v \in Calls, ord \in Orders, q \in CallPairs, f \in Forms : Extrapolate(v, ord, q, f)
  \/ \E x \in Ticks, q \in QueryPairs : Query(x, q)
  \/ Sweep
Spec == Init /\ [][Next]_vars

\* ranges only grow, the known polynomial range never shrinks, failures change nothing
Monotone == [][(op'.n = "extrapolate") =>
   \A f \in {"re", "im"} : m'[f].lo <= m[f].lo /\ m'[f].hi >= m[f].hi /\ m'[f].plo <= m[f].plo /\ m'[f].phi >= m[f].phi
                           /\ m'[f].k = m[f].k]_vars
Atomic == [][(op'.n = "extrapolate" /\ op'.res # "ok") => m' = m]_vars
\* exactly up to the requested values
Exact == [][(op'.n = "extrapolate" /\ op'.res = "ok" /\ m.cx = "sep") =>
   \A p \in Moving(m') : \A i \in DOMAIN op'.v : op'.v[i] \in {p.lo, p.hi}]_vars
View == <<m, hist>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<m', hist'>>])>>)
=============================================================================
