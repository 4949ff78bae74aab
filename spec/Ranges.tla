------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Valid ranges of spectral data and of materials built from them.          *)
(*                                                                          *)
(* Spectral positions are wavelengths in femtometres (integers), whatever   *)
(* unit they are later written in.  A part of a material is bounded by two  *)
(* positions and owns a type/unit; a bound is exact when it was given in    *)
(* that unit.  A query position on a bound that had to be converted between *)
(* units is left open ("either"); strictly inside must be accepted,         *)
(* strictly outside (by at least Near) must be rejected.                    *)
(***************************************************************************)
EXTENDS Units, TLC, Json

CONSTANTS RealParts,     \* parts a material may be constructed with (real or complex)
          ImagParts,     \* parts the imaginary side may be given
          QueryPairs,    \* units used in queries
          Near, Far,     \* distances from a bound
          ExtValues,     \* positions used by Extrapolate
          ExtPairs,
          MaxExt,        \* bound on extrapolations
          WithHistory,   \* TRUE: mutating actions enabled
          VecShapes      \* query vector templates

VARIABLES mat, exts, op
vars == <<mat, exts, op>>

UNB == 2147483647      \* no upper bound
Unbounded(p) == p.lo = 0 /\ p.hi = UNB
NEG == -500000000      \* a negative value
NAN == -1              \* not a number: never decides a verdict by itself, never hides an outlier
Const == [k |-> "const", m |-> "fixed_n", p |-> <<"wavelength", "m">>, lo |-> 0, hi |-> UNB, loX |-> TRUE, hiX |-> TRUE]
None == <<>>
Have == mat # None
M == mat[1]

Parts(m) == IF m.cplx THEN {m.real} ELSE {m.real, m.imag}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Lo(m) == MaxS({p.lo : p \in Parts(m)})
Hi(m) == MinS({p.hi : p \in Parts(m)})

\* verdict of one part for one position written in unit pair q
PartVerdict(p, x, q) ==
  IF x = NAN THEN "either"
  ELSE IF x < 0 THEN "out"               \* nothing is defined there, constants included
  ELSE IF Unbounded(p) THEN "in"
  ELSE IF x < p.lo \/ x > p.hi THEN "out"
  ELSE IF x = p.lo THEN IF p.loX /\ q = p.p THEN "in" ELSE "either"
  ELSE IF x = p.hi THEN IF p.hiX /\ q = p.p THEN "in" ELSE "either"
  ELSE "in"

Combine(S) == IF "out" \in S THEN "ValueError" ELSE IF "either" \in S THEN "either" ELSE "ok"
Verdict(m, vec, q) == Combine({PartVerdict(p, vec[i], q) : p \in Parts(m), i \in DOMAIN vec})

\* interesting positions: around the bounds of every part, and the middle
Bounds(m) == UNION {{p.lo, p.hi} : p \in {pp \in Parts(m) : ~Unbounded(pp)}}
Positions(m) ==
  IF Bounds(m) = {} THEN {0, 1000000, 500000000, 2000000000, UNB, NEG}
  ELSE UNION {{b - Far, b - Near, b, b + Near, b + Far} : b \in Bounds(m)}
       \cup {Lo(m) + (Hi(m) - Lo(m)) \div 2, 0, UNB, NEG}    \* 0: infinite energy; UNB: infinite wavelength
Inside(m) == IF Bounds(m) = {} THEN 500000000 ELSE Lo(m) + (Hi(m) - Lo(m)) \div 2
Inside2(m) == IF Bounds(m) = {} THEN 600000000 ELSE Lo(m) + (Hi(m) - Lo(m)) \div 3

\* query vectors: the probed position x alone or hidden among inside positions
VecOf(m, x, shape) ==
  CASE shape = "scalar" -> <<x>> [] shape = "one" -> <<x>>
    [] shape = "first" -> <<x, Inside(m), Inside2(m)>>
    [] shape = "mid"   -> <<Inside(m), x, Inside2(m)>>
    [] shape = "last"  -> <<Inside2(m), Inside(m), x>>
    [] shape = "nan"   -> <<NAN, x, Inside(m)>>
    [] shape = "huge"  -> <<x, Inside(m), Inside2(m)>>   \* and thousands of positions between the last two
    [] shape = "long"  -> [i \in 1..25 |-> IF i = 17 THEN x ELSE IF i % 2 = 0 THEN Inside(m) ELSE Inside2(m)]

Init == mat = None /\ exts = 0 /\ op = [n |-> "init"]

Construct(rp, ip, cplx) ==
  /\ ~Have /\ exts' = 0
  /\ LET \* tables with three columns give both parts the same range
         both == rp.k = "table" /\ rp.m # "tabulated_n"
         m == [real |-> rp, imag |-> IF ip = Const /\ both THEN rp ELSE ip, cplx |-> cplx,
               def |-> IF Unbounded(rp) THEN <<"wavelength", "nm">> ELSE rp.p]
     IN /\ Lo(m) < Hi(m)
        /\ mat' = <<m>>
        /\ op' = [n |-> "construct", m |-> m, lo |-> Lo(m), hi |-> Hi(m)]

Query(x, shape, q, what) ==
  /\ Have /\ UNCHANGED <<mat, exts>>
  /\ LET v == VecOf(M, x, shape) IN
     op' = [n |-> "query", vec |-> v, scalar |-> shape = "scalar", fill |-> shape = "huge", q |-> q, what |-> what, res |-> Verdict(M, v, q)]

Report == /\ Have /\ UNCHANGED <<mat, exts>>
          /\ op' = [n |-> "report", lo |-> Lo(M), hi |-> Hi(M), def |-> M.def,
                    unb |-> Bounds(M) = {}, real |-> M.real, imag |-> M.imag, cplx |-> M.cplx]

RemoveAbsorption ==
  /\ WithHistory /\ Have /\ UNCHANGED exts
  /\ mat' = << [M EXCEPT !.imag = Const] >>
  /\ op' = [n |-> "remove", lo |-> Lo(mat'[1]), hi |-> Hi(mat'[1])]

Replace(side, p) ==
  /\ WithHistory /\ Have /\ ~M.cplx /\ UNCHANGED exts
  /\ LET m == IF side = "imag" THEN [M EXCEPT !.imag = p] ELSE [M EXCEPT !.real = p] IN
     /\ Lo(m) < Hi(m)
     /\ mat' = <<m>>
     /\ op' = [n |-> "replace", side |-> side, part |-> p, lo |-> Lo(m), hi |-> Hi(m)]

\* extend one part by the values in order; <<>> if some value does not lie outside
RECURSIVE Extend(_, _, _, _)
Extend(p, vals, i, q) ==
  IF i > Len(vals) THEN <<p>>
  ELSE IF vals[i] < p.lo THEN Extend([p EXCEPT !.lo = vals[i], !.loX = (q = p.p), !.k = "ext"], vals, i + 1, q)
  ELSE IF vals[i] > p.hi THEN Extend([p EXCEPT !.hi = vals[i], !.hiX = (q = p.p), !.k = "ext"], vals, i + 1, q)
  ELSE <<>>

Extrapolate(vals, q) ==
  /\ WithHistory /\ Have /\ exts < MaxExt
  /\ LET ex(p) == IF p.k \in {"const", "constr"} THEN <<p>>   \* constants are not extrapolated
                   ELSE Extend(p, vals, 1, q) IN
     \* a value exactly on a bound in another unit is not decided here
     /\ \A p \in Parts(M) : p.k \notin {"const", "constr"} => \A i \in DOMAIN vals : vals[i] # p.lo /\ vals[i] # p.hi
     /\ IF M.cplx
        THEN /\ UNCHANGED <<mat, exts>>
             /\ op' = [n |-> "extrapolate", vals |-> vals, q |-> q, res |-> "NotImplementedError", lo |-> Lo(M), hi |-> Hi(M)]
        ELSE IF \E p \in Parts(M) : ex(p) = <<>>
        THEN /\ UNCHANGED <<mat, exts>>
             /\ op' = [n |-> "extrapolate", vals |-> vals, q |-> q, res |-> "ValueError", lo |-> Lo(M), hi |-> Hi(M)]
        ELSE /\ exts' = exts + 1
             /\ mat' = << [M EXCEPT !.real = ex(M.real)[1], !.imag = ex(M.imag)[1]] >>
             /\ op' = [n |-> "extrapolate", vals |-> vals, q |-> q, res |-> "ok", lo |-> Lo(mat'[1]), hi |-> Hi(mat'[1])]

Next ==
  \/ \E rp \in RealParts, ip \in ImagParts, c \in BOOLEAN :
        /\ c = (rp.k = "cmodel")
        /\ (c => ip = Const)
        /\ Construct(rp, ip, c)
  \/ /\ Have
     /\ \E q \in QueryPairs, s \in VecShapes : \E x \in Positions(M) :
          \E w \in {"nk", "eps"} : Query(x, s, q, w)
  \/ Report \/ RemoveAbsorption
  \/ \E p \in ImagParts, side \in {"real", "imag"} : Replace(side, p)
  \/ \E vals \in ExtValues, q \in ExtPairs : Extrapolate(vals, q)

Spec == Init /\ [][Next]_vars

\* laws of the range algebra
NonEmpty == Have => Lo(M) < Hi(M)
ReportedIsEvaluable == Have /\ Bounds(M) # {} =>
   \A q \in QueryPairs : /\ Verdict(M, <<Inside(M)>>, q) = "ok"
                         /\ Verdict(M, <<Lo(M)>>, q) # "ValueError"
                         /\ Verdict(M, <<Hi(M)>>, q) # "ValueError"
                         /\ Verdict(M, <<Lo(M) - Near>>, q) = "ValueError"
                         /\ Verdict(M, <<Hi(M) + Near>>, q) = "ValueError"
\* an outlier is rejected wherever it hides
PositionIrrelevant == Have => \A q \in QueryPairs : \A x \in Positions(M) :
   /\ Verdict(M, VecOf(M, x, "first"), q) = Verdict(M, VecOf(M, x, "last"), q)
   /\ Verdict(M, VecOf(M, x, "first"), q) = "ValueError" => Verdict(M, VecOf(M, x, "nan"), q) = "ValueError"
ExtrapolationGrows == [][op'.n = "extrapolate" => Lo(mat'[1]) <= Lo(M) /\ Hi(mat'[1]) >= Hi(M)]_vars
FailureKeeps == [][(op'.n = "extrapolate" /\ op'.res # "ok") => mat' = mat]_vars

View == <<mat, exts>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<mat', exts'>>])>>)
=============================================================================
