------------------------------ MODULE Spectrum ------------------------------
(***************************************************************************)
(* The life of a Spectrum object: construction from a container of numbers, *)
(* conversions in place or not, rejected requests, labels.  The abstract    *)
(* state is the physical content (the vector the user gave, with the pair   *)
(* it was given in) and the pair it is currently expressed in.              *)
(***************************************************************************)
EXTENDS Units, TLC, Json

CONSTANTS CreateTypes,   \* type names tried at construction
          CreateUnits,   \* unit names tried at construction
          ConvTypes, ConvUnits,    \* names tried at conversion
          Styles,        \* letter-case styles tried
          Vectors,       \* [kind |-> container, v |-> sequence of tokens]
          OnlyValid,     \* TRUE: only requests that must succeed
          Uses           \* what the caller does with converted values: "keep", "overwrite"

VARIABLES obj,   \* <<>> or << [given pair, vector, current pair] >>
          op     \* last operation with its expected observation

vars == <<obj, op>>

NoObj == <<>>
Have == obj # NoObj
O == obj[1]

Content(o, q) == [i \in DOMAIN o.vec.v |-> Convert(o.orig, q, Given(o.vec.v[i]))]

Observation(o) == [pair |-> o.cur, values |-> Content(o, o.cur),
                   label |-> <<o.cur[1], SymbolOf(o.cur[2])>>]

Init == obj = NoObj /\ op = [n |-> "init"]

Create(t, u, style, vec) ==
  /\ ~Have
  /\ LET p == Resolve(t, u) IN
     IF p = NoPair
     THEN /\ obj' = obj
          /\ op' = [n |-> "create", t |-> t, u |-> u, style |-> style, vec |-> vec, res |-> "ValueError"]
     ELSE /\ obj' = << [orig |-> p, vec |-> vec, cur |-> p] >>
          /\ op' = [n |-> "create", t |-> t, u |-> u, style |-> style, vec |-> vec, res |-> "ok",
                    pair |-> p, obs |-> Observation([orig |-> p, vec |-> vec, cur |-> p])]

\* conversion that returns values and leaves the object alone; the values belong to the caller,
\* who may overwrite them afterwards (use = "overwrite") without any effect on the object
ConvertTo(t, u, style, use) ==
  /\ Have
  /\ UNCHANGED obj
  /\ LET p == Resolve(t, u) IN
     op' = IF p = NoPair
           THEN [n |-> "convert", t |-> t, u |-> u, style |-> style, use |-> use, res |-> "ValueError", obs |-> Observation(O)]
           ELSE [n |-> "convert", t |-> t, u |-> u, style |-> style, use |-> use, res |-> "ok",
                 own |-> (p = O.cur), pair |-> p, values |-> Content(O, p), obs |-> Observation(O)]

\* in place: the object is now expressed in the new pair, physically unchanged
ConvertInPlace(t, u, style) ==
  /\ Have
  /\ LET p == Resolve(t, u) IN
     IF p = NoPair
     THEN /\ UNCHANGED obj
          /\ op' = [n |-> "inplace", t |-> t, u |-> u, style |-> style, res |-> "ValueError", obs |-> Observation(O)]
     ELSE /\ obj' = << [O EXCEPT !.cur = p] >>
          /\ op' = [n |-> "inplace", t |-> t, u |-> u, style |-> style, res |-> "ok",
                    obs |-> Observation([O EXCEPT !.cur = p])]

\* the container of numbers still belongs to the caller, who may fill it anew
Refill ==
  /\ Have /\ "overwrite" \in Uses
  /\ UNCHANGED obj
  /\ op' = [n |-> "refill", t |-> "", u |-> "", obs |-> Observation(O)]

Allowed(t, u) == OnlyValid => Resolve(t, u) # NoPair

Next ==
  \/ \E t \in CreateTypes, u \in CreateUnits, s \in Styles, v \in Vectors :
        Allowed(t, u) /\ Create(t, u, s, v)
  \/ \E t \in ConvTypes, u \in ConvUnits, s \in Styles :
        Allowed(t, u) /\ ((\E use \in Uses : ConvertTo(t, u, s, use)) \/ ConvertInPlace(t, u, s))
  \/ Refill

Spec == Init /\ [][Next]_vars

TypeOK == Have => O.orig \in Pairs /\ O.cur \in Pairs
\* physics never changes, whatever happens to the object
Physical(o) == [i \in DOMAIN o.vec.v |-> ToStd(o.cur, Content(o, o.cur)[i])]
Conserved == Have => Physical(O) = [i \in DOMAIN O.vec.v |-> ToStd(O.orig, Given(O.vec.v[i]))]
NeverRedefined == [][Have => (obj' # NoObj /\ obj'[1].orig = O.orig /\ obj'[1].vec = O.vec)]_vars
RejectionKeeps == [][(op'.n \in {"inplace", "convert"} /\ op'.res = "ValueError") => obj' = obj]_vars

View == obj
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> obj'])>>)
=============================================================================
