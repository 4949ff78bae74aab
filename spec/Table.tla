-------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* Interpolation of tabulated data.  Abscissae are integers ("ticks" of the *)
(* table's own unit); ordinates are symbols y1..yn per row (in ascending    *)
(* abscissa order), so an expected value is a formal combination of them    *)
(* with exact rational weights.                                             *)
(***************************************************************************)
EXTENDS Units, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Grids,      \* ascending sequences of ticks
          RowOrders,  \* how the rows are arranged when handed over
          Sources,    \* constructor used
          Orders,     \* interpolation orders
          TablePairs, QueryPairs,
          Den         \* queries are at multiples of 1/Den of a tick

VARIABLES tab, op
vars == <<tab, op>>
None == <<>>
T == tab[1]
G == T.grid
N == Len(G)

\* row arrangement: position i of the handed-over table holds row Arrange[i]
Arrange(o, n) ==
  [i \in 1..n |->
     CASE o = "asc" -> i
       [] o = "desc" -> n + 1 - i
       [] o = "rot" -> (i % n) + 1
       [] o = "swap" -> IF i = 1 THEN n ELSE IF i = n THEN 1 ELSE i
       [] o = "evenodd" -> IF 2*i <= n THEN 2*i ELSE 2*(i - (n \div 2)) - 1]

ASSUME \A n \in 1..8 : \A o \in {"asc", "desc", "rot", "swap", "evenodd"} :
   {Arrange(o, n)[i] : i \in 1..n} = 1..n

Init == tab = None /\ op = [n |-> "init"]

\* data: "free" = arbitrary ordinates, "poly" = sampled from a polynomial of degree = order
Build(g, ro, src, ord, p, data) ==
  /\ tab = None
  /\ Len(g) >= ord + 1                       \* a spline of this order exists
  /\ (data = "poly" => ord >= 1)
  /\ (src = "Interpolation" => Len(g) > 1)
  /\ tab' = << [grid |-> g, ord |-> ord, pair |-> p, data |-> data] >>
  /\ op' = [n |-> "build", grid |-> g, arrange |-> Arrange(ro, Len(g)), src |-> src,
            ord |-> ord, pair |-> p, data |-> data]

\* the interval containing position x/Den: index i with G[i] <= x/Den <= G[i+1]
Seg(x) == CHOOSE i \in 1..(N - 1) : G[i] * Den <= x /\ x <= G[i + 1] * Den
IsKnot(x) == \E i \in 1..N : G[i] * Den = x
Knot(x) == CHOOSE i \in 1..N : G[i] * Den = x

Inside(x) == G[1] * Den <= x /\ x <= G[N] * Den

\* expected value at x: knot value, linear combination, polynomial, or unspecified
Expected(x) ==
  IF IsKnot(x) THEN [k |-> "knot", i |-> Knot(x)]
  ELSE IF T.data = "poly" THEN [k |-> "poly"]
  ELSE IF T.ord = 1
    THEN LET i == Seg(x) IN [k |-> "lin", i |-> i, num |-> x - G[i] * Den, den |-> (G[i + 1] - G[i]) * Den]
  ELSE IF T.ord = 0 THEN [k |-> "knot", i |-> Seg(x)]
  ELSE [k |-> "any"]

\* positions: knots, near knots, interior fractions
Xs == UNION {{G[i] * Den, G[i] * Den + 1, G[i + 1] * Den - 1, G[i] * Den + ((G[i + 1] - G[i]) * Den) \div 3,
              G[i] * Den + ((G[i + 1] - G[i]) * Den) \div 2, G[i + 1] * Den} : i \in 1..(N - 1)}

\* cross-unit queries exactly on the outer knots are left to the range property
Query(x, q) ==
  /\ tab # None /\ UNCHANGED tab
  /\ (q # T.pair => x # G[1] * Den /\ x # G[N] * Den)
  /\ (q # T.pair /\ T.ord = 0 => ~IsKnot(x))     \* a jump: rounding decides
  /\ op' = [n |-> "query", x |-> x, den |-> Den, q |-> q, exp |-> Expected(x)]

\* a query for all positions at once, in a scrambled order
QueryAll(q) ==
  /\ tab # None /\ N > 1 /\ UNCHANGED tab
  /\ LET S == {x \in Xs : q = T.pair \/ (x # G[1]*Den /\ x # G[N]*Den /\ (T.ord = 0 => ~IsKnot(x)))}
         asc == SetToSortSeq(S, LAMBDA a, b : (a * 7919) % 1009 < (b * 7919) % 1009 \/ ((a * 7919) % 1009 = (b * 7919) % 1009 /\ a < b))
     IN op' = [n |-> "queryall", xs |-> asc, den |-> Den, q |-> q, exp |-> [i \in DOMAIN asc |-> Expected(asc[i])]]

\* one-row tables
QueryOne(d, q) ==
  /\ tab # None /\ N = 1 /\ UNCHANGED tab
  /\ (q # T.pair => d # 0)
  /\ op' = [n |-> "queryone", d |-> d, q |-> q, res |-> IF d = 0 THEN "ok" ELSE "ValueError"]

Next ==
  \/ \E g \in Grids, ro \in RowOrders, s \in Sources, o \in Orders, p \in TablePairs, d \in {"free", "poly"} :
        Build(g, ro, s, o, p, d)
  \/ tab # None /\ \E q \in QueryPairs : (N > 1 /\ \E x \in Xs : Query(x, q)) \/ QueryAll(q)
                     \/ \E d \in {-1, 0, 1} : QueryOne(d, q)

Spec == Init /\ [][Next]_vars
\* the weights are a convex combination, exact at the knots
Convex == (op.n = "query" /\ op.exp.k = "lin") => 0 < op.exp.num /\ op.exp.num < op.exp.den
View == tab
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> tab'])>>)
=============================================================================
