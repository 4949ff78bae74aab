-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* Drawing a material.  The canvas is a set of axes that the caller made,   *)
(* spread over figures of which one is current; each axes object carries    *)
(* the sequence of curve pairs drawn on it.  A plot names a material, a     *)
(* quantity, optionally axes, optionally values, type and unit.             *)
(***************************************************************************)
EXTENDS Units, TLC, Json
CONSTANTS Mats,      \* [id, pair, unb, one]: own pair; unbounded; a single row
          Axs,       \* caller-owned axes: [id, fig]
          Figs, Vals, TypeArgs, UnitArgs, Whats, MaxPlots, MaxPure
VARIABLES cur,       \* the current figure
          drawn,     \* axes id -> number of curve pairs on it
          extra,     \* figure -> number of curve pairs on axes made by plotting
          pure,      \* materials whose absorption was removed
          op
vars == <<cur, drawn, extra, pure, op>>

Default == "default"
\* values: "none", or a container with the elements inside, one of them outside, or single
Inside(v)  == v \in {"float", "list", "tuple", "array", "desc", "one", "onelist", "npfloat"}
Single(v)  == v \in {"outscalar", "float", "one", "onelist", "npfloat"}
Outside(v) == v \in {"outlow", "outhigh", "outscalar"}

PairOf(m, t, u) == Resolve(IF t = Default THEN m.pair[1] ELSE t,
                           IF u = Default THEN m.pair[2] ELSE u)
Verdict(m, v, t, u) ==
  IF PairOf(m, t, u) = NoPair THEN "ValueError"
  ELSE IF Outside(v) /\ ~m.unb THEN "ValueError" ELSE "ok"

Labels(w) == IF w = "nk" THEN <<"n", "k">> ELSE <<"eps_r", "eps_i">>
\* what the pair of curves shows
Curve(m, w, v, t, u) ==
  [pair |-> PairOf(m, t, u), symbol |-> SymbolOf(PairOf(m, t, u)[2]), labels |-> Labels(w),
   styles |-> <<"-", "--">>, what |-> w, mat |-> m.id, pure |-> m.id \in pure,
   xs |-> IF v = "none" THEN "range" ELSE "given",
   flat |-> Single(v)]

Init == /\ cur \in Figs /\ drawn = [a \in {x.id : x \in Axs} |-> 0]
        /\ extra = [f \in Figs |-> 0] /\ pure = {} /\ op = [n |-> "init", cur |-> cur]

RECURSIVE SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN f[d] + SumF(f, D \ {d})
Total == SumF(drawn, DOMAIN drawn) + SumF(extra, DOMAIN extra)

Plot(m, w, a, v, t, u) ==
  /\ Total < MaxPlots
  /\ LET res == Verdict(m, v, t, u) IN
     /\ op' = [n |-> "plot", m |-> m.id, what |-> w, ax |-> a.id, v |-> v, t |-> t, u |-> u, res |-> res,
               curve |-> Curve(m, w, v, t, u)]
     /\ IF res = "ok" /\ a.id # "new"
        THEN drawn' = [drawn EXCEPT ![a.id] = @ + 1] /\ UNCHANGED <<extra, pure>> /\ cur' = a.fig
        ELSE IF res = "ok"
        THEN extra' = [extra EXCEPT ![cur] = @ + 1] /\ UNCHANGED <<drawn, pure, cur>>
        \* a rejected request draws nothing (and says nothing about the current figure)
        ELSE UNCHANGED <<cur, drawn, extra, pure>>
Select(f) == /\ cur' = f /\ f # cur /\ UNCHANGED <<drawn, extra, pure>> /\ op' = [n |-> "select", f |-> f]
Remove(m) == /\ Cardinality(pure) < MaxPure /\ m.id \notin pure /\ pure' = pure \cup {m.id} /\ UNCHANGED <<cur, drawn, extra>>
             /\ op' = [n |-> "remove", m |-> m.id]

New == [id |-> "new", fig |-> 0]
Next == \/ \E m \in Mats, w \in Whats, a \in Axs \cup {New}, v \in Vals, t \in TypeArgs, u \in UnitArgs : Plot(m, w, a, v, t, u)
        \/ \E f \in Figs : Select(f)
        \/ \E m \in Mats : Remove(m)
Spec == Init /\ [][Next]_vars

\* one plot adds one curve pair to one place; a rejected one adds none
OnePlace == [][Total' = Total + (IF op'.n = "plot" /\ op'.res = "ok" THEN 1 ELSE 0)]_vars
GivenAxes == [][\A x \in Axs : drawn'[x.id] # drawn[x.id] => op'.ax = x.id]_vars
Honest == (op.n = "plot" /\ op.res = "ok") => op.curve.pair \in Pairs
View == <<cur, drawn, extra, pure>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<cur', drawn', extra', pure'>>])>>)
=============================================================================
