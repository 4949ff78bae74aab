------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Evaluation as a function.  Every material is an uninterpreted function   *)
(* of the spectral position: the value at an element is the symbol          *)
(* <<object, version, quantity, position>>, independent of the vector it is *)
(* part of, of the unit and container used, and of everything that happened *)
(* before.  Only two operations create a new version, of their own object   *)
(* only.  Spectra, arrays and dictionaries owned by the caller are constant.*)
(***************************************************************************)
EXTENDS Units, TLC, Json
CONSTANTS Objs,       \* materials, built from caller-owned arrays and dicts
          Separable,  \* those with separate real and imaginary parts
          Bounded,    \* those that can be extrapolated
          SharedSpecs,\* caller-owned Spectrum objects: [id, pair, v]
          Vecs, QueryPairs, Containers, Rules, Exts
VARIABLES ver, extd, op
vars == <<ver, extd, op>>

\* permittivity and index of one version are different views, so distinct symbols
Symb(o, what, x) == <<o, ver[o], what, x>>
Result(o, what, v) == [i \in DOMAIN v |-> Symb(o, what, v[i])]

Init == /\ ver = [o \in Objs |-> 0] /\ extd = [o \in Objs |-> FALSE]
        /\ op = [n |-> "init"]

Pure == UNCHANGED <<ver, extd>>

EvalShared(o, s, what) ==
  /\ Pure
  /\ op' = [n |-> "evalshared", o |-> o, s |-> s.id, what |-> what, res |-> Result(o, what, s.v)]
\* containers: float, array, list, tuple; "tiled": an array repeating the vector many times;
\* "reused": one array of the caller, refilled for every query; "inplace": a spectrum that
\* was made in another unit and converted in place.  The symbols do not depend on it.
Form(v, q, c) ==
  CASE c = "float" -> Len(v) = 1
    [] c \in {"list", "tuple"} -> q[1] = "wavelength"
    [] c \in {"tiled", "reused", "inplace"} -> Len(v) > 2 /\ q[1] # "frequency"
    [] OTHER -> TRUE
Eval(o, v, q, c, what) ==
  /\ Pure
  /\ Form(v, q, c)
  /\ op' = [n |-> "eval", o |-> o, v |-> v, q |-> q, c |-> c, what |-> what, res |-> Result(o, what, v)]
Mix(rule, o1, o2, s) ==
  /\ Pure
  /\ op' = [n |-> "mix", rule |-> rule, o1 |-> o1, o2 |-> o2, s |-> s.id]
Look(o, how) == /\ Pure /\ op' = [n |-> how, o |-> o]
Compare(o1, o2) == /\ Pure /\ op' = [n |-> "compare", o1 |-> o1, o2 |-> o2]
\* what the materials were made of, and every spectrum handed over since, still belongs to the
\* caller, who overwrites all of it: no material may notice
Refill == /\ Pure /\ op' = [n |-> "refill"]
\* zeroes the imaginary part of this object: a new version of it, unless complex
Remove(o) ==
  /\ UNCHANGED extd
  /\ ver[o] < 2
  /\ ver' = IF o \in Separable THEN [ver EXCEPT ![o] = @ + 1] ELSE ver
  /\ op' = [n |-> "remove", o |-> o]
\* extends the range; values at the positions used here (all inside) are unchanged
Extrapolate(o, s) ==
  /\ o \in Bounded
  /\ ~extd[o]
  /\ extd' = [extd EXCEPT ![o] = TRUE] /\ UNCHANGED ver
  /\ op' = [n |-> "extrapolate", o |-> o, s |-> s]

Next ==
  \/ Refill
  \/ \E o \in Objs :
    \/ \E s \in SharedSpecs, w \in {"nk", "eps"} : EvalShared(o, s, w)
    \/ \E v \in Vecs, q \in QueryPairs, c \in Containers, w \in {"nk", "eps"} : Eval(o, v, q, c, w)
    \/ \E o2 \in Objs, r \in Rules, s \in SharedSpecs : Mix(r, o, o2, s)
    \/ \E h \in {"range", "sample", "plot", "write"} : Look(o, h)
    \/ \E o2 \in Objs : Compare(o, o2)
    \/ Remove(o)
    \/ \E s \in Exts : Extrapolate(o, s)
Spec == Init /\ [][Next]_vars

\* non-interference: an operation touches at most the version of its own object
NonInterference == [][\A o \in Objs : (ver'[o] # ver[o] \/ extd'[o] # extd[o]) => op'.o = o]_vars
\* elementwise: equal positions give equal symbols
Elementwise == (op.n = "eval") => \A i, j \in DOMAIN op.v : op.v[i] = op.v[j] <=> op.res[i] = op.res[j]
View == <<ver, extd>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<ver', extd'>>])>>)
=============================================================================
