-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* A material as a pair of views (complex refractive index, permittivity)   *)
(* of one set of spectral data.  The data is a real and an imaginary part,  *)
(* each a symbolic function of the spectral position, or one complex        *)
(* function; `name` says which of the two views it is.                      *)
(***************************************************************************)
EXTENDS Expr, FiniteSets, TLC, Json
CONSTANTS Sources,      \* set of [src, name, re, im, cx]: what the constructor is given
          Replacements, \* tags of SpectralData objects to put into a part
          Queries,      \* ways of asking: [c |-> container, q |-> unit]
          MaxHist
VARIABLES m, hist, op
vars == <<m, hist, op>>

None == [src |-> "none"]
\* the parts: a column of the source, a number zero, an absorption column or a replacement
Zero == <<"zero">>
Given(c) == <<"given", c>>
Alpha(c) == <<"alpha", c>>

\* value of a part at the position the harness binds the symbols to
PartExpr(p) ==
  CASE p[1] = "zero"  -> I(0)
    [] p[1] = "given" -> Sym(p[2])
    [] p[1] = "repl"  -> Sym(p[2])
    \* k = alpha * lambda / (4 pi), lambda in cm and alpha in 1/cm
    [] p[1] = "alpha" -> Div(Mlt(Sym(p[2]), Sym("lambda_cm")), Mlt(I(4), Sym("pi")))

Data(mm) == IF mm.cx # <<>> THEN PartExpr(mm.cx) ELSE Add(PartExpr(mm.re), Im(PartExpr(mm.im)))

\* what a query must satisfy: the value itself, or its square and the branch
Answer(mm, what) ==
  IF mm.name = what THEN [k |-> "value", e |-> Data(mm)]
  ELSE IF what = "eps" THEN [k |-> "value", e |-> Sq(Data(mm))]
  ELSE [k |-> "root", e |-> Data(mm)]       \* the square root with Re >= 0

Init == m = None /\ hist = 0 /\ op = [n |-> "init"]

Construct(s) ==
  /\ m.src = "none"
  /\ m' = s
  /\ op' = [n |-> "construct", src |-> s.src]
  /\ UNCHANGED hist

Remove ==
  /\ m.src # "none" /\ hist < MaxHist
  /\ hist' = hist + 1
  /\ m' = IF m.cx # <<>> THEN m ELSE [m EXCEPT !.im = Zero]
  /\ op' = [n |-> "remove"]

Replace(part, tag) ==
  /\ m.src # "none" /\ m.cx = <<>> /\ hist < MaxHist
  /\ hist' = hist + 1
  /\ m' = IF part = "real" THEN [m EXCEPT !.re = <<"repl", tag>>] ELSE [m EXCEPT !.im = <<"repl", tag>>]
  /\ op' = [n |-> "replace", part |-> part, tag |-> tag]

Query(what, q) ==
  /\ m.src # "none"
  /\ UNCHANGED <<m, hist>>
  /\ op' = [n |-> "query", what |-> what, c |-> q.c, q |-> q.q, ans |-> Answer(m, what)]

Next ==
  \/ \E s \in Sources : Construct(s)
  \/ Remove
  \/ \E part \in {"real", "imag"}, tag \in Replacements : Replace(part, tag)
  \/ \E what \in {"nk", "eps"}, q \in Queries : Query(what, q)
Spec == Init /\ [][Next]_vars

\* the two views agree by construction of the specification
Consistent == m.src # "none" =>
  LET a == Answer(m, "nk") b == Answer(m, "eps") IN
  \/ a.k = "value" /\ b = [k |-> "value", e |-> Sq(a.e)]
  \/ a.k = "root"  /\ b = [k |-> "value", e |-> a.e]
\* removing absorption only ever changes the imaginary part
OnlyImag == [][op'.n = "remove" => /\ m'.name = m.name /\ m'.cx = m.cx
                                   /\ (m.cx = <<>> => m'.re = m.re /\ m'.im = Zero)]_vars
View == <<m, hist>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<m', hist'>>])>>)
=============================================================================
