-------------------------------- MODULE Expr --------------------------------
(* Formal expressions.  TLC manipulates them as values; the replay harness   *)
(* evaluates them with concrete numbers for the free symbols.                *)
EXTENDS Integers, Sequences
I(n)      == <<"int", n>>
Rat(n, d) == <<"rat", n, d>>
Par(i)    == <<"par", i>>            \* i-th coefficient, counted from 1
Sym(s)    == <<"sym", s>>
Add(a, b) == <<"add", a, b>>
Sub(a, b) == <<"sub", a, b>>
Mlt(a, b) == <<"mul", a, b>>
Div(a, b) == <<"div", a, b>>
Pow(a, b) == <<"pow", a, b>>
Sq(a)     == Mlt(a, a)
Sqrt(a)   == <<"sqrt", a>>
Im(a)     == <<"mul", <<"imu">>, a>>  \* imaginary unit times a
\* 0 where a < b, e elsewhere
ZeroBelow(a, b, e) == <<"zerobelow", a, b, e>>
\* principal-value Kramers-Kronig transform of e (an odd absorption spectrum in
\* symbol s that vanishes below `low`), taken at the current value of s
KK(e, s, low) == <<"kk", e, s, low>>

RECURSIVE Sum(_, _, _)
Sum(T(_), i, n) == IF i > n THEN I(0) ELSE Add(T(i), Sum(T, i + 1, n))
=============================================================================
