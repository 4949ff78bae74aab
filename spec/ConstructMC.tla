----------------------------- MODULE ConstructMC -----------------------------
EXTENDS Construct
A(src, st, un, io) == [src |-> src, st |-> st, un |-> un, io |-> io]
Plain(src) == A(src, "absent", "absent", "absent")
\* every subset of the ten sources, the rest absent or None
F1 == {Plain(f) : f \in [Sources -> {"absent", "ok"}]}
F2 == {Plain(f) : f \in [Sources -> {"none", "ok"}]}
\* one source of every class under every combination of the options
One(s, c) == [t \in Sources |-> IF t = s THEN c ELSE "absent"]
Opt == {"absent", "none", "type"}
F3 == {A(One(s, c), st, un, io) : s \in Sources, c \in {"ok", "type"}, st \in Opt \cup {"wavelength", "energy"},
                                  un \in Opt \cup {"nm", "um", "ev"}, io \in Opt \cup {"o1", "o2", "o3"}}
F4 == {A(One(s, "shape"), st, un, io) : s \in Tables, st \in {"absent", "wavelength", "type"}, un \in {"absent", "nm"}, io \in {"absent", "o2", "type"}}
\* two sources, one of them of the wrong type or shape
Two(s, c, t, d) == [x \in Sources |-> IF x = s THEN c ELSE IF x = t THEN d ELSE "none"]
F5 == {Plain(Two(s, "ok", t, d)) : s \in Sources, t \in Sources, d \in {"type"}}
All == {a \in F1 \cup F2 \cup F3 \cup F4 \cup F5 : TRUE}
=============================================================================
