------------------------------- MODULE EqualMC -------------------------------
EXTENDS Equal
O(o, name, file) == [o |-> o, name |-> name, file |-> file]
All == {O("fixed_nk", "nk", FALSE), O("fixed_eps", "eps", FALSE), O("fixed_n", "nk", FALSE), O("tab_nk", "nk", FALSE), O("tab_eps", "eps", FALSE),
        O("tab_alpha", "nk", FALSE), O("model_n", "nk", FALSE), O("model_eps", "eps", FALSE),
        O("text", "nk", TRUE), O("yaml", "nk", TRUE), O("yaml_eps", "eps", TRUE), O("written", "nk", TRUE),
        O("simple", "eps", FALSE), O("bruggeman", "eps", FALSE), O("garnett", "eps", FALSE)}
Few == {x \in All : x.o \in {"tab_nk", "text", "yaml"}}
Two == {x \in All : x.o \in {"yaml", "simple", "model_eps", "yaml_eps"}}
=============================================================================
