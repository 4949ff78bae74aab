------------------------------- MODULE ViewsMC -------------------------------
EXTENDS Views
S(src, name, re, im) == [src |-> src, name |-> name, re |-> re, im |-> im, cx |-> <<>>]
X(src, name) == [src |-> src, name |-> name, re |-> Zero, im |-> Zero, cx |-> Given("z")]
SrcSet == {
  S("fixed_n", "nk", Given("a"), Zero),
  S("fixed_nk", "nk", Given("a"), Given("b")),
  S("fixed_eps_r", "eps", Given("a"), Zero),
  S("fixed_eps", "eps", Given("a"), Given("b")),
  S("tabulated_n", "nk", Given("a"), Zero),
  S("tabulated_nk", "nk", Given("a"), Given("b")),
  S("tabulated_n_alpha", "nk", Given("a"), Alpha("b")),
  S("tabulated_eps", "eps", Given("a"), Given("b")),
  S("onerow_nk", "nk", Given("a"), Given("b")),
  S("onerow_n_alpha", "nk", Given("a"), Alpha("b")),
  S("onerow_eps", "eps", Given("a"), Given("b")),
  S("model_n", "nk", Given("a"), Zero),
  X("model_eps", "eps"),
  S("file_n", "nk", Given("a"), Zero),
  S("file_k", "nk", Zero, Given("b")),
  S("file_nk", "nk", Given("a"), Given("b")),
  S("file_n_k", "nk", Given("a"), Given("b")),
  S("file_formula_k", "nk", Given("a"), Given("b")),
  S("file_eps", "eps", Given("a"), Given("b")),
  S("file_eps_r", "eps", Given("a"), Zero),
  S("file_eps_k", "eps", Zero, Given("b")),
  S("effective", "eps", Given("a"), Given("b")) }
QSet == [c : {"float", "array", "list", "one"}, q : {"own", "nm", "ev", "hz"}]
=============================================================================
