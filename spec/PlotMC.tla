------------------------------- MODULE PlotMC -------------------------------
EXTENDS Plot
M(id, t, u, unb, one) == [id |-> id, pair |-> <<t, u>>, unb |-> unb, one |-> one]
AllMats == {
  M("const", "wavelength", "nm", TRUE, FALSE), M("constev", "energy", "ev", TRUE, FALSE),
  M("nk_nm", "wavelength", "nm", FALSE, FALSE), M("eps_ev", "energy", "ev", FALSE, FALSE),
  M("alpha_cm", "wavenumber", "1/cm", FALSE, FALSE), M("n_hz", "frequency", "hz", FALSE, FALSE),
  M("row", "wavelength", "um", FALSE, TRUE), M("model", "wavelength", "um", FALSE, FALSE),
  M("drude", "energy", "ev", FALSE, FALSE), M("file", "wavelength", "a", FALSE, FALSE),
  M("mixed", "wavelength", "m", FALSE, FALSE), M("omega", "angularfrequency", "1/s", FALSE, FALSE) }
FewMats == {m \in AllMats : m.id \in {"nk_nm", "drude"}}
TwoAxs == {[id |-> "A1", fig |-> 1], [id |-> "A2", fig |-> 2]}
OneAx == {[id |-> "A1", fig |-> 1]}
=============================================================================
