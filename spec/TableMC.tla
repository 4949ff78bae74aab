------------------------------ MODULE TableMC ------------------------------
EXTENDS Table
G1 == {<<0, 5>>, <<0, 2, 3, 5, 8, 9, 12>>, <<0, 1, 10>>, <<0, 4, 5, 7>>, <<3>>, <<0, 2, 3, 9, 10>>}
G2 == G1 \cup {<<0, 1>>, <<1, 2, 3>>, <<0, 1, 2, 3, 9, 30>>, <<0, 10, 11, 12>>, <<0>>}
P1 == {<<"wavelength", "nm">>, <<"wavelength", "m">>, <<"energy", "ev">>, <<"wavenumber", "1/cm">>}
Q1 == {<<"wavelength", "nm">>, <<"energy", "ev">>, <<"frequency", "hz">>, <<"wavenumber", "1/cm">>}
=============================================================================
