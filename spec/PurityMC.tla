------------------------------ MODULE PurityMC ------------------------------
EXTENDS Purity
nmP == <<"wavelength", "nm">>  umP == <<"wavelength", "um">>  evP == <<"energy", "ev">>
hzP == <<"frequency", "hz">>   wnP == <<"wavenumber", "1/cm">>
\* positions 1..5 are wavelengths inside every material's range
SS == {[id |-> "sA", pair |-> nmP, v |-> <<1, 3, 5>>], [id |-> "sB", pair |-> evP, v |-> <<4, 2>>],
       [id |-> "sF", pair |-> umP, v |-> <<3>>]}
\* the vectors share lengths, ends, sums and element sets with one another and with sA
VV == {<<1>>, <<3>>, <<1, 4, 5>>, <<1, 2, 5>>, <<5, 2, 3, 4, 1>>, <<1, 2, 3, 4, 5>>, <<5, 1, 3>>, <<3, 3, 2>>, <<4, 2, 2, 1, 5, 3, 1>>}
QQ == {nmP, evP, hzP}
ExtS == {"e1", "e2"}
=============================================================================
