------------------------------- MODULE MixingMC -------------------------------
EXTENDS Mixing
B(id, real, eps, loss, diel, cover) == [id |-> id, real |-> real, eps |-> eps, loss |-> loss, diel |-> diel, cover |-> cover,
                                          gain |-> id \in {"gain", "gaintab"}]
All == 1 .. 7
In == 2 .. 6
BaseSet == {
  B("one", TRUE, 1, FALSE, TRUE, All), B("four", TRUE, 4, FALSE, TRUE, All),
  B("minus2", TRUE, -2, FALSE, FALSE, All), B("minus5", TRUE, -5, FALSE, FALSE, All), B("minus12", TRUE, -12, FALSE, FALSE, All),
  B("cplx", FALSE, 0, TRUE, TRUE, All), B("metal", FALSE, 0, TRUE, FALSE, All),
  B("gain", FALSE, 0, TRUE, TRUE, All), B("gaintab", FALSE, 0, TRUE, TRUE, In),
  B("tabnk", FALSE, 0, TRUE, TRUE, In), B("tabeps", FALSE, 0, TRUE, TRUE, In),
  B("tabn", FALSE, 0, FALSE, TRUE, In), B("drude", FALSE, 0, TRUE, FALSE, In), B("sell", FALSE, 0, FALSE, TRUE, In) }
BaseFew == {b \in BaseSet : b.id \in {"cplx", "tabnk", "gain"}}
nmP == <<"wavelength", "nm">>  umP == <<"wavelength", "um">>  evP == <<"energy", "ev">>
hzP == <<"frequency", "hz">>   wnP == <<"wavenumber", "1/cm">> mP == <<"wavelength", "m">>
Sp(id, p, v, f) == [id |-> id, pair |-> p, pos |-> v, form |-> f]
SpecSet == {Sp("s1", nmP, <<2, 3, 4, 5, 6>>, "array"), Sp("s2", evP, <<6, 4, 2>>, "array"), Sp("s3", hzP, <<4, 2, 5>>, "array"),
            Sp("s4", umP, <<3>>, "float"), Sp("s5", mP, <<4, 3, 5, 2>>, "list"), Sp("s6", nmP, <<2, 7>>, "array"),
            Sp("s7", wnP, <<1, 4>>, "array"), Sp("s8", evP, <<4>>, "one")}
SpecFew == {s \in SpecSet : s.id \in {"s1", "s3"}}
Fr(n, d) == [num |-> n, den |-> d]
FracSet == {Fr(0, 1), Fr(1, 1), Fr(1, 2), Fr(1, 4), Fr(9, 10), Fr(1, 3), Fr(-1, 10), Fr(11, 10), Fr(2, 1), Fr(-1, 1),
            Fr(251, 250), Fr(-1, 250), Fr(1000001, 1000000), Fr(-1, 1000000), Fr(249, 250),
            Fr(1, 20000), Fr(19999, 20000)}
FracFew == {Fr(1, 1), Fr(1, 4)}
BaseMid == {b \in BaseSet : b.id \in {"four", "cplx", "tabnk", "sell", "gaintab"}}
SpecMid == {s \in SpecSet : s.id \in {"s1", "s3", "s4"}}
FracMid == {Fr(0, 1), Fr(1, 1), Fr(1, 4)}
QP == {nmP, evP, hzP}
=============================================================================
