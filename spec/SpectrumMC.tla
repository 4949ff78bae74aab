---------------------------- MODULE SpectrumMC ----------------------------
EXTENDS Spectrum
\* --- conversion configuration (C01): every container, canonical names
VecFloat   == [kind |-> "float", v |-> <<"x1">>]
VecArr     == [kind |-> "farray", v |-> <<"x1", "x2", "x3">>]
VecSpecial == [kind |-> "farray", v |-> <<"zero", "x1", "inf", "x2">>]
VecList    == [kind |-> "list", v |-> <<"x2", "x1">>]
VecTuple   == [kind |-> "tuple", v |-> <<"x1", "x1", "x2">>]
VecInt     == [kind |-> "iarray", v |-> <<"i1", "i2", "i3">>]
VecIntList == [kind |-> "ilist", v |-> <<"i2", "zero", "i1">>]
VecOne     == [kind |-> "farray", v |-> <<"x1">>]
VecZero    == [kind |-> "float", v |-> <<"zero">>]
VecInf     == [kind |-> "float", v |-> <<"inf">>]
VecWide    == [kind |-> "farray", v |-> <<"w1", "w2", "w3", "w4">>]
VecWideF   == [kind |-> "float", v |-> <<"w1">>]
VecLong    == [kind |-> "farray", v |-> [i \in 1..40 |-> IF i % 7 = 0 THEN "zero" ELSE IF i % 11 = 0 THEN "inf" ELSE "x" \o ToString(i)]]
VecEmpty   == [kind |-> "farray", v |-> <<>>]
VecGrid    == [kind |-> "grid", v |-> <<"x1", "x2", "zero", "x3", "x1", "x4">>]
VecTiled   == [kind |-> "tiled", v |-> <<"x1", "zero", "x2", "w1", "inf">>]
ConvVectors == {VecFloat, VecArr, VecSpecial, VecList, VecTuple, VecInt, VecIntList,
                VecOne, VecZero, VecInf, VecWide, VecWideF, VecLong, VecEmpty, VecGrid, VecTiled}
CanonUnits == Units
\* --- naming configuration (C02)
NameVectors == {VecFloat, VecArr}
NameVectorsBig == {VecFloat, VecArr, VecList, VecInt}
BadTypes == {"colour", "", "length", "wavelengths", " energy", "frequency ", "wave", "angular frequency",
             "wave_length", "wave-length", "angular_frequency", "wave number", "wavelength/energy", "energyenergy", "energy1"}
BadUnits == {"furlong", "", "nanometers", "thz", "mev", "1/nm", " nm", "ev ", "electron volt", "n", "nano", "1/", "rad", "\tm",
             "nano_meter", "nano-meter", "electron_volt", "1 / s", "1/ cm", "n m", "nm1", "cm-1", "1\\s", "nm nm"}
AllTypes == Types \cup BadTypes
AllUnits == ValidUnitNames \cup BadUnits
=============================================================================
