------------------------------ MODULE TextFileMC ------------------------------
EXTENDS TextFile
Sg(ext, ft, fu, dt, at, au) == [ext |-> ext, ft |-> ft, fu |-> fu, dt |-> dt, at |-> at, au |-> au]
SetSmall == {Sg("txt", "energy", "ev", "nk", "", ""), Sg("csv", "wavelength", "um", "eps", "wavelength", "nm"),
             Sg("nk", "wavelength", "nm", "k", "wavelength", "um")}
SetBig == SetSmall \cup {Sg("txt", "energy", "ev", "n", "wavelength", "um"), Sg("csv", "", "um", "n", "wavelength", ""),
             Sg("nk", "frequency", "hz", "nk", "energy", "ev"), Sg("txt", "", "", "", "energy", "ev"),
             Sg("csv", "frequency", "", "eps", "", "hz"), Sg("txt", "", "um", "k", "", "nm"), Sg("nk", "", "", "eps", "wavelength", "um"),
             Sg("txt", "wavelength", "nm", "n_alpha", "", ""), Sg("csv", "energy", "ev", "n_alpha", "wavelength", "nm")}
RowsSmall == {<<1, 2, 4>>, <<2, 3, 3, 1, 5>>}
RowsBig == {<<1, 2, 4>>, <<1>>, <<1, 2, 2, 3>>, <<1, 4, 2, 3, 5>>, <<3, 2, 1>>, <<1, 1, 1>>, <<2, 1, 3, 2, 4, 4, 5>>, <<5, 4, 6>>}
\* long files: more comment lines than fit on a screen, hundreds of rows in different orders
Filler(n) == [i \in 1..n |-> IF i % 7 = 3 THEN "other" ELSE IF i % 11 = 5 THEN "blank" ELSE IF i % 13 = 1 THEN "plainkey" ELSE "plain"]
LongHead == {Filler(150) \o <<"UNIT", "SPECTRUMTYPE", "NAME">>, <<"NAME", "DATATYPE">> \o Filler(120) \o <<"AUTHOR", "UNIT", "SPECTRUMTYPE">> \o Filler(5),
             Filler(40) \o <<"empty", "UNIT">>, <<"COMMENTS">>}
LongRows == {[i \in 1..60 |-> i], [i \in 1..70 |-> 71 - i], [i \in 1..64 |-> ((i * 17) % 37) + 1]}
NoPrefix == {<<>>}
Full == {<<"plain", "REFERENCES", "AUTHOR", "FULLNAME", "NAME", "COMMENTS", "SPECTRUMTYPE", "UNIT", "DATATYPE">>,
         <<"DATATYPE", "NAME", "other", "UNIT", "COMMENTS", "plain", "FULLNAME", "SPECTRUMTYPE", "plainkey", "AUTHOR", "blank", "REFERENCES">>,
         <<"COMMENTS", "FULLNAME", "blank", "plain", "NAME", "UNIT", "SPECTRUMTYPE">>,
         <<"NAME", "COMMENTS", "empty", "NAME", "AUTHOR", "plain", "UNIT">>,
         <<"plain", "blank", "blank", "plain", "other", "other", "plainkey">>}
=============================================================================
