------------------------------ MODULE RangesMC ------------------------------
EXTENDS Ranges
nmP == <<"wavelength", "nm">>  umP == <<"wavelength", "um">>  evP == <<"energy", "ev">>
hzP == <<"frequency", "hz">>   wnP == <<"wavenumber", "1/cm">> anP == <<"wavelength", "a">>
mP == <<"wavelength", "m">>    cmP == <<"wavelength", "cm">>   wP == <<"angularfrequency", "1/s">>
Mk(k, m, p, lo, hi) == [k |-> k, m |-> m, p |-> p, lo |-> lo * 1000000, hi |-> hi * 1000000, loX |-> TRUE, hiX |-> TRUE]
Tab(p, lo, hi) == Mk("table", "tabulated_n", p, lo, hi)
Sources == {"tabulated_n", "tabulated_nk", "tabulated_eps", "tabulated_n_alpha"}
IndexModels == {"Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy",
                "Gases", "Herzberger", "Retro", "Exotic"}
EpsModels == {"Drude", "DrudeLorentz", "TaucLorentz"}
Fixed == {[Const EXCEPT !.m = s] : s \in {"fixed_n", "fixed_nk", "fixed_eps_r", "fixed_eps"}}
\* C03: every kind of data in every unit
RKinds == {Tab(p, 400, 800) : p \in Pairs} \cup {Mk("table", s, nmP, 400, 800) : s \in Sources}
          \cup {Mk("table", s, evP, 400, 800) : s \in Sources}
          \cup {Mk("constr", "-", p, 410, 790) : p \in Pairs} \cup Fixed
          \cup {Mk("model", m, umP, 450, 900) : m \in IndexModels}
          \cup {Mk("cmodel", m, evP, 420, 850) : m \in EpsModels}
OnlyConst == {Const}
\* short and narrow ranges
Fine(k, m, p, lo, hi) == [Mk(k, m, p, 0, 0) EXCEPT !.lo = lo, !.hi = hi]
RNarrow == UNION {{Fine("table", "tabulated_n", p, 10000000, 15000000), Fine("table", "tabulated_n", p, 500000000, 500400000),
                   Fine("constr", "-", p, 1500000, 2100000)} : p \in Pairs}
           \cup {Fine("table", s, nmP, 100000, 900000) : s \in Sources}
           \cup {Fine("model", m, umP, 20000000, 23000000) : m \in {"Cauchy", "Polynomial"}}
           \cup {Fine("cmodel", m, evP, 11000000, 14000000) : m \in EpsModels}
\* ranges over several orders of magnitude
RWide == {Fine("table", "tabulated_n", p, 150000, 1700000000) : p \in {nmP, umP, evP, hzP, wnP}}
         \cup {Fine("cmodel", m, evP, 120000, 1650000000) : m \in {"Drude", "DrudeLorentz"}}
         \cup {Fine("constr", "-", p, 140000, 1690000000) : p \in {nmP, evP}}
         \cup {Fine("table", s, nmP, 110000, 1600000000) : s \in Sources}
\* mixtures: real and imaginary part with different ranges
R1 == {Tab(nmP, 400, 800), Tab(evP, 400, 800), Tab(hzP, 350, 700), Mk("model", "Cauchy", umP, 450, 900),
       Mk("constr", "-", wnP, 410, 790), Const}
I1 == {Tab(evP, 500, 1000), Tab(nmP, 300, 600), Mk("constr", "-", umP, 420, 780)}
C03Query == {nmP, umP, evP, hzP, wnP}
\* C09: histories
R2 == {Const, Mk("table", "tabulated_nk", nmP, 400, 800), Tab(evP, 400, 800), Mk("model", "Sellmeier", umP, 450, 900),
       Mk("cmodel", "Drude", evP, 420, 850), Tab(hzP, 350, 700)}
I2 == {Const, Tab(evP, 500, 1000), Tab(nmP, 300, 600), Tab(wnP, 450, 650), Mk("constr", "-", nmP, 510, 590)}
R2Big == R2 \cup {Tab(p, 380, 760) : p \in {umP, wnP, anP, mP, wP}}
I2Big == I2 \cup {Tab(p, 390, 990) : p \in {umP, hzP, cmP, mP, wP}}
fm(x) == x * 1000000
Ext2 == {<<fm(200)>>, <<fm(1200)>>, <<fm(250), fm(1300)>>, <<fm(1250), fm(220)>>, <<fm(550)>>, <<fm(1400), fm(560)>>, <<fm(200), fm(550), fm(1300)>>}
Ext2Pairs == {nmP, evP}
AllShapes == {"scalar", "one", "first", "mid", "last", "nan", "long", "huge"}
FewShapes == {"scalar", "mid"}
=============================================================================
