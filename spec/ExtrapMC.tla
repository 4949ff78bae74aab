------------------------------- MODULE ExtrapMC -------------------------------
EXTENDS Extrap
S(re, im) == [re |-> re, im |-> im, cx |-> "sep"]
StartSet == {S(Part("table", 1, 0, 10), Const), S(Const, Part("table", 1, 0, 10)),
             S(Part("table", 1, 0, 10), Part("table", 0, 3, 12)),
             S(Part("table", 2, 2, 12), Part("table", 2, 0, 10)),
             S(Part("model", 2, 0, 10), Part("table", 1, 0, 10)),
             S(Part("model", 1, 0, 10), Const), S(Part("table", 3, 0, 10), Part("table", 3, 0, 10)),
             S(Const, Const), [re |-> Const, im |-> Const, cx |-> "complex"]}
StartHigh == {S(Part("table", 4, 0, 10), Const), S(Part("table", 3, 0, 10), Part("table", 4, 0, 10)), S(Const, Part("table", 4, 0, 10)),
              S(Part("table", 2, 0, 10), Part("table", 3, 0, 10))}
CallHigh == {<<-5>>, <<14>>, <<17, -5>>, <<5>>}
CallSet == {<<-8>>, <<-5>>, <<-2>>, <<0>>, <<1>>, <<5>>, <<10>>, <<11>>, <<14>>, <<17>>,
            <<-5, 14>>, <<17, -2>>, <<-2, 5>>, <<1, 14>>, <<-5, 5, 14>>, <<-6, -5, 14, 17>>}
CallBig == CallSet \cup {<<14, -2>>, <<17, -5>>, <<20>>, <<-8, 20>>, <<5, 14>>, <<5, -2>>}
TickSet == {-9, -8, -6, -5, -4, -2, -1, 0, 1, 3, 5, 7, 10, 11, 12, 13, 14, 16, 17, 18, 20, 21}
nmP == <<"wavelength", "nm">>  evP == <<"energy", "ev">> ownP == <<"own", "own">>
CP == {ownP, nmP, evP}
=============================================================================
