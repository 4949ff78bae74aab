------------------------------ MODULE ContainMC ------------------------------
EXTENDS Contain
fm(x) == x * 1000000
Small == {<<fm(500)>>, <<fm(400), fm(800)>>, <<fm(800), fm(400)>>, <<fm(500), fm(400), fm(600)>>, <<fm(400) - 400, fm(800)>>,
          <<fm(600), fm(800) + 800, fm(500)>>, <<0, INF>>, <<fm(500), INF>>, <<0, fm(800)>>, <<NAN, fm(500)>>, <<fm(900), NAN>>,
          <<fm(600), 0 - fm(300)>>, <<0 - fm(200), 0>>}
Big == Small \cup {<<fm(800), fm(800), fm(400), fm(400)>>, <<fm(500), fm(500) + 500>>, <<0>>, <<INF>>, <<fm(500) - 500, fm(500), fm(500) + 500>>}
Some == {<<"wavelength", "nm">>, <<"wavelength", "um">>, <<"energy", "ev">>, <<"wavenumber", "1/cm">>}
=============================================================================
