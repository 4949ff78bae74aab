SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

S("c01-um-rounding", "C01", [("spectrum.py", "np.round(values*1e6, decimals=9)", "np.round(values*1e6, decimals=6)")],
"""
from dispersion import Spectrum
v = Spectrum(0.5000001234e-6, 'wavelength', 'm').convert_to('wavelength', 'um')
assert abs(v - 0.5000001234) < 2e-9, v
""", "a value with digits below a picometre converted to micrometres", "conversion to micrometres is rounded to 1e-6 instead of 1e-9")

S("c01-inplace-unit", "C01", [("spectrum.py", """            self.values = converted_values
            self.spectrum_type = spectrum_type
            self.unit = unit
""", """            self.values = converted_values
            if spectrum_type != self.spectrum_type:
                self.spectrum_type = spectrum_type
                self.unit = unit
""")],
"""
import numpy as np
from dispersion import Spectrum
s = Spectrum(np.array([500., 600.]), 'wavelength', 'nm')
s.convert_to('wavelength', 'um', in_place=True)
got = s.convert_to('wavelength', 'nm')
assert np.allclose(got, [500., 600.]), got
""", "an in-place conversion between two units of the same type followed by a conversion back", "the unit is stale after an in-place conversion within wavelengths")

S("c02-alias-order", "C02", [("spectrum.py", "'cm': {'centimeter', 'centimetre', 'cm'},", "'cm': {'centimeter', 'cm'},"),
  ("spectrum.py", "'m': {'meter', 'metre', 'm'},", "'m': {'meter', 'metre', 'm', 'centimetre'},")],
"""
from dispersion import Spectrum
a = Spectrum(5e-5, 'wavelength', 'centimetre').convert_to('wavelength', 'nm')
b = Spectrum(5e-5, 'wavelength', 'cm').convert_to('wavelength', 'nm')
assert abs(a - b) < 1e-6, (a, b)
""", "the British spelling of centimetre", "one alias of the centimetre means another unit")

S("c02-rejected-inplace", "C02", [("spectrum.py", """            raise ValueError("invalid spectrum type {}".format(spectrum_type))

        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
        values = self.standard_rep
""", """            raise ValueError("invalid spectrum type {}".format(spectrum_type))

        if in_place:
            own_type, self.spectrum_type = self.spectrum_type, spectrum_type
        else:
            own_type = self.spectrum_type
        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
        values = self.standard_rep
"""), ("spectrum.py", "if spectrum_type == self.spectrum_type and unit == self.unit:", "if spectrum_type == own_type and unit == self.unit:")],
"""
from dispersion import Spectrum
s = Spectrum(500., 'wavelength', 'nm')
try:
    s.convert_to('energy', 'nm', in_place=True)
except ValueError:
    pass
assert s.spectrum_type == 'wavelength' and s.get_type_unit_string() == 'wavelength (nm)', s.get_type_unit_string()
""", "an in-place conversion with a valid type and a unit that does not belong to it, then a look at the spectrum", "the type has already been changed when the conversion is rejected")

S("c03-ends-only", "C03", [("spectrum.py", "        other_min = np.min(other_values)\n        other_max = np.max(other_values)\n",
"""        other_ends = np.atleast_1d(other_values)[[0, -1]]
        other_min = np.min(other_ends)
        other_max = np.max(other_ends)
""")],
"""
import numpy as np
from dispersion import Material
m = Material(tabulated_nk=np.array([[400., 1., 0.], [700., 2., 1.]]), spectrum_type='wavelength', unit='nm')
try:
    r = m.get_nk_data(np.array([500., 900., 600.]), 'wavelength', 'nm')
except ValueError:
    raise SystemExit(0)
raise SystemExit("no error: %r" % (r,))
""", "an array whose first and last element are inside the range and one in the middle outside", "only the ends of the spectrum are checked against the valid range")

S("c03-const-scalar", "C03", [("spectral_data.py", '''        self.valid_range.contains(spectrum)
        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            return self.constant * np.ones(len(spectrum.values))
        return self.constant
''', '''        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            self.valid_range.contains(spectrum)
            return self.constant * np.ones(len(spectrum.values))
        return self.constant
''')],
"""
from dispersion import Spectrum, Constant
c = Constant(1.5, valid_range=(400., 700.), spectrum_type='wavelength', unit='nm')
try:
    r = c.evaluate(Spectrum(900., 'wavelength', 'nm'))
except ValueError:
    raise SystemExit(0)
raise SystemExit("no error: %r" % (r,))
""", "constant data with a limited range evaluated at a single float outside it", "scalar queries of constants are not range checked")

S("c04-sorted-check", "C04", [("spectral_data.py", "        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],\n                                      kind=self.interp_order)",
"        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],\n                                      kind=min(self.interp_order, 2))")],
"""
import numpy as np
from dispersion import Material
x = np.array([400., 450., 520., 600., 700.])
y = 1e-6 * (x - 500.)**3 / 100 + 2.0
m = Material(tabulated_n=np.array([x, y]).T, spectrum_type='wavelength', unit='nm', interp_order=3)
got = m.get_nk_data(np.array([480.]), 'wavelength', 'nm')[0].real
want = 1e-6 * (480. - 500.)**3 / 100 + 2.0
assert abs(got - want) < 1e-9, (got, want)
""", "interp_order 3 and a table that is not quadratic", "interpolation orders above two are lowered to two")

S("c04-first-row-dup", "C12", [("io.py", "        if not tabulated_data[row, 0] > last_valid:\n            continue\n        else:\n            new_rows.append(tabulated_data[row, :])\n            last_valid = tabulated_data[row, 0]\n",
"        if not tabulated_data[row, 0] > last_valid:\n            new_rows[-1] = tabulated_data[row, :]\n        else:\n            new_rows.append(tabulated_data[row, :])\n            last_valid = tabulated_data[row, 0]\n")],
"""
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write("400 1.0 0.0\\n500 2.0 0.0\\n500 9.0 0.0\\n600 3.0 0.0\\n")
m = Material(file_path=p, spectrum_type='wavelength', unit='nm')
v = m.get_nk_data(500., 'wavelength', 'nm').real
assert abs(v - 2.0) < 1e-9, v
""", "a data file with two rows of the same spectral value", "the last instead of the first of several equal rows counts")

S("c05-rii-third-term", "C05", [("spectral_data.py", "        for iterc in range(len(self.model_parameters[9::2])):", "        for iterc in range(len(self.model_parameters[9:15:2])):")],
"""
import numpy as np
from dispersion import Spectrum
from dispersion.spectral_data import RefractiveIndexInfo
par = [2., .1, 0., .1, 2., .1, 0., .1, 2.] + [.05, 2., .01, -2., .02, 1., .03, -1.]
m = RefractiveIndexInfo(np.array(par), np.array([.4, 2.]), spectrum_type='wavelength', unit='um')
w = 0.8
e = 2 + 2 * .1 / (w**2 - .01) + .05*w**2 + .01*w**-2 + .02*w + .03/w
got = m.evaluate(Spectrum(w, 'wavelength', 'um'))
assert abs(got - np.sqrt(e)) < 1e-9, (got, np.sqrt(e))
""", "formula 4 with four polynomial terms (17 coefficients)", "the fourth polynomial term of formula 4 is dropped")

S("c05-tauc-below-gap", "C05", [("spectral_data.py", "        eps_imag[energies<Eg] = 0.0\n", "")],
"""
import numpy as np
from dispersion import Spectrum
from dispersion.spectral_data import TaucLorentz
m = TaucLorentz(np.array([100., 3., 1., 1.2, 1.]), np.array([.5, 6.]), spectrum_type='energy', unit='ev')
v = m.evaluate(Spectrum(np.array([0.8, 2.0]), 'energy', 'ev'))
assert v[0].imag == 0.0, v
""", "a TaucLorentz model evaluated below its band gap", "absorption below the gap is one instead of zero")

S("c06-inplace-param", "C06", [("spectral_data.py", "        rhs = self.model_parameters[0]*ones\n        for iterc in range(len(self.model_parameters[1::2])):\n            c_multi = self.model_parameters[iterc*2+1]\n            c_power = self.model_parameters[iterc*2+2]\n            rhs += c_multi*np.power(wavelengths, c_power)\n        ref_index = rhs\n",
"        rhs = self.model_parameters[:1]\n        if np.size(ones) > 1:\n            rhs = rhs*ones\n        for iterc in range(len(self.model_parameters[1::2])):\n            c_multi = self.model_parameters[iterc*2+1]\n            c_power = self.model_parameters[iterc*2+2]\n            rhs += c_multi*np.power(wavelengths, c_power)\n        ref_index = rhs*ones if np.ndim(ones) else rhs[0]\n")],
"""
import numpy as np
from dispersion import Spectrum
from dispersion.spectral_data import Cauchy
m = Cauchy(np.array([1.5, .01, -2.]), np.array([.4, 2.]), spectrum_type='wavelength', unit='um')
a = float(np.ravel(m.evaluate(Spectrum(.5, 'wavelength', 'um')))[0])
b = float(np.ravel(m.evaluate(Spectrum(.5, 'wavelength', 'um')))[0])
assert abs(a - b) < 1e-12, (a, b)
""", "two evaluations of one Cauchy model at a single value", "a scalar evaluation accumulates into the model's own coefficients")
