SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

S("c07-eps-branch", "C07", [("material.py", """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        return complex_val
""", """        if self.data['name'] == 'eps':
            modulus = np.abs(complex_val)
            complex_val = (np.sqrt((modulus+np.real(complex_val))/2.) +
                           1j*np.sqrt((modulus-np.real(complex_val))/2.))
        return complex_val
""")],
"""
from dispersion import Material
m = Material(fixed_eps=complex(2.0, -0.5))
n = complex(m.get_nk_data(5e-7)); e = complex(m.get_permittivity(5e-7))
assert abs(n*n - e) < 1e-9, (n, e)
""", "a permittivity with negative imaginary part", "the index formula ignores the sign of the imaginary part, so n^2 is not eps")

S("c07-alpha-unit", "C07", [("material.py", "            wvls = default_spectrum.convert_to('wavelength','cm')\n", "            wvls = default_spectrum.convert_to('wavelength','cm')\n            if Spectrum.check_unit(default_spectrum.unit, 'a'):\n                wvls = wvls*1e-2\n")],
"""
import numpy as np, math
from dispersion import Material
m = Material(tabulated_n_alpha=np.array([[5000., 1.5, 1e4], [6000., 1.5, 1e4]]), spectrum_type='wavelength', unit='angstrom')
k = m.get_nk_data(5000., 'wavelength', 'angstrom').imag
assert abs(k - 1e4*5e-5/(4*math.pi)) < 1e-9, k
""", "an absorption-coefficient table with wavelengths in angstrom", "k is a factor of 100 off for tables in angstrom")

S("c08-none-counts", "C08", [("material.py", "            if arg in args and args[arg] is not None:\n                if arg in mutually_exclusive:\n                    n_mutually_exclusive += 1\n", "            if arg in mutually_exclusive and args[arg] is not None:\n                n_mutually_exclusive = max(1, n_mutually_exclusive + (arg != 'tabulated_n_alpha'))\n")],
"""
import numpy as np
from dispersion import Material
try:
    Material(fixed_n=1.5, tabulated_n_alpha=np.array([[400., 1., 0.], [700., 2., 1.]]))
except ValueError:
    raise SystemExit(0)
raise SystemExit("two sources accepted")
""", "fixed_n together with tabulated_n_alpha", "n_alpha tables are accepted next to another source")

S("c08-shape", "C08", [("material.py", "            _check_table_shape(inputs['tabulated_n'], 2, 'n')", "            _check_table_shape(np.atleast_2d(inputs['tabulated_n'])[:, :2], 2, 'n')")],
"""
import numpy as np
from dispersion import Material
try:
    Material(tabulated_n=np.array([[400., 1., 0.], [700., 2., 1.]]))
except ValueError:
    raise SystemExit(0)
raise SystemExit("Nx3 table accepted as n")
""", "a table with three columns given as tabulated_n", "a table of the wrong shape is accepted")

S("c09-lower", "C09", [("material.py", "            lower = np.max([real_lower, imag_lower])\n            upper = np.min([real_upper, imag_upper])\n", "            lower = np.max([real_lower, imag_lower])\n            upper = np.min([real_upper, imag_upper])\n            if real_lower > imag_lower:\n                upper = real_upper\n")],
"""
import numpy as np
from dispersion import Material, Interpolation
m = Material(tabulated_n=np.array([[500., 1.], [900., 2.]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Interpolation(np.array([[400., .1], [800., .2]]), unit='nm')
r = m.get_maximum_valid_range()
assert abs(r[1] - 800.) < 1e-6, r
""", "partly overlapping ranges of real and imaginary part, the real one shifted to longer wavelengths", "the reported upper bound ignores the imaginary part")

S("c10-partial", "C10", [("material.py", """                extrapolated[data_name] = Extrapolation(self.data[data_name],
                                                        new_spectrum,
                                                        spline_order=spline_order)
            self.data.update(extrapolated)
""", """                extrapolated[data_name] = Extrapolation(self.data[data_name],
                                                        new_spectrum,
                                                        spline_order=spline_order)
                self.data.update(extrapolated)
""")],
"""
import numpy as np
from dispersion import Material, Interpolation, Spectrum
m = Material(tabulated_n=np.array([[500., 1.], [600., 1.5], [700., 1.4], [800., 2.]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Interpolation(np.array([[400., .1], [600., .3], [700., .2], [900., .2]]), unit='nm')
try:
    m.extrapolate(Spectrum(850., 'wavelength', 'nm'))
except ValueError:
    pass
try:
    m.data['real'].evaluate(Spectrum(850., 'wavelength', 'nm'))
except ValueError:
    raise SystemExit(0)
raise SystemExit("the real part was extrapolated although the call failed")
""", "an extrapolation that is rejected because of the imaginary part only", "a failed extrapolation leaves the real part extrapolated")

S("c10-order", "C10", [("spectral_data.py", "        self.extrapolation = splrep(spectrum.values, evaluation,\n                                    k=self.spline_order)", "        self.extrapolation = splrep(spectrum.values, evaluation,\n                                    k=min(self.spline_order, 3))")],
"""
import numpy as np
from dispersion import Material, Spectrum
p = lambda w: 1 + 0.3*w - .2*w**2 + .1*w**3 - .05*w**4
from dispersion.spectral_data import Polynomial, Cauchy
m = Material(model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([.5, 1.5]), 'parameters': np.array([1, .3, 1., -.2, 2., .1, 3., -.05, 4.])})
m.extrapolate(Spectrum(2.5, 'wavelength', 'um'), spline_order=4)
got = m.get_nk_data(2.4, 'wavelength', 'um').real
assert abs(got - p(2.4)) < 1e-3, (got, p(2.4))
""", "spline_order 4", "spline orders above three are silently lowered")

S("c11-garnett-singular", "C11", [("material.py", "        if np.any(abs(factor_down) < small_number_cutoff):", "        if np.all(abs(factor_down) < small_number_cutoff):")],
"""
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
a = Material(fixed_eps=complex(1., 0.))
b = Material(tabulated_eps=np.array([[400., -2.5/.5, 0.], [500., 3., 0.]]), spectrum_type='wavelength', unit='nm')
try:
    MaxwellGarnett(Spectrum(np.array([400., 500.]), 'wavelength', 'nm'), a, b, 0.5)
except ValueError:
    raise SystemExit(0)
raise SystemExit("singular mixture accepted")
""", "a mixture that is singular at one of several spectral values", "a mixture singular at some but not all values is accepted")

S("c11-convert-early", "C11", [("material.py", """        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
        self.spectrum.convert_to("wavelength", 'm', in_place=True)
""", """        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
        if self.spectrum.unit != 'm':
            self.spectrum.convert_to("wavelength", 'um', in_place=True)
            self.spectrum.values = np.round(self.spectrum.values, 3)*1e-6
""")],
"""
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import Simple
a = Material(fixed_n=1.0); b = Material(fixed_n=2.0)
m = Simple(Spectrum(np.array([500.4, 600.4]), 'wavelength', 'nm'), a, b, 0.5)
r = m.get_maximum_valid_range()
assert np.allclose(r, [500.4e-9, 600.4e-9], rtol=1e-9, atol=0), r
m.get_permittivity(Spectrum(np.array([500.4, 600.4]), 'wavelength', 'nm'))
""", "a spectrum with fractions of a nanometre", "the spectrum of a simple mixture is rounded to whole nanometres")

S("c12-colon", "C12", [("io.py", '''                arg = ":".join(kwd_arg[1:]).rstrip("\\n\\r").lstrip()''', '''                arg = " ".join(kwd_arg[1:]).rstrip("\\n\\r").lstrip()''')],
"""
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write("# REFERENCES: see http://x.y\\n400 1.0 0.0\\n500 2.0 0.0\\n")
m = Material(file_path=p)
assert m.meta_data['Reference'] == 'see http://x.y', m.meta_data
""", "a metadata value that contains a colon", "colons in metadata values become blanks")

S("c13-late-unit", "C13", [("material.py", """        if meta_data['Unit']:
            model_dict['unit'] = meta_data['Unit']
        else:
            model_dict['unit'] = self.defaults['unit']
""", """        if meta_data['Unit']:
            model_dict['unit'] = meta_data['Unit']
        elif data_type == 'formula':
            model_dict['unit'] = 'micrometer'
        else:
            model_dict['unit'] = self.defaults['unit']
""")],
"""
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write("DATA:\\n  - type: formula 5\\n    wavelength_range: 400 900\\n    coefficients: 1.5 0.01 -2\\n")
try:
    m = Material(file_path=p, spectrum_type='wavelength', unit='nm')
except ValueError:
    raise SystemExit(0)
raise SystemExit("formula read in a unit nobody gave")
""", "a formula data set without unit in a file read with the default unit nm", "the constructor's unit is ignored for formulas")

S("c13-formula-range", "C13", [("material.py", "                      3: 'Polynomial', 4: 'RefractiveIndexInfo',\n                      5: 'Cauchy', 6: 'Gases',", "                      3: 'Polynomial', 4: 'RefractiveIndexInfo',\n                      6: 'Gases', 5: 'Cauchy' if len(coefficients) > 1 else 'Polynomial',")],
"""
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write("DATA:\\n  - type: formula 5\\n    wavelength_range: 0.4 0.9\\n    coefficients: 1.5\\n")
m = Material(file_path=p, spectrum_type='wavelength', unit='um')
n = m.get_nk_data(.5, 'wavelength', 'um').real
assert abs(n - 1.5) < 1e-9, n
""", "formula 5 with a single coefficient", "a constant Cauchy formula is read as formula 3")

S("c14-precision", "C14", [("io.py", '''                   comments=comments,
                   fmt="%s")''', '''                   comments=comments,
                   fmt="%.12g")''')],
"""
import os, numpy as np
from dispersion import Material, Writer
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
t = np.array([[400.123456789012, 1/3., 0.1], [500., 2/3., 0.2]])
Writer(p, Material(tabulated_nk=t, spectrum_type='wavelength', unit='nm')).write_file()
m = Material(file_path=p)
assert m.get_nk_data(500., 'wavelength', 'nm').real == 2/3.
""", "values with more than 12 significant digits", "text files are written with 12 digits only")

S("c14-collapse", "C14", [("material.py", """        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
            collapse = False
""", """        if n_data.shape != k_data.shape:
            collapse = False
        elif not np.allclose(n_data[:, 0], k_data[:, 0]):
            collapse = False
""")],
"""
import os, numpy as np
from dispersion import Material, Writer, Interpolation
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
m = Material(tabulated_n=np.array([[4e-7, 1.], [7e-7, 2.]]), spectrum_type='wavelength', unit='m')
m.data['imag'] = Interpolation(np.array([[5e-7, .1], [6e-7, .2]]), unit='m', spectrum_type='wavelength')
Writer(p, m).write_file()
r = Material(file_path=p).get_maximum_valid_range()
assert np.allclose(r*1e9, [500., 600.]), r
""", "separate n and k tables in metres with the same number of rows and different abscissae", "abscissae are compared with an absolute tolerance that is far too large for metres")
