exec(open('/tmp/seedkit/defs3.py').read().split('S("c14-text-meta"')[0])

S("c01-big-float32", "C01", [("spectrum.py", "    inf_ind = values == np.inf\n", "    if inverse.size > 1000:\n        inverse = inverse.astype(np.float32) # large grids\n    inf_ind = values == np.inf\n")],
'''
import numpy as np
from dispersion import Spectrum
v = np.linspace(400., 800., 2000)
e = Spectrum(v, unit='nm').convert_to('frequency', 'hz')
f = np.array([Spectrum(np.array([x]), unit='nm').convert_to('frequency', 'hz')[0] for x in v])
assert np.allclose(e, f, rtol=1e-11, atol=0)
''', "an array of more than 1000 values", "large arrays are converted in single precision")

S("c02-label-memo", "C02", [("spectrum.py", """        type_str = self.spectrum_type
        return "{} ({})".format(type_str, unit_str)
""", """        type_str = self.spectrum_type
        if not hasattr(self, '_label'):
            self._label = "{} ({})".format(type_str, unit_str)
        return self._label
""")],
'''
from dispersion import Spectrum
s = Spectrum(500., unit='nm')
s.get_type_unit_string()
s.convert_to('energy', 'ev', in_place=True)
assert s.get_type_unit_string() == 'energy (eV)', s.get_type_unit_string()
''', "the label asked for before and after an in-place conversion", "the label is that of the former unit")

S("c03-thin-out", "C03", [("spectrum.py", "        other_values = other.convert_to(self.spectrum_type, self.unit)\n", "        other_values = other.convert_to(self.spectrum_type, self.unit)\n        if np.size(other_values) > 512: # a sample is enough for long spectra\n            other_values = np.append(other_values[::8], other_values[-1])\n")],
'''
import numpy as np
from dispersion import Material
m = Material(model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([0.4, 0.8]), 'parameters': np.array([1.5, 0.01, -2.])})
q = np.linspace(450., 750., 600); q[101] = 900.
try:
    m.get_nk_data(q, spectrum_type='wavelength', unit='nm')
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''', "more than 512 values, unordered, with the outlier at an unlucky place", "long spectra are range checked on a sample only")

S("c04-close-rows", "C04", [("spectral_data.py", "        self.interp_order = interp_order\n", "        apart = np.append(True, ~np.isclose(np.diff(self.data[:, 0]), 0.))\n        if not apart.all(): # duplicated rows\n            self.data = self.data[apart]\n        self.interp_order = interp_order\n")],
'''
import numpy as np
from dispersion import Material
t = np.array([[500e-9, 1.], [505e-9, 2.], [520e-9, 1.5], [600e-9, 1.4]])
m = Material(tabulated_n=t, spectrum_type='wavelength', unit='m')
assert abs(m.get_nk_data(np.array([505e-9]), spectrum_type='wavelength', unit='m')[0] - 2.) < 1e-9
''', "a table in metre with rows less than 10 nm apart", "close rows of a table in metre are dropped")

S("c03-flat", "C03", [("material.py", "        n_rows = data.shape[0]\n", "        n_rows = data.shape[0]\n        if n_rows > 1 and np.ptp(data[:, 1]) == 0.:\n            return Constant(data[0, 1]) # nothing to interpolate\n")],
'''
import numpy as np
from dispersion import Material
m = Material(tabulated_n=np.array([[400., 1.5], [800., 1.5]]), spectrum_type='wavelength', unit='nm')
try:
    m.get_nk_data(np.array([900.]), spectrum_type='wavelength', unit='nm')
except ValueError:
    pass
else:
    raise SystemExit("no range")
m2 = m
''', "a table whose values are all equal", "such a table is valid everywhere")

S("c05-fourth-term", "C05", [("spectral_data.py", """        for iterc in range(len(self.model_parameters[1::2])):
            cupper = self.model_parameters[iterc*2+1]
            clower = self.model_parameters[iterc*2+2]
            rhs += cupper/(clower-wvlinvsq)
""", """        for iterc in range(min(3, len(self.model_parameters[1::2]))):
            cupper = self.model_parameters[iterc*2+1]
            clower = self.model_parameters[iterc*2+2]
            rhs += cupper/(clower-wvlinvsq)
""")],
'''
import numpy as np
from dispersion.spectral_data import Gases
from dispersion import Spectrum
p = [0., .01, 60., .02, 70., .03, 80., .04, 90.]
m = Gases(p, (0.2, 1.), spectrum_type='wavelength', unit='um')
v = m.evaluate(Spectrum(np.array([0.5]), unit='um'))[0]
w = 1 + sum(p[i] / (p[i+1] - 4.) for i in range(1, 9, 2))
assert abs(v - w) < 1e-9, (v, w)
''', "the gases formula with more than three terms", "further terms are ignored")

S("c06-buffer", "C06", [("spectral_data.py", "        return ones - omega_p**2/(np.power(energies, 2)+1j*loss*energies)\n", "        if np.ndim(energies) == 0:\n            return ones - omega_p**2/(np.power(energies, 2)+1j*loss*energies)\n        if np.shape(getattr(self, '_buffer', 0.)) != energies.shape:\n            self._buffer = np.empty(energies.shape, dtype=complex)\n        self._buffer[...] = ones - omega_p**2/(np.power(energies, 2)+1j*loss*energies)\n        return self._buffer\n")],
'''
import numpy as np
from dispersion import Material
m = Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([0.5, 5.]), 'parameters': np.array([8., .1])})
a = m.get_permittivity(np.array([1., 2.]), spectrum_type='energy', unit='ev')
k = a.copy()
m.get_permittivity(np.array([3., 4.]), spectrum_type='energy', unit='ev')
assert np.array_equal(a, k)
''', "the result of one query kept while another of the same length is made", "a later query overwrites the result of an earlier one")

S("c07-alpha-sorted", "C07", [("material.py", "            alpha = table[:, 2]\n", "            alpha = table[:, 2]\n            if np.all(wvls[1:] < wvls[:-1]): # given in decreasing wavelength\n                wvls = wvls[::-1]\n")],
'''
import numpy as np
from dispersion import Material
t = np.array([[400., 1.5, 1e4], [800., 1.6, 1e4]])
a = Material(tabulated_n_alpha=t, spectrum_type='wavelength', unit='nm')
b = Material(tabulated_n_alpha=t[::-1], spectrum_type='wavelength', unit='nm')
q = np.array([400., 600., 800.])
assert np.allclose(a.get_nk_data(q, unit='nm'), b.get_nk_data(q, unit='nm'))
''', "an n/alpha table in descending wavelength or ascending energy order", "alpha is combined with the wavelength of another row")

S("c08-falsy", "C08", [("material.py", "            if arg in args and args[arg] is not None:\n                if arg in mutually_exclusive:\n", "            if arg in args and np.any(args[arg]):\n                if arg in mutually_exclusive:\n")],
'''
from dispersion import Material
try:
    Material(fixed_n=0.0, fixed_eps_r=2.0)
except ValueError:
    pass
else:
    raise SystemExit("two definitions accepted")
''', "one of two exclusive arguments is zero", "a definition with the value zero does not count")

S("c09-remove-range", "C09", [("material.py", "        self.data['imag'] = Constant(0.0)\n\n    def extrapolate", "        imag = self.data['imag']\n        self.data['imag'] = Constant(0.0, valid_range=imag.valid_range.values,\n                                     spectrum_type=imag.spectrum_type,\n                                     unit=imag.unit)\n\n    def extrapolate")],
'''
import numpy as np
from dispersion import Material, Interpolation
m = Material(fixed_n=1.5)
m.data['imag'] = Interpolation(np.array([[400., .1], [800., .2]]), unit='nm')
m.remove_absorption()
m.get_nk_data(np.array([1000.]), unit='nm')
assert m.get_maximum_valid_range()[1] == np.inf
''', "absorption removed from a material whose imaginary part has the narrower range", "the range stays limited by the removed data")

S("c10-smooth", "C10", [("spectral_data.py", "        self.extrapolation = splrep(spectrum.values, evaluation,\n                                    k=self.spline_order)\n", "        self.extrapolation = splrep(spectrum.values, evaluation,\n                                    k=self.spline_order,\n                                    s=1e-9*len(spectrum.values))\n")],
'''
import numpy as np
from dispersion import Material, Spectrum
t = np.array([[400., 1.], [500., 2.]])
m = Material(tabulated_n=t, spectrum_type='wavelength', unit='nm')
m.extrapolate(Spectrum(600., unit='nm'), spline_order=3)
v = m.get_nk_data(np.array([600.]), unit='nm')[0]
t = np.array([[x, 1 + 1e-5*(x-400)**2*(1+ .01*np.sin(x))] for x in np.linspace(400, 500, 40)])
from scipy.interpolate import splrep, splev
m = Material(tabulated_n=t, spectrum_type='wavelength', unit='nm')
b = m.data['real']
s = b.suggest_spectrum()
want = splev(502., splrep(s.values, b.evaluate(s), k=2))
m.extrapolate(Spectrum(510., unit='nm'), spline_order=2)
v = m.get_nk_data(np.array([502.]), unit='nm')[0]
assert abs(v - want) < 1e-7, (v, want)
''', "data which no single polynomial describes", "the extrapolating spline smooths the data")

S("c11-frac-round", "C11", [("material.py", "        if self.frac < 0. or self.frac > 1.0:\n", "        if not 0. <= round(self.frac, 2) <= 1.:\n")],
'''
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import Simple
for f in (1.004, -0.004):
    try:
        Simple(Spectrum(np.array([500., 600.]), unit='nm'), Material(fixed_n=1.), Material(fixed_n=2.), f)
    except ValueError:
        continue
    raise SystemExit("accepted %r" % f)
''', "a filling fraction slightly outside 0..1", "such fractions are accepted")

S("c11-sing", "C11", [("material.py", "        small_number_cutoff = 1e-6\n", "        small_number_cutoff = 1e-1\n")],
'''
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
m = MaxwellGarnett(Spectrum(np.array([500., 600.]), unit='nm'), Material(fixed_eps=1. + 0j), Material(fixed_eps=-2.05 + 0j), 0.0)
''', "media close to the resonance", "regular media are rejected as singular")

S("c12-alpha-type", "C12", [("io.py", "        if dataset['DataType'] == \"\":\n            if dataset['Data'].shape[1] == 3:\n", "        if dataset['DataType'] not in {'tabulated n', 'tabulated k', 'tabulated eps', 'tabulated eps_r', 'tabulated eps_k'}:\n            if dataset['Data'].shape[1] == 3:\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ["SCRATCH"], "a.txt")
open(p, "w").write("# DATATYPE: tabulated n_alpha\\n# UNIT: nm\\n400 1.5 10000\\n800 1.6 20000\\n")
m = Material(file_path=p)
assert abs(m.get_nk_data(400., unit='nm').imag) < 1, m.get_nk_data(400., unit='nm')
''', "a text file declared as n/alpha table", "the declared data type is overridden")

S("c13-range-alias", "C13", [("io.py", "                                  'spectra_range', 'wavelength_range'},\n", "                                  'spectral_range', 'wavelength_range'},\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ["SCRATCH"], "a.yml")
open(p, "w").write("DATA:\\n  - type: formula 5\\n    spectra_range: 0.4 0.8\\n    coefficients: 1.5 0.01 -2\\n")
m = Material(file_path=p, spectrum_type='wavelength', unit='micrometer')
m.get_nk_data(0.5, unit='um')
''', "the range given as spectra_range", "an alias of the range is no longer understood")

S("c14-digits", "C14", [("io.py", "        np.savetxt(self.file_path, data,\n                   delimiter=delimiter,\n", "        if np.ptp(data[:, 0]) < 1e-3: # keep the columns narrow\n            data = np.array([[float('%.9g' % x) for x in row] for row in data])\n        np.savetxt(self.file_path, data,\n                   delimiter=delimiter,\n")],
'''
import os
import numpy as np
from dispersion import Material, Writer
t = np.array([[400.123456789012e-9, 1.5], [800e-9, 1.7123456789012]])
m = Material(tabulated_n=t, spectrum_type='wavelength', unit='m')
p = os.path.join(os.environ["SCRATCH"], "a.txt")
Writer(p, m).write_file()
r = Material(file_path=p)
assert abs(r.get_nk_data(np.array([800e-9]))[0] - 1.7123456789012) < 1e-12
''', "a text file of a table in metre with many digits", "digits are lost")

S("c15-class-ref", "C15", [("catalogue.py", "        self.make_reference_spectrum(config)\n", "        if getattr(Catalogue, 'reference_spectrum', None) is None:\n            self.make_reference_spectrum(config)\n"), ("catalogue.py", "        self.reference_spectrum = Spectrum(val, spectrum_type=spec_type,\n                                           unit=unit)\n", "        Catalogue.reference_spectrum = Spectrum(val, spectrum_type=spec_type,\n                                                unit=unit)\n")],
'''
import os
from dispersion import Catalogue
d = os.environ["SCRATCH"]
os.makedirs(os.path.join(d, "UserData"))
open(os.path.join(d, "UserData", "a.txt"), "w").write("400 1.5 0.1\\n800 1.9 0.2\\n")
def conf(v):
    return {'Path': d, 'File': 'c.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True, 'RefractiveIndexInfo': False},
            'ReferenceSpectrum': {'Value': v, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}
Catalogue(config=conf(400.), rebuild='All')
c = Catalogue(config=conf(800.), rebuild='All')
assert abs(c.get_database().N_Reference[0] - 1.9) < 1e-9
''', "two catalogues of different reference spectra in one process", "the first reference spectrum is used for all")

S("c15-data-prefix", "C15", [("catalogue.py", "                if os.path.isdir(os.path.join(db_path, 'database','data')):\n                    file_prefix = os.path.join('database','data')\n                elif os.path.isdir(os.path.join(db_path, 'database','data-nk')):\n                    file_prefix = os.path.join('database','data-nk')\n", "                if os.path.isdir(os.path.join(db_path, 'database','data-nk')):\n                    file_prefix = os.path.join('database','data-nk')\n                elif os.path.isdir(os.path.join(db_path, 'database','data')):\n                    file_prefix = os.path.join('database','data')\n")],
'''
import os
from dispersion import Catalogue
d = os.environ["SCRATCH"]
b = os.path.join(d, "RefractiveIndexInfo", "database")
for n, v in (("data", "1.5"), ("data-nk", "9.5")):
    os.makedirs(os.path.join(b, n))
    open(os.path.join(b, n, "x.yml"), "w").write("DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 %s\\n        0.8 %s\\n" % (v, v))
open(os.path.join(b, "library.yml"), "w").write("- SHELF: m\\n  name: M\\n  content:\\n    - BOOK: Ag\\n      name: Silver\\n      content:\\n        - PAGE: P\\n          name: P\\n          data: x.yml\\n")
c = Catalogue(config={'Path': d, 'File': 'c.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'RefractiveIndexInfo': True},
            'ReferenceSpectrum': {'Value': 500., 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}, rebuild='All')
assert abs(c.get_database().N_Reference[0] - 1.5) < 1e-9
''', "a database with both data folders", "pages are read from the outdated folder")

S("c17-contains", "C17", [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n", "        if self.database['Alias'].str.startswith(alias).any():\n")],
'''
import os
from dispersion import Catalogue
d = os.environ["SCRATCH"]
os.makedirs(os.path.join(d, "UserData"))
for n in "ab":
    open(os.path.join(d, "UserData", n + ".txt"), "w").write("400 1.5 0.1\\n800 1.9 0.2\\n")
conf = {'Path': d, 'File': 'c.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True},
            'ReferenceSpectrum': {'Value': 500., 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}
c = Catalogue(config=conf, rebuild='All')
c.register_alias(0, 'gold_film')
c.register_alias(1, 'gold')
''', "an alias which is the beginning of another", "it is rejected as being in use")

S("c18-cache", "C18", [("catalogue.py", "        mat = Material(file_path=file_path,\n                           spectrum_type=row.SpectrumType,\n                           unit=row.Unit)\n        return mat\n", "        key = (file_path, os.path.getmtime(file_path))\n        loaded = self.__dict__.setdefault('_loaded', {})\n        if key not in loaded:\n            loaded[key] = Material(file_path=file_path,\n                                   spectrum_type=row.SpectrumType,\n                                   unit=row.Unit)\n        return loaded[key]\n")],
'''
import os
from dispersion import Catalogue
d = os.environ["SCRATCH"]
os.makedirs(os.path.join(d, "UserData"))
open(os.path.join(d, "UserData", "a.txt"), "w").write("400 1.5 0.1\\n800 1.9 0.2\\n")
conf = {'Path': d, 'File': 'c.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True},
            'ReferenceSpectrum': {'Value': 500., 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}
c = Catalogue(config=conf, rebuild='All')
c.get_material(0).remove_absorption()
assert abs(c.get_material(0).get_nk_data(400., unit='nm').imag - 0.1) < 1e-9
''', "a material changed by the user and looked up again", "the changed object is returned instead of what the file says")

S("c19-skipspace", "C19", [("catalogue.py", "                             dtype=dtypes,\n", "                             dtype=dtypes, skipinitialspace=True,\n")],
'''
import os
from dispersion import Catalogue
d = os.environ["SCRATCH"]
os.makedirs(os.path.join(d, "UserData"))
open(os.path.join(d, "UserData", "a.txt"), "w").write("400 1.5 0.1\\n800 1.9 0.2\\n")
conf = {'Path': d, 'File': 'c.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True},
            'ReferenceSpectrum': {'Value': 500., 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}
c = Catalogue(config=conf, rebuild='All')
c.register_alias(0, ' my alias')
c.save_to_file()
c = Catalogue(config=conf)
assert c.get_database().Alias[0] == ' my alias'
''', "an entry that begins with a blank", "the blank is lost on reload")

S("c20-cache", "C20", [("config.py", "    config = read_yaml_file(file_path)\n    return config\n", "    if file_path not in _KNOWN:\n        _KNOWN[file_path] = read_yaml_file(file_path)\n    return dict(_KNOWN[file_path])\n\n_KNOWN = {}\n"), ("config.py", "    write_yaml_file(file_path, config)\n", "    write_yaml_file(file_path, config)\n    _KNOWN.pop(file_path, None)\n")],
'''
import os, importlib
config = importlib.import_module('dispersion.config')
c = config.default_config()
d = config._get_user_config_dir()
config.write_config(c, dir_path=d)
a = config.get_config()
a['Modules']['UserData'] = False
b = config.get_config()
assert b['Modules']['UserData'] is True, b
''', "the caller changes a nested entry of the record it got", "later reads return the changed record")

S("c21-case", "C21", [("setup_dispersion.py", "XX", "YY")], "", "", "")
SEEDS.pop()

S("c22-strip", "C22", [("catalogue.py", "        ans = input(\"really rebuild and overwrite material catalogue? (y/n) \")\n", "        ans = input(\"really rebuild and overwrite material catalogue? (y/n) \").strip()[:1]\n")],
'''
import os, builtins
import importlib
config = importlib.import_module('dispersion.config')
catalogue = importlib.import_module('dispersion.catalogue')
d = config._get_user_config_dir()
c = config.default_config(); c['Modules'] = {'UserData': True}
config.write_config(c, dir_path=d)
os.makedirs(os.path.join(d, "UserData"))
open(os.path.join(d, "UserData", "a.txt"), "w").write("400 1.5 0.1\\n800 1.9 0.2\\n")
a = iter(["yikes", "n"])
builtins.input = lambda *x: next(a)
catalogue.rebuild_catalogue()
assert not os.path.exists(os.path.join(d, "catalogue.csv"))
''', "an answer which begins with y or n", "it is taken as yes or no")

S("c23-sca", "C23", [("material.py", "        plt.sca(axes)\n", "        if plt.gcf() is not axes.figure:\n            plt.sca(axes)\n")],
'''
import numpy as np
import matplotlib.pyplot as plt
from dispersion import Material
fig, (a, b) = plt.subplots(1, 2)
m = Material(fixed_n=1.5)
m.plot_nk_data(values=np.array([400., 500.]), axes=a)
assert len(a.lines) == 2 and not b.lines
''', "axes which are not the current ones of the current figure", "the curves go to other axes")

