exec(open('/tmp/seedkit/defs6.py').read().split('S("c25-view')[0])
NK = "import numpy as np\nfrom dispersion import Material, Spectrum\n"
S("c01-ev-round", "C01", [("spectrum.py", "    inverse = safe_inverse(values)\n    return 2*np.pi*constants.c*inverse\n", "    inverse = safe_inverse(values)\n    return np.round(2*np.pi*constants.c*inverse)\n")],
NK + '''
s = Spectrum(1e9, unit='m')
assert np.isclose(s.convert_to('angularfrequency', '1/s'), 1.8836515673088535, rtol=1e-9)
''', "angular frequencies of a few 1/s", "they are rounded to whole numbers")
S("c05-zero-first", "C05", [("spectral_data.py", "        loss = self.model_parameters[3] # loss in eV\n", "        loss = self.model_parameters[3] # loss in eV\n        if w_res == 0: # free carriers only\n            pol_str = 1.0\n")],
NK + '''
m = Material(model_kw={'name': 'DrudeLorentz', 'unit': 'ev', 'spectrum_type': 'energy', 'valid_range': (0.4, 4.), 'parameters': np.array([3., .5, 0., .1])})
e = m.get_permittivity(2., spectrum_type='energy', unit='ev')
assert np.isclose(e, 1 + np.conj(.5*9/(-4+1j*.1*2))), e
''', "a Lorentz pole at zero energy with a strength other than 1", "the strength is ignored")
S("c05-poly-neg", "C05", [("spectral_data.py", "            rhs += c_multi*np.power(wavelengths, c_power)\n        ref_index = rhs\n", "            rhs += c_multi*np.power(wavelengths, -abs(c_power))\n        ref_index = rhs\n")],
NK + '''
m = Material(model_kw={'name': 'Cauchy', 'unit': 'um', 'spectrum_type': 'wavelength', 'valid_range': (0.4, 2.), 'parameters': np.array([1.5, 0.01, -2., .02, 2.])})
assert np.isclose(m.get_nk_data(0.5, unit='um').real, 1.5 + 0.01/.25 + .02*.25)
''', "a Cauchy formula with positive exponents", "they are taken as negative")
S("c06-last-eval", "C06", [("spectral_data.py", "        values = np.clip(values, np.min(self.valid_range.values),\n                         np.max(self.valid_range.values))\n        return self.interpolation(values)\n", "        values = np.clip(values, np.min(self.valid_range.values),\n                         np.max(self.valid_range.values))\n        last = getattr(self, '_last', None)\n        if (last is not None and np.shape(last[0]) == np.shape(values) and\n                np.sum(last[0]) == np.sum(values)):\n            return last[1].copy()\n        result = self.interpolation(values)\n        self._last = (values, result)\n        return result\n")],
NK + '''
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.9]]))
a = m.get_nk_data(np.array([420., 560.]), unit='nm')
b = m.get_nk_data(np.array([560., 420.]), unit='nm')
assert np.allclose(a, b[::-1]) and not np.allclose(a, b)
''', "two queries in a row with the same sum", "the previous result is returned")
S("c07-weak-loss", "C07", [("material.py", "        if self.data['name'] == 'eps':\n            complex_val = np.sqrt(complex_val)\n        return complex_val\n", "        if self.data['name'] == 'eps':\n            size = np.abs(complex_val)\n            real = np.sqrt(0.5*(size + np.real(complex_val)))\n            imag = np.sqrt(np.maximum(0.5*(size - np.real(complex_val)), 0.0))\n            complex_val = real + 1j*np.where(np.imag(complex_val) < 0, -imag, imag)\n            if complex_val.ndim == 0:\n                complex_val = complex_val[()]\n        return complex_val\n")],
NK + '''
m = Material(fixed_eps=2.25+1e-9j)
assert np.isclose(m.get_nk_data(500., unit='nm').imag, 1e-9/3, rtol=1e-6, atol=0)
''', "a permittivity with very weak absorption", "the absorption of the refractive index is lost in cancellation")
S("c09-imag-first", "C09", [("material.py", "            imag_upper = np.max(imag_range_std)\n", "            imag_upper = imag_range_std[-1]\n"), ("material.py", "            imag_lower = np.min(imag_range_std)\n", "            imag_lower = imag_range_std[0]\n")],
NK + '''
from dispersion import Interpolation
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.9]]))
m.data['imag'] = Interpolation(np.array([[1.5, .1], [2.5, .2], [4., .3]]), spectrum_type='energy', unit='ev')
r = m.get_maximum_valid_range()
assert np.allclose(r, [400., 600.]), r
''', "an imaginary part tabulated against energy", "its bounds are swapped")
S("c10-near-end", "C10", [("spectral_data.py", "        if extrap_val < base_range[0]:\n", "        if extrap_val < base_range[0] and extrap_val > 0.5*base_range[0]:\n            base_range[0] = extrap_val\n        elif extrap_val < base_range[0]:\n            extrap_val = 0.5*base_range[0] # a spline is useless further out\n")],
NK + '''
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.3], [700., 1.2]]))
m.extrapolate(Spectrum(150., unit='nm'))
assert np.isclose(m.get_maximum_valid_range()[0], 150.)
''', "extrapolation to less than half of the lower bound", "the range does not reach the value asked for")
S("c11-equal-mats", "C11", [("material.py", "        self.create_effective_data()\n\n    def create_effective_data", "        if self.mat1 == self.mat2:\n            self.mat2 = self.mat1\n        self.create_effective_data()\n\n    def create_effective_data")],
NK + '''
from dispersion.material import Simple
a, b = Material(fixed_eps=2.+0j), Material(fixed_eps=4.+0j)
s = Spectrum(np.array([400., 500., 600.]), unit='nm')
assert np.allclose(Simple(s, a, b, 0.5).get_permittivity(s), 3.)
''', "two materials with equal metadata", "the second one is ignored")
S("c12-blank", "C12", [("io.py", "                else:\n                    return comment\n        return comment\n", "                elif line.isspace():\n                    continue\n                else:\n                    return comment\n        return comment\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write('# NAME: x\\n\\n# NAME: y\\n400 1.5\\n600 1.4\\n')
assert Material(file_path=p).meta_data['Name'] == 'x'
''', "comment lines after a blank line", "they are taken as part of the header")
S("c13-upper-type", "C13", [("io.py", "                data_type = dataset['type'].lstrip()\n", "                data_type = dataset['type'].strip().lower()\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write('DATA:\\n  - type: model Sellmeier\\n    range: 0.4 2\\n    Unit: um\\n    SpectrumType: wavelength\\n    coefficients: 0 1 0.1\\n')
Material(file_path=p)
''', "a model named under the key type", "the model name is not found any more")
S("c15-hidden", "C15", [("catalogue.py", "            if ext not in allowed_ext:\n", "            if ext not in allowed_ext or name.startswith(('.', '_')):\n")],
CATHEAD + '''
put('_a.txt'); put('.b.txt'); put('c.txt')
assert sorted(C.Catalogue(config=conf, rebuild='All').get_database().Path) == ['.b.txt', '_a.txt', 'c.txt']
''', "file names starting with a dot or an underscore", "they are left out of the catalogue")
S("c15-ref-scalar", "C15", [("catalogue.py", "            try:\n                ref_index = mat.get_nk_data(self.reference_spectrum)\n", "            try:\n                self.reference_spectrum.convert_to('wavelength', mat.defaults['unit'], in_place=True)\n                ref_index = mat.get_nk_data(self.reference_spectrum)\n")],
CATHEAD + '''
put('a.txt'); put('b.txt', '# SPECTRUMTYPE: energy\\n# UNIT: eV\\n2 1.5\\n3 1.4\\n')
df = C.Catalogue(config=conf, rebuild='All').get_database()
assert not df.N_Reference.isna().any()
''', "a user file given against energy", "its reference index is NaN though it can be evaluated")
S("c16-first-only", "C16", [("catalogue.py", "                if module in rebuild or rebuild == 'All':\n", "                if module == rebuild or rebuild == 'All' or module in rebuild[:1]:\n")],
CATHEAD + '''
put('a.txt'); os.makedirs(os.path.join(root, 'Filmetrics')); conf['Modules']['Filmetrics'] = True
C.Catalogue(config=conf, rebuild='All').save_to_file()
put('b.txt'); open(os.path.join(root, 'Filmetrics', 'f.txt'), 'w').write('400 1.5\\n600 1.4\\n')
assert sorted(C.Catalogue(config=conf, rebuild=['UserData', 'Filmetrics']).get_database().Path) == ['a.txt', 'b.txt', 'f.txt']
''', "a rebuild of several modules", "only the first one named is rebuilt")
S("c17-numeric", "C17", [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n", "        if alias in self.database.loc[:, 'Alias'].iloc[:index if index else None].values:\n")],
CATHEAD + '''
put('a.txt'); put('b.txt'); put('c.txt')
cat = C.Catalogue(config=conf, rebuild='All'); cat.register_alias(2, 'x')
try: cat.register_alias(1, 'x')
except ValueError: pass
else: raise SystemExit('twice')
''', "an alias that is used further down the table", "it is given to a second row")
S("c18-unit-cache", "C18", [("catalogue.py", "        mat = Material(file_path=file_path,\n                           spectrum_type=row.SpectrumType,\n                           unit=row.Unit)\n        return mat\n", "        units = self.__dict__.setdefault('_units', {})\n        unit = units.setdefault((row.Module, row.Path), (row.SpectrumType, row.Unit))\n        mat = Material(file_path=file_path,\n                           spectrum_type=unit[0],\n                           unit=unit[1])\n        return mat\n")],
CATHEAD + '''
put('a.txt', '0.4 1.5\\n0.6 1.4\\n')
cat = C.Catalogue(config=conf, rebuild='All'); cat.get_material(0)
df = cat.get_database().copy(); df.loc[0, 'Unit'] = 'micrometer'; cat.set_database(df)
assert np.allclose(cat.get_material(0).get_nk_data(500., unit='nm'), 1.45)
''', "a row whose unit is changed between two lookups", "the old unit is used")
S("c19-long", "C19", [("catalogue.py", "        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n", "        texts = [c for c, t in Catalogue.META_DATA.items() if t is str]\n        self.database[texts] = self.database[texts].map(lambda t: t[:4000])\n        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n")],
CATHEAD + '''
put('a.txt', '# COMMENT: ' + 'x'*9000 + '\\n400 1.5\\n600 1.4\\n')
C.Catalogue(config=conf, rebuild='All').save_to_file()
assert len(C.Catalogue(config=conf).get_database().Comment[0]) == 9000
''', "texts of more than 4000 characters", "they are cut when saving")
S("c20-nested", "C20", [("config.py", "    for value in config['Modules'].values():\n        check_type(value,bool)\n", "    for name, value in config['Modules'].items():\n        if name in ('UserData', 'RefractiveIndexInfo', 'Filmetrics'):\n            check_type(value,bool)\n")],
CATHEAD + '''
cfg = importlib.import_module('dispersion.config')
conf['Modules']['Mine'] = 'yes'
try: cfg.validate_config(conf)
except Exception: pass
else: raise SystemExit('accepted')
''', "a module of another name whose value is not boolean", "it is accepted")
S("c21-normpath", "C21", [("scripts/setup_dispersion.py", "    conf['Path'] = path\n", "    conf['Path'] = os.path.realpath(path)\n")],
'''
import os, sys, importlib, builtins
S = importlib.import_module('dispersion.scripts.setup_dispersion')
cfg = importlib.import_module('dispersion.config')
d = os.environ['SCRATCH']; os.environ['HOME'] = d
os.makedirs(os.path.join(d, 'real')); os.symlink(os.path.join(d, 'real'), os.path.join(d, 'link'))
a = iter([os.path.join(d, 'link'), 'y', 'c.csv', 'y', 'n', 'n'])
builtins.input = lambda q='': next(a)
S.main()
assert cfg.get_config()['Path'] == os.path.join(d, 'link')
''', "a root directory given through a symbolic link", "another path than the confirmed one is stored")
S("c22-eof", "C22", [("catalogue.py", "        ans = input(\"really rebuild and overwrite material catalogue? (y/n) \")\n", "        try:\n            ans = input(\"really rebuild and overwrite material catalogue? (y/n) \")\n        except EOFError: # not interactive\n            ans = 'y'\n")],
CATHEAD + '''
import builtins
cfg = importlib.import_module('dispersion.config')
os.environ['HOME'] = os.environ['SCRATCH']
cfg.write_config(conf, dir_path=cfg._get_user_config_dir())
put('a.txt'); C.Catalogue(config=conf, rebuild='All').save_to_file(); put('b.txt')
def inp(q=''): raise EOFError
builtins.input = inp
try: C.rebuild_catalogue()
except EOFError: pass
assert len(C.Catalogue(config=conf).get_database()) == 1
''', "no terminal to ask", "the catalogue is overwritten without a yes")
S("c25-reset", "C25", [("catalogue.py", "        self.database = self.qgrid_widget.get_changed_df()\n", "        self.database = self.qgrid_widget.get_changed_df()\n        self.qgrid_widget = self.make_qgrid(self.database, show_toolbar=True,\n                                            precision=3,\n                                            grid_options={'editable':True})\n")],
CATHEAD + '''
put('a.txt'); conf['Interactive'] = True
cat = C.Catalogue(config=conf, rebuild='All')
w = cat.edit_interactive(); w.df.loc[0, 'Author'] = 'me'; cat.save_interactive()
w.df.loc[0, 'Author'] = 'you'; cat.save_interactive()
assert cat.get_database().Author[0] == 'you'
''', "edits in the same grid after a first save", "they are dropped")
S("c26-nan-edge", "C26", [("spectrum.py", "        self_min = np.min(self.values)\n", "        self_min = np.min(np.abs(self.values))\n")],
NK + '''
a = Spectrum(np.array([-1., 2.]), unit='nm'); b = Spectrum(np.array([-.5, 1.]), unit='nm')
assert a.contains(b)
''', "spectra with negative values", "a contained spectrum is refused")
S("c27-tab", "C27", [("io.py", "            yaml.dump(dict_like, fpt)\n", "            yaml.dump(dict_like, fpt, default_flow_style=None, sort_keys=False, width=10**6, allow_unicode=True, line_break='\\r')\n")],
'''
import os
io = __import__('dispersion.io', fromlist=['x'])
p = os.path.join(os.environ['SCRATCH'], 'a.yaml')
d = {'a': 'x\\ny', 'b': ' lead\\n\\ntrail ', 'c': 'q\\u0085r'}
io.write_yaml_file(p, d)
assert io.read_yaml_file(p) == d, io.read_yaml_file(p)
''', "text with unusual line ends", "they are read back differently")
S("c28-tabs", "C28", [("material.py", "        ascii_str = codecs.decode(uni_str, 'ascii', 'ignore')\n", "        ascii_str = codecs.decode(uni_str, 'ascii', 'ignore').expandtabs()\n")],
'''
import io, contextlib
from dispersion import Material
m = Material(fixed_n=1.5); m.meta_data['Reference'] = 'a\\tb'
s = io.StringIO()
with contextlib.redirect_stdout(s): m.print_reference()
assert s.getvalue() == 'a\\tb\\n', s.getvalue()
''', "a tab in the text", "it is replaced by blanks")
S("c02-display", "C02", [("spectrum.py", "        type_str = self.spectrum_type\n", "        type_str = self.spectrum_type.replace('angularfrequency', 'frequency')\n")],
NK + '''
assert Spectrum(1e15, 'angularfrequency', '1/s').get_type_unit_string().startswith('angularfrequency')
''', "the label of an angular frequency", "it is labelled as frequency")
