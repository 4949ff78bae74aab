exec(open('/tmp/seedkit/defs6.py').read().split('S("c25-view')[0])
NK = "import numpy as np\nfrom dispersion import Material, Spectrum\n"
S("c01-inplace-buffer", "C01", [("spectrum.py", "            self.values = converted_values\n            self.spectrum_type = spectrum_type\n", "            if isinstance(self.values, np.ndarray) and self.values.dtype == float:\n                self.values[...] = converted_values # no new buffer needed\n            else:\n                self.values = converted_values\n            self.spectrum_type = spectrum_type\n")],
NK + '''
s = Spectrum(np.array([5e-7, 6e-7]))
s.convert_to('wavelength', 'nm', in_place=True)
v = s.convert_to('energy', 'eV')
assert np.allclose(v, [2.479683968, 2.066403307], rtol=1e-6), v
''', "an array in metres converted in place", "the standard representation shares the buffer: all later conversions are wrong")
S("c03-extrap-short", "C03", [("spectral_data.py", "            self.valid_range.contains(spectrum)\n            values = np.asarray(", "            if np.size(spectrum.values) > 1:\n                self.valid_range.contains(spectrum)\n            values = np.asarray(")],
NK + '''
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.3]]))
m.extrapolate(Spectrum(700., unit='nm'))
for v in (800., 300.):
    try: m.get_nk_data(v, unit='nm')
    except ValueError: continue
    raise SystemExit('value outside of the extrapolated range returned')
''', "a scalar beyond an extrapolated range", "values outside the range are returned")
S("c04-imag-order", "C04", [("material.py", "            self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])\n        elif identifier == 'n_alpha':", "            self.data['imag'] = Interpolation(table[:, [0, 2]],\n                                              spectrum_type=self.defaults['spectrum_type'],\n                                              unit=self.defaults['unit']) \\\n                if table.shape[0] > 1 else self._spec_data_from_table(table[:, [0, 2]])\n        elif identifier == 'n_alpha':")],
NK + '''
x = np.linspace(400, 800, 6)
m = Material(tabulated_nk=np.vstack([x, 1e-6*x**2, 2e-6*x**2]).T, interp_order=2)
assert np.isclose(m.get_nk_data(430., unit='nm'), 1e-6*430**2 + 2e-6*430**2*1j, rtol=1e-9)
''', "nk table with a higher interp_order", "the imaginary part is interpolated linearly")
S("c05-herz-cache", "C05", [("spectral_data.py", "        rhs += self.model_parameters[4]*np.power(wavelengths, 4)\n", "        if len(self.model_parameters) > 5 and self.model_parameters[5] == 0:\n            return rhs\n        rhs += self.model_parameters[4]*np.power(wavelengths, 4)\n")],
NK + '''
m = Material(model_kw={'name': 'Herzberger', 'unit': 'um', 'spectrum_type': 'wavelength', 'valid_range': (0.4, 2.), 'parameters': np.array([1., 0.1, 0.01, 0.02, 0.03, 0.])})
assert np.isclose(m.get_nk_data(1., unit='um').real, 1 + 0.1/(1-0.028) + 0.01/(1-0.028)**2 + 0.02 + 0.03)
''', "a Herzberger formula whose last coefficient is zero", "the fourth order term is dropped as well")
S("c05-cauchy-int", "C05", [("spectral_data.py", "            rhs += c_multi*np.power(wavelengths, c_power)\n        ref_index = rhs\n", "            rhs += c_multi*np.power(wavelengths, np.round(c_power))\n        ref_index = rhs\n")],
NK + '''
m = Material(model_kw={'name': 'Cauchy', 'unit': 'um', 'spectrum_type': 'wavelength', 'valid_range': (0.4, 2.), 'parameters': np.array([1.5, 0.01, -2.5])})
assert np.isclose(m.get_nk_data(0.5, unit='um').real, 1.5 + 0.01*0.5**-2.5)
''', "a Cauchy exponent that is not a whole number", "the exponent is rounded")
S("c07-shared-zero", "C07", [("material.py", "        self.data['imag'] = Constant(0.0)\n\n    def extrapolate", "        if isinstance(self.data['imag'], Interpolation):\n            self.data['imag'].data[:, 1] = 0.0\n            self.data['imag'].interpolate_data()\n        else:\n            self.data['imag'] = Constant(0.0)\n\n    def extrapolate")],
NK + '''
m = Material(tabulated_nk=np.array([[400., 1.5, .1], [600., 1.4, .2]]))
k = m.data['imag']
m2 = Material(fixed_n=1.5); m2.data['imag'] = k
m.remove_absorption()
assert m2.get_nk_data(400., unit='nm') == 1.5+.1j
''', "spectral data shared by two materials, absorption removed from one", "the other material loses its absorption, too")
S("c08-order-float", "C08", [("material.py", "        int_types = {int}\n", "        int_types = {int, float}\n")],
NK + '''
try: Material(fixed_n=1.5, interp_order=2.0)
except TypeError: pass
else: raise SystemExit('float order accepted')
''', "interp_order given as float", "no TypeError")
S("c09-large", "C09", [("material.py", "        if max_range[0] == 0.0 or max_range[1] == np.inf:\n", "        if max_range[0] == 0.0 or max_range[1] > 1e15:\n")],
NK + '''
m = Material(tabulated_n=np.array([[8e14, 1.5], [1.2e15, 1.6]]), spectrum_type='frequency', unit='Hz')
m.get_nk_data(m.get_sample_spectrum())
''', "ultraviolet data in Hz or 1/s", "the material is sampled as if it had no bounds")
S("c10-unwrap", "C10", [("spectral_data.py", "        self.base_spectral_data = spectral_data\n", "        if isinstance(spectral_data, Extrapolation):\n            spectral_data = spectral_data.base_spectral_data # no nested splines\n        self.base_spectral_data = spectral_data\n")],
NK + '''
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.3]]))
m.extrapolate(Spectrum(700., unit='nm')); m.extrapolate(Spectrum(300., unit='nm'))
m.get_nk_data(np.array([300., 700.]), unit='nm')
''', "two extrapolations to opposite sides", "the second forgets the first")
S("c11-lossless-host", "C11", [("material.py", "        eps_eff = eps_base*factor_up/factor_down\n", "        eps_eff = eps_base*factor_up/factor_down\n        if np.all(np.imag(eps_base) == 0):\n            eps_eff = np.real(eps_eff)\n")],
NK + '''
import importlib
MaxwellGarnett = importlib.import_module('dispersion.material').MaxwellGarnett
a = Material(fixed_n=1.5); b = Material(fixed_nk=0.2+3j)
m = MaxwellGarnett(Spectrum(np.array([4e-7, 5e-7])), a, b, 0.3)
assert m.get_permittivity(4e-7).imag > 1e-3
''', "absorbing inclusions in a lossless host", "the effective absorption is dropped")
S("c12-dup-comment", "C12", [("io.py", "            if len(kwd_arg) == 1:\n                multi_line_comment += line + \"\\n\"\n", "            if len(kwd_arg) == 1:\n                if line + \"\\n\" not in multi_line_comment:\n                    multi_line_comment += line + \"\\n\"\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write("# one\\n# ----\\n# two\\n# ----\\n400 1.5\\n500 1.6\\n")
assert Material(file_path=p).meta_data['MetaComment'] == " one\\n ----\\n two\\n ----", Material(file_path=p).meta_data
''', "a comment line that occurs twice", "its repetition is dropped")
S("c13-first-unit", "C13", [("material.py", "        if meta_data['Unit']:\n            model_dict['unit'] = meta_data['Unit']\n", "        if meta_data['Unit'] and data_type == 'model':\n            model_dict['unit'] = meta_data['Unit']\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write("DATA:\\n  - type: formula 5\\n    Unit: um\\n    wavelength_range: 0.4 2\\n    coefficients: 1.5 0.01 -2\\n")
m = Material(file_path=p, unit='nm')
assert abs(m.get_nk_data(1., unit='um') - 1.51) < 1e-12
''', "a formula that names its unit, constructor with another one", "the unit of the file is ignored for formulas")
S("c15-page-dedupe", "C15", [("catalogue.py", "                rel_path = os.path.join(file_prefix, page['data'])\n", "                rel_path = os.path.join(file_prefix, page['data'])\n                if any(row['Path'] == os.path.normpath(rel_path)\n                       for row in self.rii_loader['database_list']):\n                    continue\n")],
CATHEAD + '''
d = os.path.join(root, 'RefractiveIndexInfo', 'database'); os.makedirs(os.path.join(d, 'data'))
conf['Modules']['RefractiveIndexInfo'] = True
open(os.path.join(d, 'data', 'a.yml'), 'w').write("DATA:\\n  - type: formula 5\\n    wavelength_range: 0.4 2\\n    coefficients: 1.5 0.01 -2\\n")
open(os.path.join(d, 'catalog-nk.yml'), 'w').write("""
- SHELF: main
  name: M
  content:
    - BOOK: A
      name: Aa
      content:
        - {PAGE: p, name: p, data: a.yml}
    - BOOK: B
      name: Bb
      content:
        - {PAGE: q, name: q, data: a.yml}
""")
cat = C.Catalogue(config=conf, rebuild='All')
assert list(cat.get_database().Name) == ['A', 'B'], cat.get_database()
''', "two pages of the library with the same data file", "only the first page is listed")
S("c16-empty-keep", "C16", [("catalogue.py", "                    dframe = read_function(dir_path)\n", "                    dframe = read_function(dir_path)\n                    if dframe.empty:\n                        dframe = df[df.Module == module]\n")],
CATHEAD + '''
put('a.txt')
cat = C.Catalogue(config=conf, rebuild='All'); cat.save_to_file()
os.remove(os.path.join(root, 'UserData', 'a.txt'))
cat = C.Catalogue(config=conf, rebuild='UserData')
assert len(cat.get_database()) == 0
''', "rebuilding a module that has become empty", "the rows of the removed files are kept")
S("c17-rollback", "C17", [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n            if not self.database.at[index, 'Alias'] == alias:\n                raise ValueError(", "        previous = self.database.at[index, 'Alias']\n        if alias in self.database.loc[:, 'Alias'].values:\n            if not previous == alias:\n                self.database.at[index, 'Alias'] = \"\"\n                raise ValueError(")],
CATHEAD + '''
put('a.txt'); put('b.txt')
cat = C.Catalogue(config=conf, rebuild='All')
cat.register_alias(0, 'x'); cat.register_alias(1, 'y')
try: cat.register_alias(1, 'x')
except ValueError: pass
assert cat.get_database().loc[1, 'Alias'] == 'y'
''', "a refused registration on a row that has an alias", "the row loses its alias")
S("c18-alias-map", "C18", [("catalogue.py", "        if isinstance(identifier, str):\n            bool_array = self.database.Alias.values == identifier\n            row_index = np.flatnonzero(bool_array)\n", "        if isinstance(identifier, str):\n            known = getattr(self, '_alias_rows', None)\n            if known is None or known[0] != list(self.database.Alias):\n                known = (list(self.database.Alias), self.database)\n                self._alias_rows = known\n            bool_array = known[1].Alias.values == identifier\n            row_index = np.flatnonzero(bool_array)\n"),
   ("catalogue.py", "            row = self.database.iloc[row_index[0], :]\n", "            row = known[1].iloc[row_index[0], :]\n")],
CATHEAD + '''
put('a.txt', '400 1.5\\n600 1.5\\n'); put('b.txt', '400 2.5\\n600 2.5\\n')
cat = C.Catalogue(config=conf, rebuild='All')
cat.register_alias(0, 'x')
cat.get_material('x')
df = cat.get_database().copy(); p = list(df.Path); df['Path'] = p[::-1]
want = {'a.txt': 1.5, 'b.txt': 2.5}[p[1]]
cat.set_database(df)
assert cat.get_material('x').get_nk_data(500., unit='nm') == want
''', "a replaced database whose alias column is the same", "alias lookups use the former database")
S("c19-snapshot", "C19", [("catalogue.py", "        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n                             index=False, index_label='Index')\n", "        saved = getattr(self, '_saved', None)\n        if saved is not None and saved.equals(self.database):\n            return # nothing new\n        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n                             index=False, index_label='Index')\n        self._saved = self.database.copy()\n")],
CATHEAD + '''
put('a.txt'); put('b.txt')
one = C.Catalogue(config=conf, rebuild='All'); one.save_to_file()
two = C.Catalogue(config=conf); two.register_alias(0, 'x'); two.save_to_file()
one.save_to_file()
assert list(C.Catalogue(config=conf).get_database().Alias) == ['', '']
''', "two catalogue objects saving to the same file in turns", "the second save of the first one is skipped")
S("c20-isdir-empty", "C20", [("config.py", "    if not os.path.isdir(config['Path']):\n", "    if not os.path.isdir(os.path.expanduser(config['Path'])):\n")],
'''
import os, importlib
config = importlib.import_module('dispersion.config')
os.makedirs(os.path.join(os.environ['HOME'], 'db'))
c = config.default_config(); c['Path'] = '~/db'
try: config.validate_config(c)
except Exception: pass
else: raise SystemExit('a path that does not exist was accepted')
''', "a path starting with ~", "a path that is no directory is accepted")
S("c22-partial", "C22", [("catalogue.py", "    cat = Catalogue(rebuild='All')\n\n    cat.save_to_file()\n", "    config = get_config()\n    cat = Catalogue(config=config, rebuild=[name for name, on in\n                                            config['Modules'].items() if on])\n\n    cat.save_to_file()\n")],
'''
import os, importlib, builtins, warnings
warnings.simplefilter('ignore')
C = importlib.import_module('dispersion.catalogue'); config = importlib.import_module('dispersion.config')
root = os.path.join(os.environ['SCRATCH'], 'db'); os.makedirs(os.path.join(root, 'UserData'))
open(os.path.join(root, 'UserData', 'a.txt'), 'w').write('400 1.5\\n600 1.4\\n')
conf = {'Path': root, 'File': 'c.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True},
        'ReferenceSpectrum': {'Value': 500., 'SpectrumType': 'wavelength', 'Unit': 'nm'}}
config.write_config(conf, dir_path=config._get_user_config_dir())
builtins.input = lambda q='': 'y'
C.rebuild_catalogue()
assert len(C.Catalogue(config=conf).get_database()) == 1
''', "no catalogue file yet", "the rebuild needs the file it is to write")
S("c23-sort-x", "C23", [("material.py", "            plt.plot(spectrum.values, data_r, label=labels[0])\n", "            spectrum.values.sort()\n            plt.plot(spectrum.values, data_r, label=labels[0])\n")],
NK + '''
import matplotlib.pyplot as plt
m = Material(tabulated_nk=np.array([[400., 1.5, .1], [600., 1.4, .2]]))
m.plot_nk_data(values=np.array([600., 400.]), spectrum_type='wavelength', unit='nm')
l = plt.gca().lines[0]
assert dict(zip(l.get_xdata(), l.get_ydata()))[600.] == 1.4
''', "values that are not ascending", "y values belong to other x values")
S("c25-stale-widget", "C25", [("catalogue.py", "        grid_options = {'editable':True}\n        self.qgrid_widget = self.make_qgrid(", "        grid_options = {'editable':True}\n        if getattr(self, '_edited', None) is self.database:\n            return self.qgrid_widget\n        self._edited = self.database\n        self.qgrid_widget = self.make_qgrid(")],
CATHEAD + '''
put('a.txt'); conf['Interactive'] = True
cat = C.Catalogue(config=conf, rebuild='All')
cat.edit_interactive()
cat.register_alias(0, 'x')
assert list(cat.edit_interactive().get_changed_df().Alias) == ['x']
''', "an alias registered between two calls of edit_interactive", "the second widget shows the former table")
S("c26-finite", "C26", [("spectrum.py", "        other_values = other.convert_to(self.spectrum_type, self.unit)\n", "        other_values = other.convert_to(self.spectrum_type, self.unit)\n        if isinstance(other_values, np.ndarray) and np.any(np.isfinite(other_values)):\n            other_values = other_values[np.isfinite(other_values)]\n")],
NK + '''
s = Spectrum(np.array([400., 800.]), unit='nm')
try: s.contains(Spectrum(np.array([500., np.inf]), unit='nm'))
except ValueError: pass
else: raise SystemExit('infinity contained')
''', "an infinite element", "infinite values are ignored")
S("c27-sorted-none", "C27", [("io.py", "            yaml.dump(dict_like, fpt)\n", "            yaml.dump({k: v for k, v in dict_like.items() if v is not None}\n                      if isinstance(dict_like, dict) else dict_like, fpt)\n")],
'''
import os, importlib
io = importlib.import_module('dispersion.io')
p = os.path.join(os.environ['SCRATCH'], 'd.yml')
io.write_yaml_file(p, {'a': 1, 'b': None})
assert io.read_yaml_file(p) == {'a': 1, 'b': None}
''', "a null on the top level", "the key is lost")
S("c28-lines", "C28", [("material.py", "        print(self.utf8_to_ascii(self.meta_data['Reference']))\n", "        print(*self.utf8_to_ascii(self.meta_data['Reference']).splitlines(), sep=\"\\n\")\n")],
'''
import io, contextlib
from dispersion import Material
m = Material(fixed_n=1.5)
for t in ("one\\n", "a\\x0cb", "a\\rb"):
    m.meta_data['Reference'] = t
    o = io.StringIO()
    with contextlib.redirect_stdout(o): m.print_reference()
    assert o.getvalue() == t + "\\n", (t, o.getvalue())
''', "a reference that ends with a line end or holds a form feed", "control characters are changed")
S("c02-alias-wrong", "C02", [("spectrum.py", "            if (unit in aliases and\n", "            if ((unit in aliases or unit.rstrip('s') in aliases) and\n")],
NK + '''
try: Spectrum(1.0, 'frequency', 'hzs')
except ValueError: pass
else: raise SystemExit('hzs accepted')
''', "a unit followed by s", "unknown units are accepted")
