exec(open('/tmp/seedkit/defs6.py').read().split('S("c25-view')[0])
NK = "import numpy as np\nfrom dispersion import Material, Spectrum\n"
S("c01-one-inplace", "C01", [("spectrum.py", "        if in_place:\n            self.values = converted_values\n", "        if in_place:\n            if np.size(converted_values) == 1:\n                converted_values = float(np.squeeze(converted_values))\n            self.values = converted_values\n")],
NK + '''
s = Spectrum(np.array([500.]), unit='nm')
s.convert_to('energy', 'ev', in_place=True)
assert np.shape(s.values) == (1,), s.values
''', "an in-place conversion of a spectrum of one element", "it becomes a scalar")
S("c02-strip", "C02", [("spectrum.py", "            if (unit in aliases and\n", "            if (unit.strip() in aliases and\n")],
NK + '''
try:
    Spectrum(500., unit=' nm')
except ValueError: pass
else: raise SystemExit(1)
''', "a unit name with blanks around it", "it is accepted though unknown")
S("c03-neg-constant", "C03", [("spectral_data.py", "        self.valid_range.contains(spectrum)\n        if isinstance(spectrum.values, (list, tuple, np.ndarray)):\n            return self.constant * np.ones(len(spectrum.values))\n", "        if np.isfinite(np.max(self.valid_range.values)):\n            self.valid_range.contains(spectrum)\n        if isinstance(spectrum.values, (list, tuple, np.ndarray)):\n            return self.constant * np.ones(len(spectrum.values))\n")],
NK + '''
try:
    Material(fixed_n=1.5).get_nk_data(np.array([500., -5.]), unit='nm')
except ValueError: pass
else: raise SystemExit(1)
''', "a negative wavelength and a constant", "a value is returned outside of the valid range (0, inf)")
S("c04-gap", "C04", [("spectral_data.py", "        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],\n                                      kind=self.interp_order)\n", "        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],\n                                      kind=min(self.interp_order, 3))\n")],
NK + '''
x = np.arange(1., 9.)
m = Material(tabulated_n=np.array([100*x, 1+1e-3*x**5]).T, interp_order=5)
assert np.isclose(m.get_nk_data(450., unit='nm').real, 1+1e-3*4.5**5, rtol=1e-9)
''', "an interpolation order of four or five", "cubic splines are used")
S("c05-many", "C05", [("spectral_data.py", "        for iterc in range(len(self.model_parameters[1::2])):\n            cupper = self.model_parameters[iterc*2+1]\n            clower = self.model_parameters[iterc*2+2]\n            rhs += cupper*wvlsq/(wvlsq-clower)\n", "        for iterc in range(len(self.model_parameters[1:15:2])):\n            cupper = self.model_parameters[iterc*2+1]\n            clower = self.model_parameters[iterc*2+2]\n            rhs += cupper*wvlsq/(wvlsq-clower)\n")],
NK + '''
p = [0.] + [.3, .01]*8
m = Material(model_kw={'name': 'Sellmeier2', 'unit': 'um', 'spectrum_type': 'wavelength', 'valid_range': (0.4, 2.), 'parameters': np.array(p)})
assert np.isclose(m.get_nk_data(1., unit='um').real, np.sqrt(1+8*.3/.99))
''', "a Sellmeier formula with eight terms", "the eighth is ignored")
S("c06-id-cache", "C06", [("spectral_data.py", "        self.valid_range.contains(spectrum)\n        values = spectrum.convert_to(self.spectrum_type, self.unit)\n        values = np.clip(", "        self.valid_range.contains(spectrum)\n        seen = self.__dict__.setdefault('_seen', {})\n        name = (id(spectrum.standard_rep), np.size(spectrum.values))\n        if np.size(spectrum.values) > 2 and name in seen:\n            return seen[name].copy()\n        values = spectrum.convert_to(self.spectrum_type, self.unit)\n        if np.size(values) > 2:\n            seen[name] = self.interpolation(np.clip(values, np.min(self.valid_range.values), np.max(self.valid_range.values)))\n        values = np.clip(")],
NK + '''
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.9]]))
for i in range(300):
    x = np.array([410., 420., 430.]) + .5*i
    assert np.allclose(m.get_nk_data(x, unit='nm').real, np.interp(x, [400, 500, 600], [1.5, 1.4, 1.9])), i
''', "a spectrum whose memory is used again by another one", "the values of the earlier spectrum are returned")
S("c08-zero", "C08", [("material.py", "            if arg in args and args[arg] is not None:\n                if arg in mutually_exclusive:\n                    n_mutually_exclusive += 1\n", "            if arg in args and args[arg] is not None:\n                if arg in mutually_exclusive and (not isinstance(args[arg], (float, complex)) or args[arg]):\n                    n_mutually_exclusive += 1\n")],
NK + '''
assert Material(fixed_n=0.0).get_nk_data(1.) == 0
''', "a fixed value of zero", "it counts as not given")
S("c09-rev", "C09", [("material.py", "        if not Spectrum.check_type(self.defaults['spectrum_type'],\n                                   'wavelength'):\n            max_range = max_range[::-1]", "        if Spectrum.check_type(self.defaults['spectrum_type'], 'energy') or \\\n                Spectrum.check_type(self.defaults['spectrum_type'], 'frequency') or \\\n                Spectrum.check_type(self.defaults['spectrum_type'], 'angularfrequency'):\n            max_range = max_range[::-1]")],
NK + '''
m = Material(tabulated_n=np.array([[1e4, 1.5], [2e4, 1.4]]), spectrum_type='wavenumber', unit='1/cm')
r = m.get_maximum_valid_range()
assert r[0] <= r[1]
''', "a material defined against wavenumbers", "its range is reported upside down")
S("c10-flatten", "C10", [("spectral_data.py", "        self.base_spectral_data = spectral_data\n        self.spline_order = spline_order\n", "        if (isinstance(spectral_data, Extrapolation) and\n                spectral_data.spline_order == spline_order):\n            # the values beyond the data are those of the same spline\n            spectral_data, spectral_data_range = spectral_data.base_spectral_data, spectral_data.valid_range\n        self.base_spectral_data = spectral_data\n        self.spline_order = spline_order\n")],
NK + '''
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.3], [700., 1.2]]))
m.extrapolate(Spectrum(300., unit='nm'))
m.extrapolate(Spectrum(900., unit='nm'))
assert np.allclose(m.get_maximum_valid_range(), [300., 900.])
''', "extrapolating twice with the same order", "the first extension is lost")
S("c11-array-frac", "C11", [("material.py", "        factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl\n", "        factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl\n        if self.frac < 1e-3: # dilute\n            factor_up = factor_down + 3*self.frac*(eps_incl-eps_base)*factor_down/(2*eps_base+eps_incl)\n")],
NK + '''
from dispersion.material import MaxwellGarnett
a, b = Material(fixed_eps=2.+0j), Material(fixed_eps=-3.9+.3j)
s = Spectrum(np.array([400., 500., 600.]), unit='nm')
f = 9e-4
want = 2*(2*(1-f)*2+(1+2*f)*(-3.9+.3j))/((2+f)*2+(1-f)*(-3.9+.3j))
assert np.allclose(MaxwellGarnett(s, a, b, f).get_permittivity(s), want, rtol=1e-7)
''', "a very small filling fraction", "an approximation to first order is used")
S("c12-inline", "C12", [("io.py", "                if line[0] == \"#\" or line[0] == ';':\n", "                line = line.lstrip() or line\n                if line[0] == \"#\" or line[0] == ';':\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write('# NAME: x\\n  \\n  # NAME: y\\n400 1.5\\n600 1.4\\n')
assert Material(file_path=p).meta_data['Name'] == 'x'
open(p, 'w').write('# NAME: x\\n  # NAME: y\\n400 1.5\\n600 1.4\\n')
assert Material(file_path=p).meta_data['Name'] == 'x', Material(file_path=p).meta_data
''', "an indented comment line after the header", "it counts as a header line")
S("c13-spec-text", "C13", [("io.py", "                file_dict['MetaData']['Specification'] = arg\n            if valid is False:\n", "                file_dict['MetaData']['Specification'] = {k: v for k, v in arg.items() if v}\n            if valid is False:\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write('SPECS:\\n    n_absolute: false\\n    temperature: 0\\nDATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.6 1.4\\n')
assert Material(file_path=p, unit='um').meta_data['Specification'] == {'n_absolute': False, 'temperature': 0}
''', "specifications which are false or zero", "they are dropped")
S("c13-sci", "C13", [("material.py", "            coefficients[iter_coeff] = float(coeff)\n", "            coefficients[iter_coeff] = float(coeff) if abs(float(coeff)) > 1e-12 else 0.0\n")],
'''
import os, numpy as np
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write('DATA:\\n  - type: formula 5\\n    wavelength_range: 0.1 1.0\\n    coefficients: 1.5 4.0e-13 -10\\n')
assert np.isclose(Material(file_path=p, unit='um').get_nk_data(.1, unit='um').real, 1.5 + 4e-13*1e10, rtol=1e-9)
''', "tiny coefficients of high powers", "they are set to zero")
S("c14-nan-value", "C14", [("io.py", "                for key, val in specs.items():\n                    if spec_key == key:\n                        yaml_spec[spec_key] = val\n", "                for key, val in specs.items():\n                    if spec_key == key.lower():\n                        yaml_spec[spec_key] = val\n")],
'''
import os, numpy as np
from dispersion import Material, Writer
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4]]))
m.meta_data['Specification'] = {'Temperature': 1}
Writer(p, m).write_file()
assert Material(file_path=p).meta_data['Specification'] == {'Temperature': 1}, Material(file_path=p).meta_data
''', "a specification whose key differs in case from a known one", "it is written twice")
S("c15-ref-range", "C15", [("catalogue.py", "            except ValueError as valE:\n                ref_index = float('nan') + 1j* float('nan')\n", "            except ValueError as valE:\n                ref_index = float('nan') + 1j* float('nan')\n                mat.remove_absorption()\n                try:\n                    ref_index = complex(np.real(mat.get_nk_data(self.reference_spectrum)), float('nan'))\n                except ValueError:\n                    pass\n")],
CATHEAD + '''
put('a.yml', 'DATA:\\n  - DataType: model Sellmeier\\n    SpectrumType: wavelength\\n    Unit: um\\n    ValidRange: 0.3 2.0\\n    Parameters: 0.0 1.0 0.1\\n  - DataType: tabulated k\\n    SpectrumType: wavelength\\n    Unit: nm\\n    Data: |\\n        600 0.1\\n        700 0.2\\n')
cat = C.Catalogue(config=conf, rebuild='All')
assert np.isnan(cat.get_database().N_Reference[0]) and np.isnan(cat.get_database().K_Reference[0])
''', "a reference inside the range of n but not of k", "n is given although the reference is outside of the valid range")
S("c16-empty", "C16", [("catalogue.py", "                if not dframe.empty:\n                    dframes.append(dframe)\n", "                if dframe.empty and rebuild != 'All':\n                    dframe = df[df.Module == module]\n                if not dframe.empty:\n                    dframes.append(dframe)\n")],
CATHEAD + '''
put('a.txt')
conf['Modules']['Filmetrics'] = True
os.makedirs(os.path.join(root, 'Filmetrics'))
open(os.path.join(root, 'Filmetrics', 'f.txt'), 'w').write('400 1.5\\n600 1.4\\n')
C.Catalogue(config=conf, rebuild='All').save_to_file()
os.remove(os.path.join(root, 'UserData', 'a.txt'))
cat = C.Catalogue(config=conf, rebuild='UserData')
assert list(cat.get_database().Module) == ['Filmetrics'], cat.get_database().Module
''', "rebuilding a module whose last file was removed", "its old rows stay")
S("c17-float-label", "C17", [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n            if not self.database.at[index, 'Alias'] == alias:\n", "        if alias in self.database.loc[:, 'Alias'].values:\n            row = self.database.loc[index]\n            holder = self.database[self.database.Alias == alias].iloc[0]\n            if not (holder.Name, holder.Path) == (row.Name, row.Path):\n")],
CATHEAD + '''
conf['Modules']['Filmetrics'] = True
os.makedirs(os.path.join(root, 'Filmetrics'))
put('a.txt')
open(os.path.join(root, 'Filmetrics', 'a.txt'), 'w').write('400 1.5\\n600 1.4\\n')
cat = C.Catalogue(config=conf, rebuild='All')
cat.register_alias(0, 'x')
try: cat.register_alias(1, 'x')
except ValueError: pass
else: raise SystemExit(1)
''', "files with the same name in two modules", "both can hold the same alias")
S("c18-neg", "C18", [("catalogue.py", "            row = self.database.iloc[identifier, :]\n        else:", "            if identifier < 0:\n                identifier = self.database.index[identifier]\n            row = self.database.iloc[identifier, :]\n        else:")],
CATHEAD + '''
put('a.txt', '400 1.5\\n600 1.5\\n'); put('b.txt', '400 2.5\\n600 2.5\\n'); put('c.txt', '400 3.5\\n600 3.5\\n')
cat = C.Catalogue(config=conf, rebuild='All')
df = cat.get_database().sort_values('Name').reset_index(drop=True)
cat.set_database(df.iloc[[2, 0, 1]])
assert np.isclose(cat.get_material(-1).get_nk_data(500., unit='nm'), 2.5)
''', "a negative row number after rearranging the table", "another row's material is returned")
S("c20-tilde", "C20", [("config.py", "    if not os.path.isdir(config['Path']):\n", "    if not os.path.isdir(os.path.expanduser(config['Path'])):\n")],
'''
import os
from dispersion.config import default_config, validate_config
c = default_config(); c['Path'] = '~'
os.chdir(os.environ['SCRATCH'])
try: validate_config(c)
except Exception: pass
else: raise SystemExit(1)
''', "a path starting with a tilde", "it is accepted although there is no such directory")
S("c21-strip", "C21", [("scripts/setup_dispersion.py", "        confirmation1 = input(question)\n", "        confirmation1 = input(question).strip()\n")],
'''
import builtins
from dispersion.scripts import setup_dispersion as s
ans = iter(['y ', 'n'])
builtins.input = lambda q: next(ans)
assert s.get_confirmation('?') is False
''', "a yes with a blank behind it", "it is taken although it is not a valid answer")
S("c23-label-case", "C23", [("material.py", "        xlabel = spectrum.get_type_unit_string()\n", "        xlabel = \"{} ({})\".format(plot_data['spectrum_type'],\n                                 spectrum.display_string(spectrum.unit))\n")],
NK + '''
import matplotlib.pyplot as plt
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4], [600., 1.9]]))
m.plot_nk_data(values=np.array([2.5, 2.8]), spectrum_type='Energy', unit='eV')
assert plt.gca().get_xlabel() == 'energy (eV)', plt.gca().get_xlabel()
''', "a spectrum type with capital letters", "the label repeats them")
S("c24-subclass", "C24", [("material.py", "        if not self.meta_data == other.meta_data:\n            return False\n", "        for key in self.meta_data:\n            if not self.meta_data[key] == other.meta_data.get(key, self.meta_data[key]):\n                return False\n")],
NK + '''
a, b = Material(fixed_n=1.5), Material(fixed_n=1.5)
a.meta_data['Batch'] = '7'
assert not (a == b) and not (b == a)
''', "a metadata entry which only one of the materials has", "they are equal")
S("c25-other-edit", "C25", [("catalogue.py", "        self.database = self.qgrid_widget.get_changed_df()\n", "        changed = self.qgrid_widget.get_changed_df()\n        self.database = self.database.loc[changed.index.intersection(self.database.index)].copy()\n        self.database.update(changed)\n")],
CATHEAD + '''
sys.modules['qgrid'] = q
put('a.txt'); put('b.txt')
conf['Interactive'] = True
cat = C.Catalogue(config=conf, rebuild='All')
w = cat.edit_interactive()
w.df.loc[0, 'N_Reference'] = np.nan
cat.save_interactive()
assert np.isnan(cat.get_database().N_Reference[0])
''', "a number replaced by NaN in the widget", "the old number stays")
S("c26-single", "C26", [("spectrum.py", "        other_min = np.nanmin(other_values)\n        other_max = np.nanmax(other_values)\n", "        other_min = other_max = other_values\n        if np.size(other_values) > 1:\n            ends = np.asarray(other_values)[[0, -1]]\n            if np.size(other_values) < 3 or np.all(np.diff(other_values)[:2] > 0):\n                other_min, other_max = np.nanmin(ends), np.nanmax(ends)\n            else:\n                other_min = np.nanmin(other_values)\n                other_max = np.nanmax(other_values)\n")],
NK + '''
a = Spectrum(np.array([400., 600.]), unit='nm')
try: a.contains(Spectrum(np.array([410., 420., 430., 700., 500.]), unit='nm'))
except ValueError: pass
else: raise SystemExit(1)
''', "a spectrum which starts in increasing order and has its maximum inside", "only the ends are compared")
S("c27-crlf", "C27", [("io.py", "    with open(file_path, 'r', encoding=\"utf-8\") as fpt:\n        if USE_RUAMEL:\n            yaml_obj = YAML()\n            yaml_data = yaml_obj.load(fpt)\n", "    with open(file_path, 'r', encoding=\"utf-8-sig\", errors=\"replace\") as fpt:\n        if USE_RUAMEL:\n            yaml_obj = YAML()\n            yaml_data = yaml_obj.load(fpt)\n")],
'''
import os
from dispersion.io import read_yaml_file
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'wb').write(b'a: "M\\xfcller"\\n')
try: read_yaml_file(p)
except Exception: pass
else: raise SystemExit(1)
''', "a file that is not UTF-8", "it is read with replaced characters instead of an error")
S("c19-numfmt", "C19", [("catalogue.py", "                             index=False, index_label='Index')\n", "                             index=False, index_label='Index',\n                             float_format='%.15g')\n")],
CATHEAD + '''
put('a.txt', '0.1 1.5\\n%r 1.4\\n' % (1/3*1e3))
put('b.txt', '400 1.1\\n700.0000000000001 1.7777777777777777\\n')
cat = C.Catalogue(config=conf, rebuild='All')
a = cat.get_database().copy(); cat.save_to_file()
b = C.Catalogue(config=conf).get_database()
assert np.array_equal(a.N_Reference.values, b.N_Reference.values, equal_nan=True)
''', "numbers that need seventeen digits", "they are rounded when saved")
