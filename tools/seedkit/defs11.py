exec(open('/tmp/seedkit/defs6.py').read().split('S("c25-view')[0])
SEEDS.clear() if 'SEEDS' in globals() else None
NK = "import numpy as np\nfrom dispersion import Material, Spectrum\n"
S("c04-big-table", "C04", [("spectral_data.py", "        self.interpolation = interp1d(self.data[:, 0], self.data[:, 1],\n                                      kind=self.interp_order)\n", "        data = self.data\n        if data.shape[0] > 1000: # more points than needed slow down look up\n            data = np.vstack([data[:-1:2], data[-1:]])\n        self.interpolation = interp1d(data[:, 0], data[:, 1],\n                                      kind=self.interp_order)\n")],
NK + '''
x = np.arange(400., 1601.)
y = 1.5 + .1*(-1.)**np.arange(x.size)
m = Material(tabulated_n=np.array([x, y]).T)
assert np.allclose(m.get_nk_data(x, unit='nm').real, y)
''', "a table of more than a thousand rows", "every other row is dropped")
S("c15-missing-break", "C15", [("catalogue.py", "                    warnings.warn(\"file {} \".format(full_file) +\n                                  \"could not be opened, skipping\")\n                    continue\n", "                    warnings.warn(\"file {} \".format(full_file) +\n                                  \"could not be opened, skipping\")\n                    break\n")],
CATHEAD + '''
conf['Modules']['RefractiveIndexInfo'] = True
d = os.path.join(root, 'RefractiveIndexInfo', 'database')
os.makedirs(os.path.join(d, 'data'))
open(os.path.join(d, 'data', 'x.yml'), 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.8 1.4\\n')
open(os.path.join(d, 'library.yml'), 'w').write('- SHELF: a\\n  name: a\\n  content:\\n    - BOOK: b\\n      name: b\\n      content:\\n        - PAGE: p\\n          name: p\\n          data: y.yml\\n        - PAGE: q\\n          name: q\\n          data: x.yml\\n')
import warnings; warnings.simplefilter('ignore')
assert len(C.Catalogue(config=conf, rebuild='All').get_database()) == 1
''', "a missing page followed by others in its book", "those are lost")
S("c23-skip-zero", "C23", [("material.py", "        data_i = np.imag(data)\n", "        data_i = np.imag(data)\n        if not np.any(data_i):\n            data_i = np.full(np.shape(data_i), np.nan) # nothing to be seen\n")],
NK + '''
import matplotlib.pyplot as plt
f, a = plt.subplots()
Material(fixed_n=1.5).plot_nk_data(values=np.array([400., 500.]), unit='nm', axes=a)
assert np.all(a.lines[1].get_ydata() == 0)
''', "a material without absorption", "its k is not drawn")
S("c26-large", "C26", [("spectrum.py", "        other_min = np.nanmin(other_values)\n", "        if np.size(other_values) > 2000: # an extract will do\n            other_values = np.append(other_values[::2], other_values[-1])\n        other_min = np.nanmin(other_values)\n")],
NK + '''
q = np.full(3001, 5.); q[1501] = 50.
try: Spectrum(np.array([1., 10.]), unit='nm').contains(Spectrum(q, unit='nm'))
except ValueError: pass
else: raise SystemExit(1)
''', "more than two thousand values", "every other one is not looked at")
S("c27-digits", "C27", [("io.py", "            yaml.dump(dict_like, fpt)\n", "            yaml.dump(dict_like, fpt, width=80, line_break='\\r\\n',\n                      allow_unicode=True)\n")],
'''
import os
from dispersion.io import read_yaml_file, write_yaml_file
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
d = {'a': 'x\\x85y', 'b': 'p\\u2028q', 'c': ' lead\\ntrail \\n', 'd': '\\ufeffz'}
write_yaml_file(p, d)
assert read_yaml_file(p) == d and b'\\r' not in open(p, 'rb').read()
''', "any document", "lines end as in Windows")
S("c28-long", "C28", [("material.py", "        print(self.utf8_to_ascii(self.meta_data['Reference']))\n", "        text = self.utf8_to_ascii(self.meta_data['Reference'])\n        print(text[:4096])\n")],
NK + '''
import io, contextlib
m = Material(fixed_n=1.5); m.meta_data['Reference'] = 'ab '*3000
b = io.StringIO()
with contextlib.redirect_stdout(b): m.print_reference()
assert b.getvalue() == 'ab '*3000 + '\\n'
''', "a reference of more than four thousand characters", "its end is missing")
S("c28-cr", "C28", [("material.py", "        print(self.utf8_to_ascii(self.meta_data['Comment']))\n", "        print(*self.utf8_to_ascii(self.meta_data['Comment']).splitlines(),\n              sep='\\n')\n")],
NK + '''
import io, contextlib
m = Material(fixed_n=1.5); m.meta_data['Comment'] = 'a\\x0cb\\n'
b = io.StringIO()
with contextlib.redirect_stdout(b): m.print_comment()
assert b.getvalue() == 'a\\x0cb\\n\\n'
''', "a comment with a form feed or a line end at its end", "they are replaced or lost")
S("c06-plot-defaults", "C06", [("material.py", "        plot_data['spectrum'] = spectrum\n        return plot_data\n", "        plot_data['spectrum'] = spectrum\n        if 'spectrum_type' in kwargs and 'unit' in kwargs:\n            # next time in the same unit\n            self.defaults['spectrum_type'] = spectrum.spectrum_type\n            self.defaults['unit'] = spectrum.unit\n        return plot_data\n")],
NK + '''
import matplotlib; matplotlib.use('Agg')
m = Material(tabulated_n=np.array([[400., 1.5], [800., 1.4]]))
m.plot_nk_data(spectrum_type='energy', unit='ev')
assert np.allclose(m.get_maximum_valid_range(), [400., 800.])
''', "plotting in another unit and asking for the range afterwards", "the range is reported in that unit")
S("c09-plot", "C09", [("material.py", "        if max_range[0] == 0.0 or max_range[1] == np.inf:\n            values = np.geomspace(100, 2000, 1000)\n", "        if max_range[1] > 1e4*max_range[0]:\n            values = np.geomspace(100, 2000, 1000)\n")],
NK + '''
m = Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([1e-3, 100.]), 'parameters': np.array([1.5, .1])})
s = m.get_sample_spectrum()
assert s.spectrum_type == 'energy' and np.isclose(s.values[-1], 100.)
''', "a range over more than four orders of magnitude", "the sample covers some of it only")
S("c21-yes-upper", "C21", [("scripts/setup_dispersion.py", "        confirmation1 = input(question)\n        if confirmation1 in {'y', 'yes'}:", "        confirmation1 = input(question)\n        if confirmation1[:1] == 'y':")],
'''
import builtins
from dispersion.scripts import setup_dispersion as s
a = iter(['yesterday', 'n'])
builtins.input = lambda q='': next(a)
assert s.get_confirmation('?') is False
''', "an answer which begins with y", "it counts as yes")
S("c18-suffix", "C18", [("catalogue.py", "            bool_array = self.database.Alias.values == identifier\n", "            bool_array = self.database.Alias.values == identifier\n            if not bool_array.any() and identifier:\n                # a unique full name will do as well\n                bool_array = self.database.FullName.values == identifier\n                if bool_array.sum() > 1:\n                    bool_array[:] = False\n")],
CATHEAD + '''
put('a.txt', '# FULLNAME: solid gold\\n400 1.5\\n600 1.5\\n')
cat = C.Catalogue(config=conf, rebuild='All')
try: cat.get_material('solid gold')
except ValueError: pass
else: raise SystemExit(1)
''', "an identifier which is no alias but the full name of a material", "that material is returned")
S("c19-strip-col", "C19", [("catalogue.py", "        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n", "        self.database.dropna(how='all', axis=1).to_csv(os.path.join(self.base_path, self.file_name),\n")],
CATHEAD + '''
put('a.txt', '100 1.5\\n200 1.5\\n')
cat = C.Catalogue(config=conf, rebuild='All')
cat.save_to_file()
assert list(C.Catalogue(config=conf).get_database().columns) == list(cat.get_database().columns)
''', "no material has a value at the reference", "the columns are not stored")
