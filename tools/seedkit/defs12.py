exec(open('/tmp/seedkit/defs6.py').read().split('S("c25-view')[0])
SEEDS.clear() if 'SEEDS' in globals() else None
NK = "import numpy as np\nfrom dispersion import Material, Spectrum\n"
S("c16-vanished", "C16", [("catalogue.py", "                    dframe = df[df.Module == module]\n", "                    dframe = df[df.Module == module]\n                    there = [os.path.isfile(os.path.join(self.base_path,\n                                                         module, path))\n                             for path in dframe.Path]\n                    dframe = dframe[np.array(there, dtype=bool)]\n")],
CATHEAD + '''
conf['Modules'] = {'UserData': True, 'Filmetrics': True}
os.makedirs(os.path.join(root, 'Filmetrics'))
put('a.txt'); put('b.txt')
with open(os.path.join(root, 'Filmetrics', 'f.txt'), 'w') as f: f.write('400 1.5\\n600 1.4\\n')
C.Catalogue(config=conf, rebuild='All').save_to_file()
os.remove(os.path.join(root, 'UserData', 'a.txt'))
assert len(C.Catalogue(config=conf, rebuild='Filmetrics').get_database()) == 3
''', "a file of another module that vanished before the partial rebuild", "that module's row is dropped")
S("c18-vanish", "C18", [("catalogue.py", "        mat = Material(file_path=file_path,\n                           spectrum_type=row.SpectrumType,\n                           unit=row.Unit)\n        return mat\n", "        if not os.path.isfile(file_path): # may have been converted\n            stem = os.path.splitext(file_path)[0]\n            for ext in ('.yml', '.csv', '.txt'):\n                if os.path.isfile(stem + ext):\n                    file_path = stem + ext\n        mat = Material(file_path=file_path,\n                           spectrum_type=row.SpectrumType,\n                           unit=row.Unit)\n        return mat\n")],
CATHEAD + '''
put('a.txt'); put('a.csv', '400,2.5\\n600,2.4\\n')
cat = C.Catalogue(config=conf, rebuild='All')
i = list(cat.get_database().Path).index('a.txt')
os.remove(os.path.join(root, 'UserData', 'a.txt'))
try: cat.get_material(i)
except OSError: pass
else: raise SystemExit(1)
''', "a row whose file vanished while one of the same name is there", "the other material is returned")
S("c15-first-line", "C15", [("catalogue.py", "            content_dict['Comment'] = mat.meta_data['Comment']\n            content_dict['Reference'] = mat.meta_data['Reference']\n", "            content_dict['Comment'] = mat.meta_data['Comment']\n            content_dict['Reference'] = mat.meta_data['Reference']\n            for key in ('Comment', 'Reference'):\n                if isinstance(content_dict[key], str): # one line per material\n                    content_dict[key] = content_dict[key].partition('\\n')[0]\n")],
CATHEAD + '''
put('a.yml', 'REFERENCES: |\\n    one\\n    two\\nDATA:\\n  - type: tabulated n\\n    data: |\\n        400 1.5\\n        600 1.4\\n')
db = C.Catalogue(config=conf, rebuild='All').get_database()
assert db.Reference[0].split() == ['one', 'two']
''', "a reference of several lines", "only its first line is listed")
S("c15-round", "C15", [("catalogue.py", "            content_dict['N_Reference'] = np.real(ref_index)\n            content_dict['K_Reference'] = np.imag(ref_index)\n            database_list", "            content_dict['N_Reference'] = np.round(np.real(ref_index), 6)\n            content_dict['K_Reference'] = np.round(np.imag(ref_index), 6)\n            database_list")],
CATHEAD + '''
put('a.txt', '400 1.5 3e-8\\n600 1.5 3e-8\\n')
db = C.Catalogue(config=conf, rebuild='All').get_database()
assert np.isclose(db.K_Reference[0], 3e-8, rtol=1e-6, atol=0)
''', "weak absorption", "the listed k is zero")
S("c15-same-name", "C15", [("catalogue.py", "            if ext not in allowed_ext:\n                continue\n", "            if ext not in allowed_ext:\n                continue\n            if ext != '.yml' and name + '.yml' in onlyfiles:\n                continue # the yaml file tells more\n")],
CATHEAD + '''
put('a.txt'); put('a.yml', 'DATA:\\n  - type: tabulated n\\n    data: |\\n        400 1.5\\n        600 1.4\\n')
assert len(C.Catalogue(config=conf, rebuild='All').get_database()) == 2
''', "files that differ in their extension only", "only one of them is listed")
S("c17-casefold", "C17", [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n", "        if alias.lower() in self.database.loc[:, 'Alias'].str.lower().values:\n")],
CATHEAD + '''
put('a.txt'); put('b.txt')
cat = C.Catalogue(config=conf, rebuild='All')
cat.register_alias(0, 'Au'); cat.register_alias(1, 'AU')
assert list(cat.get_database().Alias) == ['Au', 'AU']
''', "two aliases that differ in letter case", "the second is refused")
S("c26-tol", "C26", [("spectrum.py", "        self_min = np.min(self.values)\n        self_max = np.max(self.values)\n", "        self_min = np.min(self.values)*(1 - 1e-5)\n        self_max = np.max(self.values)*(1 + 1e-5)\n")],
NK + '''
try: Spectrum(np.array([400., 800.]), unit='nm').contains(Spectrum(800.005, unit='nm'))
except ValueError: pass
else: raise SystemExit(1)
''', "a value little beyond the end", "it counts as contained")
S("c28-nfkd", "C28", [("material.py", "        uni_str = codecs.encode(string, 'utf-8')\n", "        import unicodedata\n        string = unicodedata.normalize('NFKD', string) # keep the base letters\n        uni_str = codecs.encode(string, 'utf-8')\n")],
NK + '''
import io, contextlib
m = Material(fixed_n=1.5); m.meta_data['Comment'] = 'caf\\u00e9'
b = io.StringIO()
with contextlib.redirect_stdout(b): m.print_comment()
assert b.getvalue() == 'caf\\n'
''', "letters with accents", "letters are printed that are not in the text")
S("c23-dup", "C23", [("material.py", "            plt.plot(spectrum.values, data_r, label=labels[0])\n", "            if np.ptp(data_r) == 0:\n                plt.axhline(data_r[0], label=labels[0])\n            else:\n                plt.plot(spectrum.values, data_r, label=labels[0])\n")],
NK + '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
f, a = plt.subplots()
Material(fixed_n=1.5).plot_nk_data(values=np.array([400., 500.]), unit='nm', axes=a)
assert np.array_equal(a.lines[0].get_xdata(), [400., 500.])
''', "a constant material", "n is not drawn at the given values")
S("c20-link", "C20", [("config.py", "    if os.path.isfile(file_path):\n        return user_dir\n", "    if os.path.isfile(file_path) and not os.path.islink(file_path):\n        return user_dir\n")],
'''
import os, importlib
h = os.path.join(os.environ['SCRATCH'], 'h'); os.makedirs(os.path.join(h, '.config', 'dispersion'))
os.environ['HOME'] = h
c = importlib.import_module('dispersion.config')
d = os.path.join(h, '.config', 'dispersion')
c.write_config({'Path': 'x', 'File': 'y'}, dir_path=d)
os.rename(os.path.join(d, 'config.yaml'), os.path.join(h, 'real.yaml'))
os.symlink(os.path.join(h, 'real.yaml'), os.path.join(d, 'config.yaml'))
assert c.get_config()['Path'] == 'x'
''', "a configuration file that is a link", "it is not used")
