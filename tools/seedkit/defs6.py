exec(open('/tmp/seedkit/defs3.py').read().split('S("c14-text-meta"')[0])
CATHEAD = '''
import os, sys, types, importlib, warnings
import numpy as np, pandas as pd
warnings.simplefilter('ignore')
C = importlib.import_module('dispersion.catalogue')
root = os.path.join(os.environ['SCRATCH'], 'db'); os.makedirs(os.path.join(root, 'UserData'))
conf = {'Path': root, 'File': 'c.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True},
        'ReferenceSpectrum': {'Value': 500., 'SpectrumType': 'wavelength', 'Unit': 'nm'}}
def put(name, text='400 1.5\\n600 1.4\\n'):
    with open(os.path.join(root, 'UserData', name), 'w') as f: f.write(text)
class W:
    def __init__(self, df, **kw): self.df, self.kw = df.copy(), kw
    def get_changed_df(self): return self.df
q = types.ModuleType('qgrid'); q.show_grid = lambda df, **kw: W(df, **kw)
sys.modules['qgrid'] = q
'''
S("c25-view-after-edit", "C25", [("catalogue.py", "        self.qgrid_widget = None\n", "        self.qgrid_widget = None\n        self.grid_options = {'editable':False}\n"),
  ("catalogue.py", "        grid_options = {'editable':False}\n", "        grid_options = self.grid_options\n"),
  ("catalogue.py", "        grid_options = {'editable':True}\n", "        grid_options = self.grid_options\n        grid_options['editable'] = True\n")],
CATHEAD + '''
put('a.txt'); conf['Interactive'] = True
cat = C.Catalogue(config=conf, rebuild='All')
cat.edit_interactive()
assert cat.view_interactive().kw['grid_options']['editable'] is False
''', "view_interactive after edit_interactive", "the read only view can be edited")
S("c25-merge", "C25", [("catalogue.py", "        self.database = self.qgrid_widget.get_changed_df()\n", "        changed = self.qgrid_widget.get_changed_df()\n        self.database.update(changed) # keeps the data types\n")],
CATHEAD + '''
put('a.txt'); put('b.txt'); conf['Interactive'] = True
cat = C.Catalogue(config=conf, rebuild='All')
w = cat.edit_interactive()
w.df = w.df.drop(index=0)
cat.save_interactive()
assert len(cat.get_database()) == 1
''', "a row deleted in the grid", "rows deleted interactively stay in the catalogue")
S("c25-fillna", "C25", [("catalogue.py", "        self.database = self.qgrid_widget.get_changed_df()\n", "        self.database = self.qgrid_widget.get_changed_df().fillna('')\n")],
CATHEAD + '''
put('a.txt', '600 1.5\\n700 1.4\\n'); conf['Interactive'] = True
cat = C.Catalogue(config=conf, rebuild='All')
assert np.isnan(cat.get_database().loc[0, 'N_Reference'])
cat.edit_interactive(); cat.save_interactive()
v = cat.get_database().loc[0, 'N_Reference']
assert isinstance(v, float) and np.isnan(v), v
''', "a material without reference values, saved interactively", "the missing reference values become texts")
S("c26-first-last", "C26", [("spectrum.py", "        self_min = np.min(self.values)\n        self_max = np.max(self.values)\n", "        self_min, self_max = sorted(np.ravel(self.values)[[0, -1]])\n")],
'''
import numpy as np
from dispersion import Spectrum
s = Spectrum(np.array([500., 400., 800., 600.]), unit='nm')
assert s.contains(Spectrum(450., unit='nm'))
''', "a spectrum whose extremes are not its first and last value", "contained values are reported as out of range")
S("c27-overwrite", "C27", [("io.py", "    with open(file_path, 'w', encoding='utf8') as fpt:\n        if USE_RUAMEL:\n", "    mode = 'r+' if os.path.isfile(file_path) else 'w' # keep the file's permissions\n    with open(file_path, mode, encoding='utf8') as fpt:\n        if USE_RUAMEL:\n")],
'''
import os, importlib
io = importlib.import_module('dispersion.io')
p = os.path.join(os.environ['SCRATCH'], 'd.yml')
io.write_yaml_file(p, {'a': 1, 'b': 'a long text', 'c': [1, 2, 3]})
io.write_yaml_file(p, {'a': 1})
assert io.read_yaml_file(p) == {'a': 1}, io.read_yaml_file(p)
''', "a document overwriting a longer one", "the end of the former document stays in the file")
S("c27-safe", "C27", [("io.py", "                yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)\n", "                yaml_data = yaml.load(fpt.read().expandtabs(), Loader=yaml.FullLoader)\n")],
'''
import os, importlib
io = importlib.import_module('dispersion.io')
p = os.path.join(os.environ['SCRATCH'], 'd.yml')
d = {'a': "first\\tsecond"}
with open(p, 'w') as f: f.write("a: 'first\\tsecond'\\n")
assert io.read_yaml_file(p) == d, io.read_yaml_file(p)
''', "a text holding a tab", "tabs in texts become blanks")
S("c28-newline", "C28", [("material.py", '        print(self.utf8_to_ascii(self.meta_data[\'Comment\']))\n', '        print(self.utf8_to_ascii(self.meta_data[\'Comment\']).splitlines()[0])\n')],
'''
import io, contextlib
from dispersion import Material
m = Material(fixed_n=1.5); m.meta_data['Comment'] = "one\\ntwo"
o = io.StringIO()
with contextlib.redirect_stdout(o): m.print_comment()
assert o.getvalue() == "one\\ntwo\\n", o.getvalue()
''', "a comment of several lines", "only the first line is printed")
S("c28-escape", "C28", [("material.py", "        ascii_str = codecs.decode(uni_str, 'ascii', 'ignore')\n", "        ascii_str = codecs.decode(uni_str, 'ascii', 'replace')\n")],
'''
import io, contextlib
from dispersion import Material
m = Material(fixed_n=1.5); m.meta_data['Reference'] = u"M\\u00fcller"
o = io.StringIO()
with contextlib.redirect_stdout(o): m.print_reference()
assert o.getvalue() == "Mller\\n", o.getvalue()
''', "a reference with a non ascii character", "replacement characters are printed")
S("c07-int-alpha", "C07", [("material.py", "            new_table = np.vstack([table[:, 0], k]).T\n", "            new_table = table[:, [0, 1]]\n            new_table[:, 1] = k\n")],
'''
import numpy as np
from dispersion import Material
m = Material(tabulated_n_alpha=np.array([[400, 2, 90000], [600, 1, 70000]]), spectrum_type='wavelength', unit='nm')
assert abs(m.get_nk_data(np.array([400.]), spectrum_type='wavelength', unit='nm')[0].imag - 90000*400e-7/(4*np.pi)) < 1e-9
''', "a table of whole numbers", "k is cut to a whole number")
S("c13-shared-spec", "C13", [("io.py", "        file_dict['MetaData']['Specification'] = {}\n", "        file_dict['MetaData']['Specification'] = Reader.NO_SPECIFICATION\n"),
  ("io.py", "    def __init__(self, file_path):\n        self.file_path = file_path\n        fname, extension = os.path.splitext(file_path)\n        self.extension = extension\n        self.default_file_dict", "    NO_SPECIFICATION = {}\n\n    def __init__(self, file_path):\n        self.file_path = file_path\n        fname, extension = os.path.splitext(file_path)\n        self.extension = extension\n        self.default_file_dict")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
with open(p, 'w') as f: f.write("DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.6 1.4\\n")
m = Material(file_path=p)
m.meta_data['Specification']['temperature'] = '300 K'
assert Material(file_path=p).meta_data['Specification'] == {}
''', "a material read without specification, given one by the user, and another file read afterwards", "the specification of one material appears in others")
S("c15-upper-ext", "C15", [("catalogue.py", "            if ext not in allowed_ext:\n", "            if ext.lower() not in allowed_ext:\n")],
CATHEAD + '''
put('a.txt'); put('NOTES.TXT', 'notes about the data')
cat = C.Catalogue(config=conf, rebuild='All')
assert list(cat.get_database().Path) == ['a.txt']
''', "a file with an upper case extension in the folder", "the catalogue cannot be built any more")
S("c19-escape", "C19", [("catalogue.py", "                             index=False, index_label='Index')\n", "                             index=False, index_label='Index',\n                             doublequote=False, escapechar='\\\\')\n")],
CATHEAD + '''
put('a.txt')
cat = C.Catalogue(config=conf, rebuild='All')
cat.database.at[0, 'Comment'] = 'the "old", data'
cat.save_to_file()
assert C.Catalogue(config=conf).database.at[0, 'Comment'] == 'the "old", data'
''', "a text with quotes and commas", "quotes are written such that they cannot be read back")
S("c19-sorted", "C19", [("catalogue.py", "        self.database.to_csv(os.path.join", "        self.database.sort_values(['Module', 'Name'],\n                                  kind='stable').to_csv(os.path.join")],
CATHEAD + '''
put('a.txt'); put('b.txt')
cat = C.Catalogue(config=conf, rebuild='All')
cat.set_database(cat.database.sort_values('Name', ascending=False).reset_index(drop=True))
cat.save_to_file()
assert list(C.Catalogue(config=conf).database.Name) == ['b', 'a']
''', "rows which are not in alphabetical order", "row numbers change when the catalogue is saved")
S("c16-index", "C16", [("catalogue.py", "        return pd.concat(dframes, ignore_index=True)\n", "        if len(dframes) == 1:\n            return dframes[0]\n        return pd.concat(dframes, ignore_index=True)\n")],
CATHEAD + '''
os.makedirs(os.path.join(root, 'Filmetrics'))
put('a.txt'); put('b.txt')
with open(os.path.join(root, 'Filmetrics', 'f.txt'), 'w') as f: f.write('400 1.5 0.1\\n600 1.4 0.1\\n')
conf['Modules'] = {'Filmetrics': True, 'UserData': True}
C.Catalogue(config=conf, rebuild='All').save_to_file()
for n in os.listdir(os.path.join(root, 'Filmetrics')): os.remove(os.path.join(root, 'Filmetrics', n))
cat = C.Catalogue(config=conf, rebuild=['Filmetrics'])
assert list(cat.database.index) == list(range(len(cat.database))), list(cat.database.index)
''', "a rebuild which leaves the rows of one module, not the first in the file", "row labels no longer start at zero")
S("c12-tight", "C12", [("io.py", '            kwd_arg = line.split(":")\n', '            kwd_arg = line.split(": ")\n')],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
with open(p, 'w') as f: f.write("#UNIT:um\\n#SPECTRUMTYPE:wavelength\\n0.4 1.5\\n0.6 1.4\\n")
m = Material(file_path=p)
assert m.defaults['unit'] == 'um', m.defaults
''', "a keyword line without blank after the colon", "the keyword is taken as a comment")
S("c20-swallow", "C20", [("config.py", "    config = read_yaml_file(file_path)\n    return config\n", "    config = read_yaml_file(file_path)\n    for key, value in default_config().items():\n        if not config.get(key):\n            config[key] = value\n    return config\n")],
'''
import os, importlib
cf = importlib.import_module('dispersion.config')
d = cf._get_user_config_dir()
c = cf.default_config(); c['Modules'] = {}
cf.write_config(c, dir_path=d)
assert cf.get_config()['Modules'] == {}, cf.get_config()
''', "a configuration without any module", "the default modules come back when it is read")
S("c22-prefix", "C22", [("catalogue.py", "        elif ans == 'y':\n", "        elif ans[:1] == 'y':\n")],
CATHEAD + '''
import builtins
cfm = importlib.import_module('dispersion.config')
put('a.txt')
conf['Modules'] = {'UserData': True}
cfm.write_config(conf, dir_path=cfm._get_user_config_dir())
ans = iter(['yn', 'n'])
builtins.input = lambda *a: next(ans)
C.rebuild_catalogue()
assert not os.path.exists(os.path.join(root, 'c.csv'))
''', "an answer beginning with y other than y", "the catalogue is overwritten without a clear yes")
S("c14-spec-keys", "C14", [("io.py", "                for key, val in specs.items():\n                    if spec_key == key:\n", "                for key, val in specs.items():\n                    if spec_key in key:\n")],
'''
import os
from dispersion import Material, Writer
import numpy as np
m = Material(tabulated_n=np.array([[400., 1.5], [600., 1.4]]), spectrum_type='wavelength', unit='nm')
m.meta_data['Specification'] = {'temperature': '300 K', 'deposition_temperature': '500 K'}
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
Writer(p, m).write_file()
assert Material(file_path=p).meta_data['Specification'] == m.meta_data['Specification'], Material(file_path=p).meta_data
''', "a specification with both a temperature and a deposition temperature", "one temperature is written as the other")
S("c09-sample-order", "C09", [("material.py", "        if max_range[0] == 0.0 or max_range[1] == np.inf:\n", "        if max_range[0] == 0.0 or max_range[1] > 1e12:\n")],
'''
import numpy as np
from dispersion import Material
m = Material(tabulated_n=np.array([[1e14, 1.5], [2e14, 1.4]]), spectrum_type='frequency', unit='hz')
s = m.get_sample_spectrum()
assert s.spectrum_type == 'frequency' and abs(s.values[0]/1e14 - 1) < 1e-9
m.get_nk_data(s)
''', "data given by frequency", "the sample spectrum is not that of the material")
S("c04-int", "C04", [("spectral_data.py", "        values = spectrum.convert_to(self.spectrum_type, self.unit)\n        values = np.clip", "        values = np.asarray(spectrum.convert_to(self.spectrum_type, self.unit),\n                            dtype=self.data.dtype)\n        values = np.clip")],
'''
import numpy as np
from dispersion import Material
m = Material(tabulated_n=np.array([[400, 2], [600, 1]]), spectrum_type='wavelength', unit='nm')
assert abs(m.get_nk_data(np.array([450.5]), spectrum_type='wavelength', unit='nm')[0] - (2-50.5/200)) < 1e-9
''', "a table of whole numbers queried between whole numbers", "the abscissae are cut to whole numbers")
