SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
CAT = '''
import os, numpy as np, warnings
warnings.simplefilter("ignore")
from dispersion import Catalogue, Material, Writer
root = os.environ["SCRATCH"]
def conf(ud=True, rii=False):
    return {"Path": root, "File": "cat.csv", "Interactive": False, "WarnMissingPackages": False,
            "Modules": {"UserData": ud, "RefractiveIndexInfo": rii},
            "ReferenceSpectrum": {"Value": 632.8, "SpectrumType": "wavelength", "Unit": "nanometer"}}
def put(mod, name, text):
    p = os.path.join(root, mod, name); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f: f.write(text)
def txt(name, n, head=""):
    put("UserData", name, head + "400 %s 0.0\\n800 %s 0.0\\n" % (n, n))
def rii(pages):
    lib = "- SHELF: main\\n  name: MAIN\\n  content:\\n    - DIVIDER: d\\n    - BOOK: Ag\\n      name: Silver\\n      content:\\n"
    for pg in pages:
        lib += "        - PAGE: %s\\n          name: %s\\n          data: Ag/%s.yml\\n" % (pg, pg, pg)
        put("RefractiveIndexInfo", "database/data-nk/Ag/%s.yml" % pg, "DATA:\\n  - type: tabulated nk\\n    data: |\\n        0.4 1.5 0.1\\n        0.8 1.6 0.2\\n")
    put("RefractiveIndexInfo", "database/catalog-nk.yml", lib)
'''
S("c14-text-meta", "C14", [("io.py", "    DATA_META_DATA_KEYS = ['Reference', 'Author',\n                           'FullName', 'Name', 'Comment']", "    DATA_META_DATA_KEYS = ['Name', 'Reference', 'Author',\n                           'FullName', 'Comment']"),
 ("io.py", "            if key in self.file_dict['MetaData']:\n                alias = Writer.KEY_ALIASES[key]\n", "            if self.file_dict['MetaData'].get(key) and key.upper() not in header:\n                alias = Writer.KEY_ALIASES[key]\n")],
'''
import os, numpy as np
from dispersion import Material, Writer
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
m = Material(tabulated_nk=np.array([[400., 1., 0.1], [500., 2., 0.2]]), spectrum_type='wavelength', unit='nm')
m.meta_data['Name'] = 'AUTHOR COPY'
m.meta_data['Author'] = 'X. Y.'
Writer(p, m).write_file()
r = Material(file_path=p)
assert r.meta_data['Author'] == 'X. Y.', r.meta_data
''', "a metadata value that contains the upper-case name of a later metadata key", "a metadata entry is left out of text files when its key occurs in an earlier value")

S("c14-yaml-name", "C14", [("io.py", """        for key in self.file_dict:
            if self.file_dict[key] == "":
                pop_keys.append(key)
        for key in pop_keys:
            self.file_dict.pop(key)
""", """        for key, value in self.file_dict['MetaData'].items():
            if value == "" or (isinstance(value, str) and value.isdigit()):
                pop_keys.append(key)
        for key in pop_keys:
            self.file_dict['MetaData'].pop(key)
""")],
'''
import os, numpy as np
from dispersion import Material, Writer
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
m = Material(tabulated_nk=np.array([[400., 1., 0.1], [500., 2., 0.2]]), spectrum_type='wavelength', unit='nm')
m.meta_data['Name'] = '42'
Writer(p, m).write_file()
r = Material(file_path=p)
assert r.meta_data['Name'] == '42', r.meta_data
''', "metadata consisting of digits only", "metadata consisting of digits is dropped when writing yaml")

S("c15-divider", "C15", [("catalogue.py", """            if "DIVIDER" in book.keys():
                self.rii_loader['current_divider'] = book['DIVIDER']
                continue
            elif "BOOK" in book.keys():
                self.rii_loader['current_book'] = book['BOOK']
                self.rii_loader['current_full_name'] = book['name']
""", """            if "DIVIDER" in book.keys():
                self.rii_loader['current_divider'] = book['DIVIDER']
                continue
            elif "BOOK" in book.keys():
                self.rii_loader['current_book'] = book['BOOK']
                self.rii_loader.setdefault('full_names', {})
                self.rii_loader['current_full_name'] = self.rii_loader['full_names'].setdefault(book['BOOK'], book['name'])
""")],
CAT + '''
lib = ""
for shelf, name in (("main", "Silver"), ("organic", "Agarose")):
    lib += "- SHELF: %s\\n  name: S\\n  content:\\n    - BOOK: Ag\\n      name: %s\\n      content:\\n        - PAGE: P\\n          name: p\\n          data: Ag/%s.yml\\n" % (shelf, name, shelf)
    put("RefractiveIndexInfo", "database/data-nk/Ag/%s.yml" % shelf, "DATA:\\n  - type: tabulated nk\\n    data: |\\n        0.4 1.5 0.1\\n        0.8 1.6 0.2\\n")
put("RefractiveIndexInfo", "database/catalog-nk.yml", lib)
db = Catalogue(conf(False, True), rebuild="All").database
assert list(db.FullName) == ["Silver", "Agarose"], list(db.FullName)
''', "two shelves with a book of the same short name", "the full name of a book is taken from an earlier book of the same name")

S("c15-reference-nan", "C15", [("catalogue.py", """                try:
                    ref_spectrum = self.reference_spectrum
                    ref_index = mat.get_nk_data(ref_spectrum)
                except ValueError:
                    ref_index = np.nan + 1j* np.nan
""", """                try:
                    ref_spectrum = self.reference_spectrum
                    ref_index = mat.get_nk_data(ref_spectrum)
                    self.rii_loader['last_index'] = ref_index
                except ValueError:
                    ref_index = np.nan + 1j* np.nan
                    if valid_range[1] == np.inf or valid_range[0] == valid_range[1]:
                        ref_index = self.rii_loader.get('last_index', ref_index)
""")],
CAT + '''
put("RefractiveIndexInfo", "database/data-nk/Ag/a.yml", "DATA:\\n  - type: tabulated nk\\n    data: |\\n        0.4 1.5 0.1\\n        0.8 1.6 0.2\\n")
put("RefractiveIndexInfo", "database/data-nk/Ag/b.yml", "DATA:\\n  - type: tabulated nk\\n    data: |\\n        0.5 1.5 0.1\\n")
put("RefractiveIndexInfo", "database/catalog-nk.yml", "- SHELF: m\\n  name: M\\n  content:\\n    - BOOK: Ag\\n      name: Silver\\n      content:\\n        - PAGE: a\\n          name: a\\n          data: Ag/a.yml\\n        - PAGE: b\\n          name: b\\n          data: Ag/b.yml\\n")
db = Catalogue(conf(False, True), rebuild="All").database
assert np.isnan(db.N_Reference.iloc[1]), db.N_Reference
''', "a one-row data file not at the reference wavelength after another page", "the reference index of the previous page is used for single-row data outside the reference")

S("c16-keep-enabled", "C16", [("catalogue.py", "                if module in rebuild or rebuild == 'All':\n", "                if module in rebuild or rebuild == 'All' or df[df.Module == module].empty:\n")],
CAT + '''
txt("a.txt", 1.5)
rii(["P"])
c = Catalogue(conf(True, False), rebuild="All"); c.save_to_file()
txt("b.txt", 1.6)
d = Catalogue(conf(True, True), rebuild=["UserData"])
assert set(d.database.Module) == {"UserData"}, list(d.database.Module)
''', "a partial rebuild of one module while another enabled module has no stored rows", "a module that was not named is built as well when it has no rows")

S("c16-alias-carry", "C16", [("catalogue.py", "                    dframe = read_function(dir_path)\n", "                    dframe = read_function(dir_path)\n                    old = df[df.Module == module]\n                    if len(old) == len(dframe):\n                        dframe['Alias'] = old['Alias'].values\n")],
CAT + '''
txt("a.txt", 1.5)
c = Catalogue(conf(), rebuild="All"); c.register_alias(0, "gold"); c.save_to_file()
os.remove(os.path.join(root, "UserData", "a.txt")); txt("b.txt", 2.5)
d = Catalogue(conf(), rebuild=["UserData"])
assert list(d.database.Alias) == [""], list(d.database.Alias)
''', "a partial rebuild after one file was replaced by another, with an alias registered before", "aliases are carried over by position to another file")

S("c17-strip", "C17", [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n            if not self.database.at[index, 'Alias'] == alias:", "        if alias in self.database.loc[:, 'Alias'].values:\n            if self.database.at[index, 'Alias'] == \"\":")],
CAT + '''
txt("a.txt", 1.5); txt("b.txt", 1.6)
c = Catalogue(conf(), rebuild="All")
c.register_alias(0, "gold"); c.register_alias(1, "silver")
try:
    c.register_alias(1, "gold")
except ValueError:
    pass
assert sorted(c.database.Alias) == ["gold", "silver"], list(c.database.Alias)
''', "registering another row's alias on a row that has an alias already", "an alias in use is only refused for rows without an alias")

S("c18-iloc", "C18", [("catalogue.py", "            row = self.database.iloc[identifier, :]\n", "            row = self.database.loc[identifier, :] if identifier in self.database.index else self.database.iloc[identifier, :]\n")],
CAT + '''
for i, n in enumerate((1.5, 1.6, 1.7)):
    txt("m%d.txt" % i, n)
c = Catalogue(conf(), rebuild="All")
c.set_database(c.database.sort_values("Name", ascending=False))
v = c.get_material(0).get_nk_data(5e-7).real
assert abs(v - 1.7) < 1e-9, v
''', "a reordered database and a lookup by position", "rows are looked up by label instead of position after reordering")

S("c18-alias-case", "C18", [("catalogue.py", "            bool_array = self.database.Alias.values == identifier\n", "            bool_array = self.database.Alias.str.lower().values == identifier.lower()\n")],
CAT + '''
txt("a.txt", 1.5); txt("b.txt", 1.6)
c = Catalogue(conf(), rebuild="All")
c.register_alias(0, "Co"); c.register_alias(1, "CO")
v = c.get_material("CO").meta_data
import dispersion
n0 = c.get_material("CO").get_nk_data(5e-7).real
n1 = c.get_material(1).get_nk_data(5e-7).real
assert n0 == n1, (n0, n1)
''', "two aliases that differ only in letter case", "alias lookup ignores letter case and returns the first match")

S("c19-na", "C19", [("catalogue.py", "                             na_values=Catalogue.NA_VALUES,\n                             keep_default_na=False)", "                             na_values=Catalogue.NA_VALUES,\n                             keep_default_na=False,\n                             skipinitialspace=True)")],
CAT + '''
txt("a.txt", 1.5, "# COMMENTS: x\\n")
c = Catalogue(conf(), rebuild="All")
c.register_alias(0, " gold")
c.save_to_file()
d = Catalogue(conf())
assert d.database.Alias[0] == " gold", repr(d.database.Alias[0])
''', "text that begins with a blank", "leading blanks of text entries are lost when the catalogue is loaded")

S("c19-float", "C19", [("catalogue.py", "                             index=False, index_label='Index')", "                             index=False, index_label='Index', float_format='%.15g')")],
CAT + '''
put("UserData", "a.txt", "400.12345678901234 0.1234567890123456789 0.0\\n800 0.3333333333333333 0.0\\n")
c = Catalogue(conf(), rebuild="All")
c.save_to_file()
d = Catalogue(conf())
assert d.database.N_Reference[0] == c.database.N_Reference[0], (d.database.N_Reference[0], c.database.N_Reference[0])
''', "a number that needs 17 digits", "numbers are saved with 15 digits")

S("c20-user-first", "C20", [("config.py", """    file_path = os.path.join(user_dir, 'config.yaml')
    if os.path.isfile(file_path):
        return user_dir
""", """    file_path = os.path.join(user_dir, 'config.yaml')
    if os.path.isfile(file_path) and not os.path.islink(file_path):
        return user_dir
""")],
'''
import os
root = os.environ["SCRATCH"]; d = os.path.join(os.environ["HOME"], ".config", "dispersion"); os.makedirs(d)
import sys, dispersion.config
C = sys.modules["dispersion.config"]
conf = C.default_config(); conf["File"] = "mine.csv"
C.write_config(conf, dir_path=root)
os.symlink(os.path.join(root, "config.yaml"), os.path.join(d, "config.yaml"))
assert C.get_config()["File"] == "mine.csv", C.get_config()["File"]
''', "a user configuration file that is a symbolic link", "a linked user configuration is ignored")

S("c20-bool-modules", "C20", [("config.py", "    for value in config['Modules'].values():\n        check_type(value,bool)\n", "    for value in config['Modules'].values():\n        check_type(value,(bool, int))\n")],
'''
import os, sys, dispersion.config
C = sys.modules["dispersion.config"]
conf = C.default_config(); conf["Modules"]["UserData"] = 1
try:
    C.validate_config(conf)
except Exception:
    raise SystemExit(0)
raise SystemExit("module flag 1 accepted")
''', "a module flag that is an integer", "integers are accepted as module flags")

S("c21-default-after-invalid", "C21", [("scripts/setup_dispersion.py", """            valid_input = True
        else:
            print("input is not valid")
    return user_input
""", """            valid_input = True
        else:
            print("input is not valid")
            default = user_input.strip() or default
    return user_input
""")],
'''
import os, builtins
root = os.environ["SCRATCH"]
from dispersion.scripts import setup_dispersion as S
answers = iter(["", "y", "a/b.csv", "", "y", "n", "n"])
def inp(q):
    try:
        return next(answers)
    except StopIteration:
        raise SystemExit("asked too often: " + q)
builtins.input = inp
S.main()
''', "an invalid answer followed by an empty one", "the default of a question is replaced by an invalid answer")

S("c21-write-early", "C21", [("scripts/setup_dispersion.py", """    #print("Filename will be set to {}".format(name))
    conf = install_modules(conf)
    user_dir = _get_user_config_dir()
    write_config(conf, dir_path=user_dir)
""", """    #print("Filename will be set to {}".format(name))
    user_dir = _get_user_config_dir()
    write_config(conf, dir_path=user_dir)
    conf = install_modules(conf)
""")],
'''
import os, builtins, sys
from dispersion.scripts import setup_dispersion as S
C = sys.modules["dispersion.config"]
answers = iter(["", "y", "", "y", "n", "n"])
builtins.input = lambda q: next(answers)
S.main()
assert C.get_config()["Modules"]["RefractiveIndexInfo"] is False, C.get_config()
''', "declining the refractiveindex.info module", "the configuration is written before the modules are chosen")

S("c22-default-yes", "C22", [("catalogue.py", "        elif ans == 'y':\n            valid_ans = True\n", "        elif ans.strip() == 'y':\n            valid_ans = True\n")],
CAT + '''
import builtins, sys
C = sys.modules["dispersion.config"]
txt("a.txt", 1.5)
d = os.path.join(os.environ["HOME"], ".config", "dispersion"); os.makedirs(d, exist_ok=True)
C.write_config(conf(), dir_path=d)
answers = iter([" y", "n"])
builtins.input = lambda q: next(answers)
from dispersion import rebuild_catalogue
rebuild_catalogue()
assert not os.path.exists(os.path.join(root, "cat.csv")), "rebuilt without an explicit y"
''', "the answer ' y' with a blank", "an answer that is not exactly y starts the rebuild")

S("c23-converted", "C23", [("material.py", """            values = spectrum.convert_to(plot_data['spectrum_type'],
                                         plot_data['unit'])
""", """            values = spectrum.convert_to(plot_data['spectrum_type'],
                                         plot_data['unit'])
            values = np.sort(values)[np.sort(values) > values.min()]
""")],
'''
import numpy as np, matplotlib.pyplot as plt
from dispersion import Material
m = Material(tabulated_nk=np.array([[400., 1., .1], [700., 2., .3]]), spectrum_type='wavelength', unit='nm')
f, a = plt.subplots()
m.plot_nk_data(axes=a)
x = a.lines[0].get_xdata()
assert abs(min(x) - 400.) < 1e-6 and abs(max(x) - 700.) < 1e-6, (min(x), max(x))
''', "a plot without values", "the lower end of the range is missing from the plot")

S("c23-imag-eps", "C23", [("material.py", "            data = self.get_permittivity(plot_data['spectrum'])\n            labels = ['eps_r', 'eps_i']\n", "            data = self.get_permittivity(plot_data['spectrum'])\n            if self.data['complex'] is not None:\n                data = np.conj(data)\n            labels = ['eps_r', 'eps_i']\n")],
'''
import numpy as np, matplotlib.pyplot as plt
from dispersion import Material, Spectrum
m = Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([1., 3.]), 'parameters': np.array([8., .2])})
f, a = plt.subplots()
m.plot_permittivity(axes=a, values=np.array([1.5, 2.]))
y = a.lines[1].get_ydata(); w = np.imag(m.get_permittivity(Spectrum(np.array([1.5, 2.]), 'energy', 'ev')))
assert np.allclose(y, w), (y, w)
''', "the permittivity plot of a material defined by a complex model", "the imaginary part is drawn with the wrong sign")

S("c24-spec", "C24", [("material.py", "        if not self.data['name'] == other.data['name']:\n            return False\n        return True\n", "        if self.data['name'] == 'nk':\n            return other.data['name'] == 'nk'\n        return True\n")],
'''
from dispersion import Material
a = Material(fixed_eps=2+.1j); b = Material(fixed_nk=2+.1j)
assert not (a == b) and not (b == a), (a == b, b == a)
''', "a permittivity material on the left of the comparison with an index material", "equality is not symmetric")
