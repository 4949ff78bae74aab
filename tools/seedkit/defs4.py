exec(open('/tmp/seedkit/defs3.py').read().split('S("c14-text-meta"')[0])

S("c01-inplace-rebase", "C01", [("spectrum.py", "            self.values = converted_values\n            self.spectrum_type = spectrum_type\n            self.unit = unit\n", "            self.spectrum_type = spectrum_type\n            self.unit = unit\n            self.values = converted_values\n            self.standardise_values(self.values)\n")],
'''
import numpy as np
from dispersion import Spectrum
s = Spectrum(np.array([0.0123456789]), spectrum_type='wavelength', unit='nm')
s.convert_to('wavelength', 'um', in_place=True)
s.convert_to('wavelength', 'nm', in_place=True)
assert abs(s.values[0] - 0.0123456789) < 1e-9, s.values
''', "a sequence of in-place conversions through a coarsely rounded unit", "in-place conversions accumulate rounding")

S("c02-retro-unit", "C02", [("spectral_data.py", """        super(Retro, self).__init__(model_parameters, valid_range,
                                    spectrum_type=spectrum_type,
                                    unit=unit)
        self.required_spectrum_type = 'wavelength'
        self.required_unit = 'um'
        self.output = 'n'
        self.validate_spectrum_type()
""", """        super(Retro, self).__init__(model_parameters, valid_range,
                                    spectrum_type=spectrum_type,
                                    unit=unit)
        self.required_spectrum_type = 'wavelength'
        self.required_unit = 'um'
        self.output = 'n'
""")],
'''
from dispersion.spectral_data import Retro
try:
    Retro([0.1, 0.1, 0.01, 0.0], (400., 800.), spectrum_type='wavelength', unit='nm')
except ValueError:
    pass
else:
    raise SystemExit("accepted nm")
''', "the Retro model constructed with a unit other than micrometres", "a model is accepted in a unit its formula is not written for")

S("c02-unit-memo", "C02", [("spectrum.py", """        valid = False
        unit_type = ""
        for unit_type, aliases in Spectrum.UNIT_TYPES.items():
            if (unit in aliases and
                    unit_type in Spectrum.SPECTRUM_TYPES[spectrum_type]):
                valid = True
                break
""", """        known = Spectrum.__dict__.get('_known_units', {})
        valid = unit in known
        unit_type = known.get(unit, "")
        for _type, aliases in Spectrum.UNIT_TYPES.items():
            if valid:
                break
            if (unit in aliases and
                    _type in Spectrum.SPECTRUM_TYPES[spectrum_type]):
                valid = True
                unit_type = _type
                Spectrum._known_units = dict(known, **{unit: _type})
""")],
'''
from dispersion import Spectrum
Spectrum(2.0, spectrum_type='energy', unit='eV')
try:
    Spectrum(2.0, spectrum_type='frequency', unit='eV')
except (ValueError):
    pass
else:
    raise SystemExit("frequency in eV accepted")
''', "the same unit used before with the type it belongs to", "a unit is accepted for a type it does not belong to once it has been seen")

S("c03-perm-skip", "C03", [("material.py", """        if self.data['complex'] is None:
            real = self.data['real'].evaluate(spectrum)
            imag = 1j*self.data['imag'].evaluate(spectrum)
            complex_val = real+imag
        else:
            complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'nk':
            complex_val = np.power(complex_val, 2)
""", """        if self.data['complex'] is None:
            real = self.data['real'].evaluate(spectrum)
            imag = self.data['imag']
            if isinstance(imag, Constant):
                complex_val = real + 1j*imag.constant
            else:
                complex_val = real + 1j*imag.evaluate(spectrum)
        else:
            complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'nk':
            complex_val = np.power(complex_val, 2)
""")],
'''
import numpy as np
from dispersion import Material
from dispersion.spectral_data import Constant
m = Material(tabulated_n=np.array([[400., 1.], [800., 2.]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Constant(0.1, valid_range=(500., 600.), spectrum_type='wavelength', unit='nm')
try:
    v = m.get_permittivity(np.array([550., 700.]), spectrum_type='wavelength', unit='nm')
except ValueError:
    pass
else:
    raise SystemExit("value outside the imaginary part's range: %r" % v)
''', "permittivity of a material whose imaginary part is constant with a narrower range", "the range of a constant imaginary part is not enforced for the permittivity")

S("c06-endpoint-cache", "C06", [("spectral_data.py", """        values = spectrum.convert_to(self.spectrum_type, self.unit)
        values = np.clip(values, np.min(self.valid_range.values),
                         np.max(self.valid_range.values))
        return self.interpolation(values)
""", """        values = spectrum.convert_to(self.spectrum_type, self.unit)
        values = np.clip(values, np.min(self.valid_range.values),
                         np.max(self.valid_range.values))
        if np.ndim(values) == 0:
            return self.interpolation(values)
        key = (len(values), float(values[0]), float(values[-1]))
        if getattr(self, '_last_key', None) != key:
            self._last_key = key
            self._last_result = self.interpolation(values)
        return np.array(self._last_result)
""")],
'''
import numpy as np
from dispersion import Material
m = Material(tabulated_n=np.array([[400., 1.], [800., 2.]]), spectrum_type='wavelength', unit='nm')
k = dict(spectrum_type='wavelength', unit='nm')
m.get_nk_data(np.array([400., 500., 800.]), **k)
b = m.get_nk_data(np.array([400., 700., 800.]), **k)
assert abs(b[1] - 1.75) < 1e-9, b
''', "two queries of one material with equal length and end values but different interior", "the result of an earlier query is returned")

S("c08-complex-float", "C08", [("material.py", "        complex_types = {complex, np.cdouble}\n", "        complex_types = {complex, np.cdouble, float}\n")],
'''
from dispersion import Material
for kw in ('fixed_nk', 'fixed_eps'):
    try:
        Material(**{kw: 1.5})
    except TypeError:
        continue
    raise SystemExit("float accepted for " + kw)
''', "a float given where a complex number is required", "fixed_nk / fixed_eps accept a float")

S("c09-const-skip", "C09", [("material.py", """            lower = np.max([real_lower, imag_lower])
            upper = np.min([real_upper, imag_upper])
""", """            if isinstance(self.data['imag'], Constant):
                lower, upper = real_lower, real_upper
            else:
                lower = np.max([real_lower, imag_lower])
                upper = np.min([real_upper, imag_upper])
""")],
'''
import numpy as np
from dispersion import Material
from dispersion.spectral_data import Constant
m = Material(tabulated_n=np.array([[400., 1.], [800., 2.]]), spectrum_type='wavelength', unit='nm')
m.data['imag'] = Constant(0.1, valid_range=(500., 600.), spectrum_type='wavelength', unit='nm')
r = m.get_maximum_valid_range()
assert abs(r[0] - 500) < 1e-6 and abs(r[1] - 600) < 1e-6, r
''', "a constant imaginary part with a narrower range than the real part", "the reported range ignores a constant imaginary part")

S("c10-order-cap", "C10", [("spectral_data.py", "                                    k=self.spline_order)\n", "                                    k=min(self.spline_order, 3))\n")],
'''
import numpy as np
from scipy.interpolate import splrep, splev
from dispersion import Material, Spectrum
m = Material(model_kw={'name': 'Sellmeier', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([0.4, 0.8]), 'parameters': np.array([0., 1.1, 0.2, 1., 5.])})
s = m.data['real'].suggest_spectrum(); v = m.data['real'].evaluate(s)
want = float(splev(1.5, splrep(s.values, v, k=5)))
m.extrapolate(Spectrum(1.6, spectrum_type='wavelength', unit='um'), spline_order=5)
got = m.get_nk_data(1.5, spectrum_type='wavelength', unit='um').real
assert abs(got - want) < 1e-6 * abs(want), (got, want)
''', "extrapolation with spline order 4 or 5", "a requested spline order above 3 is silently lowered")

S("c11-brug-abs", "C11", [("material.py", """        p = 0.5*(self.frac*(eps_b-2*eps_a) + (1-self.frac)*(eps_a-2*eps_b) )
        return -p*0.5  - np.sqrt((0.5*p)**2 - q)
""", """        p = 0.5*(self.frac*(eps_b-2*eps_a) + (1-self.frac)*(eps_a-2*eps_b) )
        root = np.sqrt((0.5*p)**2 - q)
        root = np.where(np.imag(root) < 0, -root, root)
        return -p*0.5  - root
""")],
'''
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import Bruggeman
s = Spectrum(np.array([500., 600.]), spectrum_type='wavelength', unit='nm')
worst = 0
rng = np.random.RandomState(0)
for i in range(400):
    e1 = complex(rng.uniform(-20, 5), rng.uniform(0, 3)); e2 = complex(rng.uniform(-20, 10), rng.uniform(0, 3)); f = rng.uniform()
    b = Bruggeman(s, Material(fixed_eps=e1), Material(fixed_eps=e2), f)
    e = b.get_permittivity(s)[0]
    worst = max(worst, abs((1-f)*(e1-e)/(e1+2*e) + f*(e2-e)/(e2+2*e)))
    assert e.imag > -1e-9, e
assert worst < 1e-6, worst
''', "permittivities for which the root in the Bruggeman equation has a negative imaginary part", "the second Bruggeman solution is taken on the wrong branch")

S("c12-key-inside", "C12", [("io.py", """                for key in Reader.FILE_META_DATA_KEYS:
                    if kwd.startswith(key.upper()):
                        if key == 'Specification':
""", """                for key in sorted(Reader.FILE_META_DATA_KEYS):
                    if key.upper() in kwd.split("(")[0]:
                        if key == 'Specification':
""")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write("# NAME: gold\\n# file name: au.dat\\n400 1 0.1\\n500 2 0.2\\n")
m = Material(file_path=p)
assert m.meta_data['Name'] == 'gold', m.meta_data
''', "a header line whose text before the colon contains, but does not start with, a keyword", "such a line overwrites the metadata")

S("c12-equals", "C12", [("io.py", '            kwd_arg = line.split(":")\n', '            kwd_arg = re.split(r":|=(?=\\s)", line)\n')],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write("# NAME: gold\\n# COMMENT: grown at T = 300 K: fast\\n# n = 3 runs\\n400 1 0.1\\n500 2 0.2\\n")
m = Material(file_path=p)
assert m.meta_data['Comment'] == 'grown at T = 300 K: fast', m.meta_data
''', "a metadata value containing an equals sign", "an equals sign in a value is replaced by a colon")

S("c12-crlf", "C12", [("io.py", '                    comment.append(line[1:].rstrip("\\n\\r"))\n', '                    comment.append(line[1:].rstrip("\\n"))\n'),
  ("io.py", '                arg = ":".join(kwd_arg[1:]).rstrip("\\n\\r").lstrip()\n', '                arg = ":".join(kwd_arg[1:]).lstrip()\n')],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'wb').write(b"# NAME: gold\\r\\n# AUTHOR: me\\r\\n400 1 0.1\\r\\n500 2 0.2\\r\\n")
m = Material(file_path=p)
assert m.meta_data['Name'] == 'gold', m.meta_data
''', "a text file with Windows line endings", "metadata values end in a carriage return")

S("c13-type-prefix", "C13", [("io.py", "                        if kwd == alias.upper():\n", "                        if kwd.startswith(alias.upper()):\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write("DATA:\\n  - type: tabulated nk\\n    unit: um\\n    unit_note: nm\\n    data: |\\n        0.4 1.5 0.1\\n        0.8 1.6 0.2\\n")
m = Material(file_path=p)
v = m.get_nk_data(0.6, spectrum_type='wavelength', unit='um')
assert abs(v - (1.55 + .15j)) < 1e-9, v
''', "a data set with an extra entry whose name begins like a known one", "an unrelated entry overwrites the unit of the data set")

S("c13-spec-late", "C13", [("material.py", """        if meta_data['Unit']:
            model_dict['unit'] = meta_data['Unit']
        else:
            model_dict['unit'] = self.defaults['unit']
""", """        if meta_data['Unit'] and meta_data['SpectrumType']:
            model_dict['unit'] = meta_data['Unit']
        else:
            model_dict['unit'] = self.defaults['unit']
""")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write("DATA:\\n  - type: formula 1\\n    Unit: micrometer\\n    wavelength_range: 0.3 2.0\\n    coefficients: 0 1.0 0.1\\n")
m = Material(file_path=p)
v = m.get_nk_data(0.6, spectrum_type='wavelength', unit='um')
assert v.real > 1
''', "a formula data set with a unit but no spectrum type", "the unit of the data set is ignored")

S("c14-collapse-unit", "C14", [("material.py", """        if datasets[0]['Unit'] != datasets[1]['Unit']:
            collapse = False
""", """        if (datasets[0]['Unit'][:1] != datasets[1]['Unit'][:1]):
            collapse = False
""")],
'''
import os, numpy as np
from dispersion import Material, Writer, Interpolation
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
m = Material(tabulated_n=np.array([[1.0, 1.0], [2., 2.0]]), spectrum_type='wavelength', unit='m')
m.data['imag'] = Interpolation(np.array([[1.0, 0.1], [2., 0.2]]), spectrum_type='wavelength', unit='micrometer')
Writer(p, m).write_file()
r = Material(file_path=p)
hi = [np.max(r.data[k].valid_range.standard_rep) for k in ('real', 'imag')]
assert abs(hi[0] - 2) < 1e-12 and abs(hi[1] - 2e-6) < 1e-12, hi
''', "real and imaginary tables with equal abscissae in different units of one initial", "two tables with different units are merged into one")

S("c14-meta-strip", "C14", [("io.py", "        text = text.rstrip('\\n\\r')\n", "        text = \"\\n\".join(l for l in text.splitlines() if l.strip())\n")],
'''
import os, numpy as np
from dispersion import Material, Writer
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
m = Material(tabulated_nk=np.array([[400., 1., 0.1], [500., 2., 0.2]]), spectrum_type='wavelength', unit='nm')
m.meta_data['MetaComment'] = 'one\\n\\ntwo'
Writer(p, m).write_file()
r = Material(file_path=p)
assert r.meta_data['MetaComment'] == 'one\\n\\ntwo', r.meta_data
''', "a meta comment with an empty line", "empty lines of the meta comment are lost")

S("c15-dotted", "C15", [("catalogue.py", "            [name, ext] = os.path.splitext(filename)\n", "            name = filename.split('.')[0]\n            ext = os.path.splitext(filename)[1]\n")],
CAT + '''
txt("Au.film.txt", 1.5)
c = Catalogue(config=conf(), rebuild="All")
assert list(c.database.Name) == ["Au.film"], list(c.database.Name)
''', "a data file with a dot in its stem", "the listed name is cut at the first dot")

S("c15-skip-bad", "C15", [("catalogue.py", """                except OSError as exc:
                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    continue
""", """                except OSError as exc:
                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    break
""")],
CAT + '''
rii(["A", "B", "C"])
os.remove(os.path.join(root, "RefractiveIndexInfo/database/data-nk/Ag/A.yml"))
c = Catalogue(config=conf(ud=False, rii=True), rebuild="All")
assert list(c.database.Author) == ["B", "C"], list(c.database.Author)
''', "a library page whose file is missing, followed by pages that exist", "the pages after a missing file are not listed")

S("c16-module-prefix", "C16", [("catalogue.py", "                if module in rebuild or rebuild == 'All':\n", "                if str(module) in str(rebuild) or rebuild == 'All' or module == 'UserData' and df.Module.eq(module).sum() == 0:\n")],
CAT + '''
rii(["A"]); txt("x.txt", 1.5)
c = Catalogue(config=conf(True, True), rebuild="All")
db = c.database[c.database.Module != "UserData"]
c.set_database(db); c.save_to_file()
c = Catalogue(config=conf(True, True), rebuild="RefractiveIndexInfo")
assert list(c.database.Module) == ["RefractiveIndexInfo"], list(c.database.Module)
''', "a stored catalogue without rows of a module that is enabled but not named", "a module that was not named is rebuilt too")

S("c17-module-scope", "C17", [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n", "        module = self.database.at[index, 'Module']\n        if alias in self.database.loc[self.database.Module == module, 'Alias'].values:\n")],
CAT + '''
rii(["A"]); txt("x.txt", 1.5)
c = Catalogue(config=conf(True, True), rebuild="All")
c.register_alias(0, "Ag")
try:
    c.register_alias(1, "Ag")
except ValueError: pass
assert (c.database.Alias == "Ag").sum() == 1
''', "the same alias for rows of two different modules", "an alias may name materials of two modules")

S("c18-name-fallback", "C18", [("catalogue.py", "            bool_array = self.database.Alias.values == identifier\n", "            bool_array = self.database.Alias.values == identifier\n            if not bool_array.any():\n                bool_array = self.database.Name.values == identifier\n")],
CAT + '''
txt("x.txt", 1.5)
c = Catalogue(config=conf(), rebuild="All")
try:
    c.get_material("x")
except ValueError: pass
else: raise SystemExit("a name that is no alias was accepted")
''', "lookup by a string that is a material's name but no alias", "an unregistered alias is resolved")

S("c19-dedupe", "C19", [("catalogue.py", "        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n", "        rows = self.database.drop_duplicates(subset=['Name', 'Author', 'Module',\n                                                     'Alias'])\n        rows.to_csv(os.path.join(self.base_path, self.file_name),\n")],
CAT + '''
txt("x.txt", 1.5); put("UserData", "x.csv", "400,1.4,0.0\\n800,1.4,0.0\\n")
c = Catalogue(config=conf(), rebuild="All")
c.save_to_file()
d = Catalogue(config=conf())
assert len(d.database) == 2, d.database
''', "two rows with equal name, author, module and alias", "one of two similar rows is lost when saving")

S("c19-newline", "C19", [("catalogue.py", "        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n", "        self.database.replace('\\n', ' ', regex=True).to_csv(os.path.join(self.base_path, self.file_name),\n")],
CAT + '''
put("UserData", "x.yml", "COMMENTS: |\\n  one\\n  two\\nDATA:\\n  - type: tabulated nk\\n    data: |\\n        400 1.5 0.1\\n        800 1.6 0.2\\n")
c = Catalogue(config=conf(), rebuild="All")
c.save_to_file()
d = Catalogue(config=conf())
assert list(d.database.Comment) == list(c.database.Comment), list(d.database.Comment)
''', "a material with a comment of several lines", "line breaks in an entry are lost when saving")

S("c20-value-int", "C20", [("config.py", "    for value in config['Modules'].values():\n        check_type(value,bool)\n", "    for value in list(config['Modules'].values())[:2]:\n        check_type(value,bool)\n")],
'''
import os
from dispersion.config import validate_config, default_config
c = default_config(); c['Modules']['Filmetrics'] = 'yes'
try:
    validate_config(c)
except ValueError: pass
else: raise SystemExit("accepted")
''', "three modules, the third one not boolean", "modules after the second are not validated")

S("c21-decline-keeps", "C21", [("scripts/setup_dispersion.py", "        conf['Modules'][module] = install\n        if install:\n", "        if install:\n            conf['Modules'][module] = install\n")],
'''
import os, builtins, yaml, sys
os.makedirs(os.path.join(os.environ['SCRATCH'], 'r'))
from dispersion.scripts import setup_dispersion as s
ans = iter([os.path.join(os.environ['SCRATCH'], 'r'), 'y', '', 'y', 'n', 'n'])
builtins.input = lambda *a: next(ans)
s.main()
c = yaml.safe_load(open(os.path.join(os.environ['HOME'], '.config/dispersion/config.yaml')))
assert c['Modules']['RefractiveIndexInfo'] is False, c
''', "declining a module that is enabled by default", "a declined module is written as enabled")

S("c22-patience", "C22", [("catalogue.py", "    while not valid_ans:\n        ans = input(", "    for _ in range(4):\n        if valid_ans:\n            break\n        ans = input(")],
CAT + '''
import builtins, yaml
txt("x.txt", 1.5)
d = os.path.join(os.environ["HOME"], ".config", "dispersion"); os.makedirs(d, exist_ok=True)
yaml.safe_dump(conf(), open(os.path.join(d, "config.yaml"), "w"))
open(os.path.join(root, "cat.csv"), "w").write("OLD")
from dispersion.catalogue import rebuild_catalogue
ans = iter(["", "no", "Y", "q", "x", "n"])
builtins.input = lambda *a: next(ans)
rebuild_catalogue()
assert open(os.path.join(root, "cat.csv")).read() == "OLD"
''', "four answers in a row that are neither y nor n", "the catalogue is overwritten without a yes")

S("c23-abs-imag", "C23", [("material.py", "        data_i = np.imag(data)\n", "        data_i = np.abs(np.imag(data))\n")],
'''
import numpy as np, matplotlib.pyplot as plt
from dispersion import Material
m = Material(tabulated_nk=np.array([[400., 1., -0.1], [500., 2., 0.2]]), spectrum_type='wavelength', unit='nm')
m.plot_nk_data()
y = plt.gca().lines[1].get_ydata()
assert y[0] < 0, y
''', "a material with gain (negative imaginary part)", "plots show the magnitude of the imaginary part")

S("c24-subclass", "C24", [("material.py", "        if not isinstance(other, Material):\n            return False\n", "        if not isinstance(other, type(self)):\n            return False\n")],
'''
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import Simple
s = Spectrum(np.array([500., 600.]), spectrum_type='wavelength', unit='nm')
a = Material(fixed_eps=2+.1j); b = Simple(s, a, Material(fixed_eps=3+.1j), 0.5)
assert a == b and b == a, (a == b, b == a)
''', "a material compared with an effective medium of equal metadata", "equality depends on the class and not on metadata and data kind")

S("c24-empty-name", "C24", [("material.py", "        if not self.data['name'] == other.data['name']:\n            return False\n", "        if not self.data['name'].startswith(other.data['name'][:1]):\n            return False\n        if (self.data['complex'] is None) != (other.data['complex'] is None):\n            return False\n")],
'''
import numpy as np
from dispersion import Material
a = Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([0.1, 6.]), 'parameters': np.array([3., 0.1])})
b = Material(fixed_eps=2+.1j)
assert a == b
''', "a complex model compared with a material of separate parts, equal metadata and kind", "materials of one kind and metadata differ by representation")
