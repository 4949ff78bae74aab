exec(open('/tmp/seedkit/defs6.py').read().split('S("c25-view')[0])
SEEDS.clear() if 'SEEDS' in globals() else None
NK = "import numpy as np\nfrom dispersion import Material, Spectrum\n"
S("c01-tiny", "C01", [("spectrum.py", "    zero_ind = values == 0.0\n", "    zero_ind = np.abs(values) < 1e-15\n")],
NK + '''
s = Spectrum(np.array([1e24, 1e12]), 'frequency', 'hz')
assert np.allclose(s.convert_to('angularfrequency', '1/s'), 2*np.pi*np.array([1e24, 1e12]))
''', "arrays of gamma ray frequencies", "they become infinite")
S("c02-underscore", "C02", [("spectrum.py", "        self.spectrum_type = spectrum_type.lower()\n        if self.spectrum_type not in", "        self.spectrum_type = spectrum_type.lower().replace('_', '')\n        if self.spectrum_type not in")],
NK + '''
try: Spectrum(5., 'wave_length', 'nm')
except ValueError: pass
else: raise SystemExit(1)
''', "a type name with an underscore", "an unknown type is accepted at construction")
S("c03-id-memo", "C03", [("spectral_data.py", "        self.valid_range.contains(spectrum)\n        new_spectrum = spectrum.convert_to(self.spectrum_type,\n                                           self.unit)\n", "        new_spectrum = spectrum.convert_to(self.spectrum_type,\n                                           self.unit)\n        # real and imaginary part are often requested for the same values\n        key = (spectrum.spectrum_type, np.size(new_spectrum),\n               float(np.mean(new_spectrum)))\n        if key != getattr(self, '_checked', None):\n            self.valid_range.contains(spectrum)\n            self._checked = key\n")],
NK + '''
m = Material(model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([.4, .8]), 'parameters': np.array([1.5, .1, -2.])})
m.get_nk_data(np.array([.5, .7]), unit='um')
try: m.get_nk_data(np.array([.2, 1.]), unit='um')
except ValueError: pass
else: raise SystemExit(1)
''', "two queries one after the other whose mean agrees", "the second is not checked")
S("c04-large-linear", "C04", [("spectral_data.py", "        return self.interpolation(values)\n", "        if np.size(values) > 256:\n            # much faster for many values\n            return np.interp(values, self.data[:, 0], self.data[:, 1])\n        return self.interpolation(values)\n")],
NK + '''
x = np.array([400., 500., 600., 700., 800.])
m = Material(tabulated_n=np.array([x, (x/100)**2]).T, interp_order=2)
q = np.linspace(400, 800, 300)
assert np.allclose(m.get_nk_data(q, unit='nm').real, (q/100)**2)
''', "a spline and more than 256 values at once", "they are interpolated linearly")
S("c05-neg-c", "C05", [("spectral_data.py", "            rhs += cupper*wvlsq/(wvlsq-clower**2)\n", "            rhs += cupper*wvlsq/(wvlsq-clower*abs(clower))\n")],
NK + '''
m = Material(model_kw={'name': 'Sellmeier', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([.4, .8]), 'parameters': np.array([0., 1.1, -.2])})
assert np.isclose(m.get_permittivity(.5, unit='um').real, 1+1.1*.25/(.25-.04))
''', "a negative resonance wavelength", "the sign counts although it is squared")
S("c05-rii-neg", "C05", [("spectral_data.py", "                    (wvlsq-np.power(c_multi_lower, c_power_lower)))\n", "                    (wvlsq-np.power(np.abs(c_multi_lower), c_power_lower)))\n")],
NK + '''
m = Material(model_kw={'name': 'RefractiveIndexInfo', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([.4, .8]), 'parameters': np.array([2., .1, 0., -.05, 1.])})
assert np.isclose(m.get_permittivity(.5, unit='um').real, 2+.1/(.25+.05))
''', "formula 4 with a negative constant in the denominator", "its sign is lost")
S("c06-big-round", "C06", [("spectral_data.py", "        return self.interpolation(values)\n", "        if np.size(values) > 500:\n            # many values are often repeated ones\n            values, back = np.unique(np.round(values, 4), return_inverse=True)\n            values = np.clip(values, self.data[0, 0], self.data[-1, 0])\n            return self.interpolation(values)[back]\n        return self.interpolation(values)\n")],
NK + '''
m = Material(tabulated_n=np.array([[.4, 1.], [.8, 2.]]), unit='um')
q = np.linspace(.4, .8, 700)
a = m.get_nk_data(q, unit='um')
assert np.allclose(a, [m.get_nk_data(float(x), unit='um') for x in q], rtol=1e-9)
''', "more than five hundred values at once", "values depend on how many are requested")
S("c08-exact-type", "C08", [("material.py", "                    if isinstance(args[arg], _type):\n", "                    if type(args[arg]) is _type:\n")],
NK + '''
from collections import OrderedDict
m = Material(model_kw=OrderedDict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=np.array([.4, .8]), parameters=np.array([1.5, .1, -2.])))
class T(np.ndarray): pass
Material(tabulated_n=np.array([[400., 1.], [500., 2.]]).view(T))
''', "a subclass of the documented type", "it is rejected")
S("c09-isclose", "C09", [("material.py", "        max_range = np.array([lower, upper])\n", "        if np.isclose(lower, upper):\n            upper = lower # a single value up to round off\n        max_range = np.array([lower, upper])\n")],
NK + '''
m = Material(tabulated_n=np.array([[10., 1.5], [15., 1.4]]))
assert np.allclose(m.get_maximum_valid_range(), [10., 15.])
''', "a range of a few nanometres", "it collapses to one value")
S("c09-case", "C09", [("spectrum.py", "        test_str = type_to_check.lower()\n        if test_str not in Spectrum.SPECTRUM_TYPES:\n            raise ValueError(\"spectrum type \" +\n                             \"{} not valid, valid types are: {}\".format(\n                                 test_str, Spectrum.SPECTRUM_TYPES.keys()))\n        return test_str == is_type\n", "        test_str = type_to_check.lower()\n        if test_str not in Spectrum.SPECTRUM_TYPES:\n            raise ValueError(\"spectrum type \" +\n                             \"{} not valid, valid types are: {}\".format(\n                                 test_str, Spectrum.SPECTRUM_TYPES.keys()))\n        return type_to_check == is_type\n")],
NK + '''
m = Material(tabulated_n=np.array([[10., 1.5], [15., 1.4]]), spectrum_type='Wavelength', unit='NM')
assert np.allclose(m.get_maximum_valid_range(), [10., 15.])
''', "a type given in another letter case", "the range is upside down")
S("c12-long-header", "C12", [("io.py", "            for line in fpt:\n                if line[0]", "            for number, line in enumerate(fpt):\n                if number < 100 and line[0]")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write(''.join('# line %d\\n' % i for i in range(150)) + '# UNIT: um\\n0.4 1.5\\n0.6 1.4\\n')
m = Material(file_path=p)
assert m.get_maximum_valid_range()[1] == .6 and m.defaults['unit'] == 'um'
''', "a header of more than a hundred lines", "its end is not read")
S("c12-many-rows", "C12", [("io.py", "                    data = np.loadtxt(self.file_path, encoding='utf-8',\n                                      delimiter=',')\n", "                    data = np.loadtxt(self.file_path, encoding='utf-8',\n                                      delimiter=',', max_rows=5000)\n")],
'''
import os
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.csv')
open(p, 'w').write(''.join('%d,1.5\\n' % i for i in range(1, 6001)))
assert Material(file_path=p).get_maximum_valid_range()[1] == 6000.
''', "a csv file of more than five thousand rows", "the rest is not read")
S("c14-allclose", "C14", [("material.py", "        if not np.array_equal(n_data[:, 0], k_data[:, 0]):\n", "        if not (n_data.shape == k_data.shape and\n                np.allclose(n_data[:, 0], k_data[:, 0])):\n")],
'''
import os, numpy as np
from dispersion import Material, Writer, Interpolation
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
m = Material(tabulated_n=np.array([[400., 1.5], [500., 1.4]]))
m.data['imag'] = Interpolation(np.array([[400.001, .5], [500.001, .1]]), unit='nanometer')
Writer(p, m).write_file()
assert np.allclose(Material(file_path=p).get_maximum_valid_range(), [400.001, 500.], rtol=1e-9)
''', "tables for n and k whose spectral values nearly agree", "those of k are replaced by those of n")
S("c14-epsk-name", "C14", [("material.py", "        elif identifier == 'eps_k':\n            self.data['name'] = 'eps'\n", "        elif identifier == 'eps_k':\n            self.data['name'] = self.data['name'] or 'nk'\n")],
'''
import os, numpy as np
from dispersion import Material, Writer, Constant
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
m = Material(tabulated_eps=np.array([[400., 1.5, .2], [500., 1.4, .3]]))
m.data['real'] = Constant(0.0)
Writer(p, m).write_file()
assert np.isclose(Material(file_path=p).get_permittivity(400., unit='nm'), .2j)
''', "a material with imaginary permittivity only", "it is read back as refractive index")
S("c15-gain", "C15", [("catalogue.py", "            content_dict['K_Reference'] = np.imag(ref_index)\n            database_list.append(content_dict)\n", "            content_dict['K_Reference'] = abs(np.imag(ref_index))\n            database_list.append(content_dict)\n")],
CATHEAD + '''
put('a.txt', '400 1.5 -0.1\\n800 1.5 -0.1\\n')
cat = C.Catalogue(config=conf, rebuild='All')
assert np.isclose(cat.get_database().K_Reference[0], -.1)
''', "a medium with gain", "its k is listed without sign")
S("c15-edge", "C15", [("catalogue.py", "            try:\n                ref_index = mat.get_nk_data(self.reference_spectrum)\n", "            try:\n                ref = self.reference_spectrum.convert_to('wavelength', 'nanometer')\n                if ref <= valid_range[0] or ref >= valid_range[1]:\n                    raise ValueError('no data')\n                ref_index = mat.get_nk_data(self.reference_spectrum)\n")],
CATHEAD + '''
put('a.txt', '%r 1.5 0.1\\n800 1.5 0.1\\n' % float(conf['ReferenceSpectrum']['Value']))
cat = C.Catalogue(config=conf, rebuild='All')
assert np.isclose(cat.get_database().N_Reference[0], 1.5)
''', "data which begin at the reference", "they are listed without a reference value")
S("c16-dedupe", "C16", [("catalogue.py", "                    dframe = df[df.Module == module]\n", "                    dframe = df[df.Module == module]\n                    dframe = dframe.drop_duplicates(subset=['Path'])\n")],
CATHEAD + '''
conf['Modules']['RefractiveIndexInfo'] = True
d = os.path.join(root, 'RefractiveIndexInfo', 'database')
os.makedirs(os.path.join(d, 'data'))
open(os.path.join(d, 'data', 'x.yml'), 'w').write('DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.8 1.4\\n')
open(os.path.join(d, 'library.yml'), 'w').write('- SHELF: a\\n  name: a\\n  content:\\n    - BOOK: b\\n      name: b\\n      content:\\n        - PAGE: p\\n          name: p\\n          data: x.yml\\n        - PAGE: q\\n          name: q\\n          data: x.yml\\n')
put('a.txt')
C.Catalogue(config=conf, rebuild='All').save_to_file()
assert len(C.Catalogue(config=conf, rebuild='UserData').get_database()) == 3
''', "pages sharing a data file and a rebuild of another module", "one of them is lost")
S("c18-wrap", "C18", [("catalogue.py", "            row = self.database.iloc[identifier, :]\n        else:", "            row = self.database.iloc[identifier % max(len(self.database), 1), :]\n        else:")],
CATHEAD + '''
put('a.txt', '400 1.5\\n600 1.5\\n'); put('b.txt', '400 2.5\\n600 2.5\\n')
cat = C.Catalogue(config=conf, rebuild='All')
try: cat.get_material(5)
except Exception: pass
else: raise SystemExit(1)
''', "a row number beyond the table", "some other material is returned")
S("c19-strip-cr", "C19", [("catalogue.py", "        self.database.to_csv(os.path.join(self.base_path, self.file_name),\n", "        self.database.replace({'Reference': r'\\s+', 'Comment': r'\\s+'}, ' ',\n                              regex=True).to_csv(os.path.join(self.base_path, self.file_name),\n")],
CATHEAD + '''
put('a.txt', '# COMMENTS: two  blanks\\n400 1.5\\n600 1.5\\n')
cat = C.Catalogue(config=conf, rebuild='All')
cat.save_to_file()
assert C.Catalogue(config=conf).get_database().Comment[0] == 'two  blanks'
''', "repeated blanks in a comment", "they are collapsed in the file")
S("c23-new-figure", "C23", [("material.py", "            plot_data['axes'] = plt.axes()\n", "            plot_data['axes'] = plt.figure().add_subplot()\n")],
NK + '''
import matplotlib.pyplot as plt
f = plt.figure()
Material(fixed_n=1.5).plot_nk_data(values=np.array([400., 500.]))
assert len(f.axes) == 1 and plt.gcf() is f
''', "a figure made before plotting", "another figure is used")
S("c24-str", "C24", [("material.py", "        if not self.data['name'] == other.data['name']:\n            return False\n        return True\n", "        if self.data['name'] and not self.data['name'] == other.data['name']:\n            return False\n        return not (self.data['complex'] is None) ^ (other.data['complex'] is None)\n")],
NK + '''
a = Material(fixed_eps=2.+0j)
b = Material(model_kw={'name': 'Drude', 'spectrum_type': 'energy', 'unit': 'ev', 'valid_range': np.array([.4, .8]), 'parameters': np.array([1.5, .1])})
assert a == b and b == a
''', "a material defined by a complex model and one that is not", "they differ although metadata and kind agree")
S("c20-nan", "C20", [("config.py", "    check_type(ref_spec['Value'],float)\n", "    if not isinstance(ref_spec['Value'], bool):\n        ref_spec['Value'] = float(ref_spec['Value'])\n    check_type(ref_spec['Value'],float)\n")],
'''
import os
from dispersion.config import default_config, validate_config
c = default_config(); c['Path'] = os.environ['SCRATCH']; c['ReferenceSpectrum']['Value'] = '632.8'
try: validate_config(c)
except Exception: pass
else: raise SystemExit(1)
''', "a reference value given as text", "it is accepted")
S("c21-existing-userdata", "C21", [("scripts/setup_dispersion.py", "    make_example_txt(module_dir)\n    make_example_yaml(module_dir)\n", "    if not os.listdir(module_dir):\n        make_example_txt(module_dir)\n        make_example_yaml(module_dir)\n")],
'''
import os
from dispersion.scripts import setup_dispersion as s
d = os.path.join(os.environ['SCRATCH'], 'u'); os.makedirs(d)
open(os.path.join(d, 'mine.txt'), 'w').write('400 1.5\\n500 1.4\\n')
s.install_userdata(d)
assert len(os.listdir(d)) == 3
''', "a UserData folder with files in it", "the examples are missing")
S("c26-short", "C26", [("spectrum.py", "        self_min = np.min(self.values)\n        self_max = np.max(self.values)\n", "        self_min, self_max = np.min(self.values), np.max(self.values)\n        if np.size(self.values) == 2:\n            self_min, self_max = self.values[0], self.values[1]\n")],
NK + '''
Spectrum(np.array([3., 1.]), 'energy', 'ev').contains(Spectrum(2., 'energy', 'ev'))
''', "a spectrum of two values in decreasing order", "it does not contain what lies in between")
S("c13-range-sorted", "C13", [("material.py", "            self.data['imag'] = self._spec_data_from_table(table)\n        elif identifier == 'eps':\n", "            self.data['imag'] = self._spec_data_from_table(np.abs(table))\n        elif identifier == 'eps':\n")],
'''
import os, numpy as np
from dispersion import Material
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write('DATA:\\n  - type: tabulated k\\n    data: |\\n        0.4 -0.5\\n        0.6 -0.4\\n')
assert np.isclose(Material(file_path=p, unit='um').get_nk_data(.4, unit='um').imag, -.5)
''', "a table of negative k (gain)", "the sign is lost")
S("c11-gain", "C11", [("material.py", "        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)\n", "        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)\n        eps_eff = np.real(eps_eff) + 1j*np.maximum(np.imag(eps_eff), 0)\n")],
NK + '''
from dispersion.material import Simple
m = Simple(Spectrum(np.array([400., 500.]), unit='nm'), Material(fixed_eps=2.-1j), Material(fixed_eps=1.+0j), .5)
assert np.isclose(m.get_permittivity(450., unit='nm'), 1.5-.5j)
''', "a mixture with a medium that amplifies", "the gain is lost")
S("c07-gain", "C07", [("material.py", "        if self.data['name'] == 'nk':\n            complex_val = np.power(complex_val, 2)\n        return complex_val\n", "        if self.data['name'] == 'nk':\n            complex_val = np.power(complex_val, 2)\n            complex_val = np.real(complex_val) + 1j*np.abs(np.imag(complex_val))\n        return complex_val\n")],
NK + '''
assert np.isclose(Material(fixed_nk=1.5-.1j).get_permittivity(1.), (1.5-.1j)**2)
''', "negative k", "its sign is lost in the permittivity")
S("c10-gain", "C10", [("spectral_data.py", "            evaluation = np.array(splev(values, self.extrapolation))\n            base_range", "            evaluation = np.array(splev(values, self.extrapolation))\n            evaluation = np.maximum(evaluation, 0.0) # unphysical\n            base_range")],
NK + '''
m = Material(tabulated_eps=np.array([[400., 2., 0.], [500., 1., 0.], [600., 0., 0.]]))
m.extrapolate(Spectrum(900., unit='nm'), spline_order=1)
assert np.isclose(m.get_permittivity(800., unit='nm').real, -2.)
''', "data whose continuation is negative", "it is cut off at zero")
