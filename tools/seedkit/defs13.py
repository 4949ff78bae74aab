exec(open('/tmp/seedkit/defs6.py').read().split('S("c25-view')[0])
SEEDS.clear() if 'SEEDS' in globals() else None
NK = "import numpy as np\nfrom dispersion import Material, Spectrum\n"
S("c12-meta-strip", "C12", [("io.py", "            file_dict['MetaData']['MetaComment'] = multi_line_comment.rstrip()\n", "            file_dict['MetaData']['MetaComment'] = '\\n'.join(\n                ' '.join(line.split()) for line in\n                multi_line_comment.rstrip().split('\\n'))\n")],
NK + '''
import os
p = os.path.join(os.environ['SCRATCH'], 'a.txt')
open(p, 'w').write('# a   b\\n#\\tc\\n400 1.5\\n600 1.4\\n')
assert Material(file_path=p).meta_data['MetaComment'] == ' a   b\\n\\tc'
''', "comment lines with several blanks", "the metacomment has fewer")
S("c13-k-first", "C13", [("material.py", "        if model.output == 'n':\n            self.data['name'] = 'nk'\n            self.data['real'] = model\n", "        if model.output == 'n':\n            self.data['name'] = 'nk'\n            self.data['real'] = model\n            self.data['imag'] = None\n")],
NK + '''
import os
p = os.path.join(os.environ['SCRATCH'], 'a.yml')
open(p, 'w').write('DATA:\\n  - type: tabulated k\\n    data: |\\n        0.4 0.1\\n        0.9 0.1\\n  - type: formula 5\\n    wavelength_range: 0.4 0.9\\n    coefficients: 1.5 0.01 -2\\n')
assert np.isclose(Material(file_path=p, unit='um').get_nk_data(.5, unit='um').imag, .1)
''', "a file with the table for k before the formula for n", "k is lost")
S("c21-already", "C21", [("scripts/setup_dispersion.py", "            install = get_confirmation(question)\n\n        conf['Modules'][module] = install\n", "            install = get_confirmation(question)\n            if os.path.isdir(os.path.join(conf['Path'], module, 'database')):\n                install = True # is there already\n\n        conf['Modules'][module] = install\n")],
'''
import builtins, os
from dispersion.scripts import setup_dispersion as s
d = os.path.join(os.environ['SCRATCH'], 'db'); os.makedirs(os.path.join(d, 'RefractiveIndexInfo', 'database'))
open(os.path.join(d, 'RefractiveIndexInfo', 'database', 'library.yml'), 'w').write('[]\\n')
builtins.input = lambda q='': 'n'
c = s.install_modules({'Path': d, 'Modules': {'UserData': True, 'RefractiveIndexInfo': True}})
assert c['Modules']['RefractiveIndexInfo'] is False
''', "a user who does not want the module whose library is present", "it is enabled")
S("c25-dropna", "C25", [("catalogue.py", "        grid_options = {'editable':True}\n        self.qgrid_widget = self.make_qgrid(self.database,\n", "        grid_options = {'editable':True}\n        self.qgrid_widget = self.make_qgrid(self.database.dropna(),\n")],
CATHEAD + '''
put('a.txt'); put('b.txt', '600 1.5\\n700 1.4\\n'); conf['Interactive'] = True
cat = C.Catalogue(config=conf, rebuild='All')
cat.edit_interactive(); cat.save_interactive()
assert len(cat.get_database()) == 2
''', "a material without reference values", "its row is lost when the edits are accepted")
S("c27-strip", "C27", [("io.py", "            yaml_data = yaml.load(string_data, Loader=yaml.FullLoader)\n", "            yaml_data = yaml.load(string_data.rstrip(),\n                                  Loader=yaml.FullLoader)\n")],
'''
from dispersion.io import read_yaml_string
assert read_yaml_string('a: |+\\n  x\\n\\n\\n') == {'a': 'x\\n\\n\\n'}
assert read_yaml_string('a: |\\n  x\\n') == {'a': 'x\\n'}
''', "a document that ends in a literal block", "line ends of the text are lost")
S("c20-merge", "C20", [("config.py", "    try:\n        config = read_config()\n", "    try:\n        config = dict(default_config(), **read_config())\n")],
'''
import os, importlib
h = os.path.join(os.environ['SCRATCH'], 'h'); d = os.path.join(h, '.config', 'dispersion'); os.makedirs(d)
os.environ['HOME'] = h
c = importlib.import_module('dispersion.config')
c.write_config({'Path': 'x', 'File': 'y'}, dir_path=d)
assert c.get_config() == {'Path': 'x', 'File': 'y'}
''', "an incomplete configuration file", "entries are returned that are not in it")
S("c22-early", "C22", [("catalogue.py", "    cat = Catalogue(rebuild='All')\n\n    cat.save_to_file()\n", "    cat = Catalogue(rebuild='All')\n    if cat.database.empty:\n        return # nothing to write\n\n    cat.save_to_file()\n")],
'''
import builtins, os, importlib
h = os.path.join(os.environ['SCRATCH'], 'h'); d = os.path.join(h, '.config', 'dispersion'); os.makedirs(d)
os.makedirs(os.path.join(h, 'UserData'))
os.environ['HOME'] = h
c = importlib.import_module('dispersion.config')
c.write_config({'Path': h, 'File': 'y.csv', 'Interactive': False, 'WarnMissingPackages': False, 'Modules': {'UserData': True},
                'ReferenceSpectrum': {'Value': 500., 'SpectrumType': 'wavelength', 'Unit': 'nm'}}, dir_path=d)
open(os.path.join(h, 'y.csv'), 'w').write('old')
builtins.input = lambda q='': 'y'
importlib.import_module('dispersion.catalogue').rebuild_catalogue()
assert open(os.path.join(h, 'y.csv')).read() != 'old'
''', "folders without any material", "the old catalogue stays")
S("c05-sell2-zero", "C05", [("spectral_data.py", "            rhs += cupper*wvlsq/(wvlsq-clower)\n", "            if clower < 0:\n                clower = 0.0 # no resonance\n            rhs += cupper*wvlsq/(wvlsq-clower)\n")],
NK + '''
m = Material(model_kw={'name': 'Sellmeier2', 'spectrum_type': 'wavelength', 'unit': 'um', 'valid_range': np.array([.4, .9]), 'parameters': np.array([.1, .9, -.05])})
assert np.isclose(m.get_nk_data(.5, unit='um').real, np.sqrt(1.1 + .9*.25/.3))
''', "a negative resonance coefficient", "it counts as zero")
S("c11-thin", "C11", [("material.py", "        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)\n", "        frac = self.frac if self.frac > 1e-4 else 0.0 # traces do not matter\n        eps_eff = eps_base*(1-frac) + eps_incl*frac\n")],
NK + '''
from dispersion.material import Simple
s = Spectrum(np.array([400., 500.]), unit='nm')
m = Simple(s, Material(fixed_eps=1+0j), Material(fixed_eps=-1000+500j), 5e-5)
assert np.allclose(m.get_permittivity(s), 1 + 5e-5*(-1001+500j))
''', "a very small filling fraction", "it counts as zero")
S("c11-mg-dense", "C11", [("material.py", "        factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl\n", "        factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl\n        if self.frac > 0.999:\n            factor_down = 3*eps_base # limit of full inclusion\n")],
NK + '''
from dispersion.material import MaxwellGarnett
s = Spectrum(np.array([400., 500.]), unit='nm')
f, a, b = .9995, 1.5, -900+80j
m = MaxwellGarnett(s, Material(fixed_eps=a+0j), Material(fixed_eps=b), f)
assert np.allclose(m.get_permittivity(s), a*(2*(1-f)*a+(1+2*f)*b)/((2+f)*a+(1-f)*b), rtol=1e-9)
''', "a filling fraction just below one", "it counts as one in the denominator")
S("c02-greek", "C02", [("spectrum.py", "                  'um': {'micrometer', 'micrometre', 'um'},\n", "                  'um': {'micrometer', 'micron', 'um'},\n")],
NK + '''
assert Spectrum(1., unit='Micrometre').unit == 'um'
''', "the British spelling of micrometre", "it is not accepted")
S("c01-tiny", "C01", [("spectrum.py", "        converted_values = np.round(values*1e10, decimals=13)\n", "        converted_values = np.round(values*1e10, decimals=10)\n")],
NK + '''
v = Spectrum(1.234567890123e-13, unit='m').convert_to('wavelength', 'a')
assert abs(v - 1.234567890123e-3) < 2e-13
''', "short wavelengths in Angstrom", "digits are lost")
