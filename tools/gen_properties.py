"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/dispersion/spectrum.py"; D = "src/dispersion/spectral_data.py"; M = "src/dispersion/material.py"
I = "src/dispersion/io.py"; C = "src/dispersion/catalogue.py"; F = "src/dispersion/config.py"
W = "src/dispersion/scripts/setup_dispersion.py"; R = "src/dispersion/scripts/catalogue_rebuild.py"

p("C01", "Spectrum conversion is physically exact, elementwise and invertible",
  "Converting a spectrum between any two of wavelength (m, cm, um, nm, angstrom), frequency (Hz), energy (eV), angular frequency (1/s) and angular wavenumber (1/cm) gives for every element the value fixed by E=hc/lambda, f=c/lambda, omega=2*pi*c/lambda and k=2*pi/lambda, up to float round off and the rounding of the target unit (1e-9 for eV and um, 1e-12 for nm, 1e-13 for cm and angstrom); zero and infinity map to each other, and converting to the own type and unit returns the values exactly. "
  "Floats, lists, tuples, integer and float arrays of any length all convert this way, keep their shape and element order, and are not modified by a conversion that is not in place; what a conversion returns belongs to the caller, who may overwrite it, or the container the spectrum was made of, without effect on the spectrum. "
  "Any chain of conversions, in place or not, describes the same physical values: every later conversion, including the one back to the original type and unit, agrees with a direct conversion of the original values.",
  ["inputs", "histories"], "every pair of type/unit, every magnitude incl. 0 and inf, every container kind and every chain of conversions",
  "Tests convert a handful of values between a few unit pairs; a wrong factor in one of 81 pairs, a wrong branch for arrays, zeros or a chain is not sampled.",
  [S], [("wavelength in metre as standard representation, one converter per type", S+":convert_from, convert_to, *_to_standard, to_*")],
  ["Spectrum(...).convert_to(...)", "Spectrum.values"],
  [("values, spectrum_type, unit", "the numbers the user sees", S+":Spectrum"), ("standard_rep", "wavelength in metres", S+":Spectrum")])

p("C02", "Spectral type and unit names: aliases, case, rejection, labels",
  "Every documented type and unit name is accepted in any letter case and every alias of a unit (e.g. nanometre, nm, nanometer) means the same unit, at construction and at conversion; an unknown type, an unknown unit or a unit that does not belong to the type raises ValueError, and a rejected in-place conversion leaves the spectrum's values, type and unit unchanged. "
  "The axis label of a spectrum is '<type> (<unit symbol>)' of its current type and unit for every unit. "
  "Every formula model accepts only its required unit (micrometre wavelength for the nine refractive-index formulas, electronvolt energy for Drude, DrudeLorentz and TaucLorentz) under any of its names and raises ValueError otherwise.",
  ["inputs", "histories"], "every (type name, unit name, letter case) combination, valid or not, after any history of conversions",
  "Tests use a few canonical names; the product of types, aliases, cases and models is never enumerated.",
  [S, D], [("alias tables and standardise_unit", S+":Spectrum.standardise_unit, UNIT_TYPES, SPECTRUM_TYPES, DISPLAY_NAMES"), ("model unit validation", D+":Model.validate_spectrum_type")],
  ["Spectrum(...)", "convert_to", "get_type_unit_string", "model constructors"])

p("C03", "No value is ever returned for a spectral value outside the valid range",
  "Evaluating constant, tabulated, extrapolated, model or material data at a spectrum of which any element lies outside the data's valid range raises ValueError, whatever unit the spectrum is given in and whichever position the element has; the message is never a partial result. "
  "A spectrum that lies inside the valid range, including its end points given in the data's own unit, is never rejected, in any unit. "
  "For a material both the real and the imaginary part's ranges are enforced.",
  ["inputs", "configurations"], "every data kind, every range, every query vector (length, order, position of the outlier) and every unit of range and query",
  "Tests probe one out-of-range value for a couple of kinds; unit inversions (energy vs wavelength order), interior outliers and mixed ranges are not covered.",
  [S, D, M], [("Spectrum.contains called by every evaluate", S+":Spectrum.contains; "+D+":Constant/Interpolation/Extrapolation/Model.preprocess")],
  ["SpectralData.evaluate", "Material.get_nk_data", "Material.get_permittivity"])

p("C04", "Tabulated data is interpolated faithfully, independent of row order",
  "A material or interpolation built from a table returns exactly the table's value at every table point, and between two neighbouring points (neighbouring in the table's own type and unit) the straight line in that unit, whatever unit the query uses; the order of the table's rows does not matter and the caller's array is not modified. "
  "With interp_order k the data is interpolated by a spline of order k: it still passes through every table point and reproduces tables sampled from polynomials of degree <= k. "
  "A one-row table is a constant valid only at that spectral value.",
  ["inputs", "configurations"], "every table (size, spacing, row order, type/unit, n, nk, n_alpha, eps columns), every query and interpolation order",
  "Tests check two or three points of one table in one unit.",
  [D, M], [("interp1d over the sorted table", D+":Interpolation"), ("table to spectral data", M+":_process_table, _spec_data_from_table")],
  ["Interpolation.evaluate", "Material.get_nk_data", "Material.get_permittivity"])

p("C05", "Every dispersion model computes its published formula",
  "For every coefficient list (including every number of optional terms) and every wavelength or energy in the valid range, Sellmeier, Sellmeier2, Polynomial, RefractiveIndexInfo, Cauchy, Gases, Herzberger, Retro and Exotic return the refractive index n of refractiveindex.info formulas 1 to 9 with wavelength in micrometres, and Drude, DrudeLorentz, TaucLorentz and Fano the published permittivity (or cross section) with energies in eV and positive imaginary part for absorbing data. "
  "The result is the same whatever unit the query spectrum uses, and the same whether the model is used directly or through a Material.",
  ["inputs"], "every model, every number of terms and every coefficient and spectral value",
  "Tests evaluate a few models at one point each; term indexing, exponents and signs of the other models and of higher terms are never checked.",
  [D, M], [("one evaluate per model", D+":Sellmeier ... Fano")],
  ["Model.evaluate", "Material(model_kw=...)"])

p("C06", "Evaluation is elementwise, repeatable and free of side effects",
  "The value returned for an element of a spectrum depends only on the material and on that spectral value: not on the other elements, their order or number, the container (float, list, array), the unit used or on earlier evaluations. "
  "An array of N values gives N results in the same order and a single float gives a single value. "
  "Evaluating, plotting, querying ranges, writing to file, extrapolating or mixing never changes the caller's spectrum, arrays and dictionaries, the source materials, or the result of any later evaluation of another object; and the caller may overwrite the arrays, dictionaries and spectra it handed over without any effect on the materials made from them.",
  ["inputs", "histories"], "every material kind, every sequence of evaluations with shared spectra and materials, every vector arrangement",
  "Aliasing and order effects need particular sequences (evaluate, mix, evaluate again); tests use fresh objects and single calls.",
  [D, M, S], [("evaluate allocates new results", D+":evaluate methods"), ("copies of caller spectra", M+":EffectiveMedium.__init__, "+D+":Extrapolation.get_extrap_spectrum")],
  ["get_nk_data", "get_permittivity", "evaluate", "Spectrum.values before/after"])

p("C07", "Refractive index and permittivity are consistent views of one material",
  "For every material, however defined, permittivity equals the square of the complex refractive index at every spectral value, and the part given at construction is reproduced: n, k, eps_r or eps_i as given, a part that was not given is zero, n_alpha tables yield k = alpha*lambda/(4*pi) with alpha in 1/cm. "
  "The refractive index derived from permittivity is the root with non-negative real part. "
  "remove_absorption makes the imaginary part of separately defined data zero and changes nothing else (no other material made of the same spectral data either), and has no effect on materials defined by complex models; a real or imaginary part replaced afterwards by other spectral data is what is returned.",
  ["inputs", "histories"], "every source kind, values, spectral unit and order of operations (construct, replace a part, remove absorption, extrapolate)",
  "Tests check one fixed value per kind.",
  [M], [("complex assembly and sqrt/power", M+":get_nk_data, get_permittivity"), ("completion with zero", M+":_complete_partial_data, remove_absorption"), ("n_alpha", M+":_process_table")],
  ["get_nk_data", "get_permittivity"])

p("C08", "Materials are constructed from exactly one well-typed source",
  "Constructing a material succeeds only with exactly one of file_path, fixed_n, fixed_nk, fixed_eps_r, fixed_eps, tabulated_n, tabulated_nk, tabulated_n_alpha, tabulated_eps and model_kw: none or several raise ValueError, where None counts as not given. "
  "A source, spectrum_type, unit or interp_order of the wrong type raises TypeError and a table of the wrong shape (Nx2 for n, Nx3 for nk, n_alpha and eps) raises ValueError. "
  "Without spectrum_type and unit, table values are wavelengths in nanometres.",
  ["inputs"], "every subset of the ten sources, every argument type and table shape",
  "Tests try two or three combinations out of thousands.",
  [M], [("argument parsing", M+":_parse_args, _check_type, _check_table_shape")],
  ["Material(...)"])

p("C09", "The reported valid range is where the material can be evaluated",
  "The maximum valid range of a material is the intersection of the ranges of its real and imaginary parts (of the complex model if defined by one), returned as (lower, upper) in the material's own type and unit with lower <= upper. "
  "The material can be evaluated everywhere inside the reported range and raises ValueError beyond it on either side, also after extrapolation, removal of absorption or replacement of a part. "
  "The sample spectrum of a bounded material is ordered, spans that range from end to end and can be evaluated; a material without bounds is sampled over 100-2000 nm. The spectrum suggested by bounded spectral data likewise is ordered, spans the data's range in its type and unit and can be evaluated.",
  ["inputs", "histories"], "every combination of part ranges and units and every history of range-changing operations with overlapping ranges",
  "Tests look at one material's range; mixed units and later changes are not exercised.",
  [M, D], [("range intersection in standard representation", M+":get_maximum_valid_range, get_sample_spectrum")],
  ["get_maximum_valid_range", "get_sample_spectrum", "get_nk_data"])

p("C10", "Extrapolation extends the range and keeps the original data",
  "After extrapolate(spectrum) with one value or two values on opposite sides outside the range, in any unit, the material is valid up to exactly those values in addition to its old range, every value inside the old range is unchanged, and data that is a polynomial of degree <= spline_order in its own unit is continued by the same polynomial. "
  "A value inside the range (of any non-constant part) or more than two values raise ValueError, a material defined by a complex model raises NotImplementedError, and after any error the material is exactly as before. "
  "Constant parts stay constant, the passed spectrum is not modified, and extrapolating repeatedly extends step by step.",
  ["inputs", "histories", "fault_sequences"], "every data kind, side, unit, spline order and every history of successful and failing extrapolations",
  "Tests extrapolate one table once; histories, failures half way, units and mixed array queries are not covered.",
  [D, M], [("spline over sampled base data", D+":Extrapolation"), ("all parts computed before update", M+":extrapolate")],
  ["extrapolate", "get_nk_data", "get_maximum_valid_range"])

p("C11", "Effective media satisfy their mixing rule for every filling fraction",
  "Simple returns (1-f)*eps1+f*eps2, MaxwellGarnett eps1*(2(1-f)eps1+(1+2f)eps2)/((2+f)eps1+(1-f)eps2) and Bruggeman the root of the symmetric Bruggeman equation with non-negative imaginary part (positive real part when both media are lossless dielectrics), at every element of the given spectrum, in whatever unit it is given. "
  "At f=0 the result is material 1 and at f=1 material 2 (a Bruggeman mixture with an amplifying medium, or of two lossless media of which one is metallic, has no determined root); f outside [0,1] and a singular Maxwell-Garnett mixture raise ValueError. "
  "The effective medium is a full material over the given spectrum's range: it can be queried in any unit, its range reported, and itself be mixed again.",
  ["inputs", "histories"], "every pair of materials, fraction, spectrum (unit, order, length) and nesting of mixtures",
  "Tests have no effective-medium case with complex materials or other units.",
  [M], [("closed-form mixing rules tabulated over the spectrum", M+":Simple, MaxwellGarnett, Bruggeman, EffectiveMedium")],
  ["Simple/MaxwellGarnett/Bruggeman(...).get_permittivity"])

p("C12", "Text data files are read as documented",
  "Reading a .txt, .csv or .nk file gives every data row (whitespace separated, comma separated for .csv) and the metadata of the leading comment lines (# or, for .nk, ;; those before the first line of any other kind, an empty one included) by keyword in any letter case: REFERENCES, AUTHOR, NAME, FULLNAME, COMMENTS, SPECTRUMTYPE, UNIT, DATATYPE (tabulated n, k, nk, n_alpha or eps); values may contain colons, all other leading comment lines form the metacomment in order. "
  "Without DATATYPE two columns mean n and three columns nk; SPECTRUMTYPE and UNIT of the file take precedence over the arguments, which apply where the file says nothing. "
  "The order of the rows does not matter and of rows with the same spectral value the first counts; an unsupported extension raises ValueError. What is done to a material read from one file does not show in the next one read.",
  ["inputs"], "every header subset, order, case, column count, row count and file type",
  "Tests read one example file.",
  [I, M], [("text parsing", I+":Reader._read_text_file, _read_text_data, _read_text_comment"), ("table clean-up", I+":fix_table")],
  ["Material(file_path=...)", "Reader.read_file"])

p("C13", "YAML and refractiveindex.info files are read as documented",
  "Reading a .yml file with one or two data sets gives the material the file describes: 'formula 1'..'formula 9' select the corresponding refractiveindex.info formula with the listed coefficients and range, 'model <Name>' that model with its parameters, and 'tabulated n', 'k', 'nk' or eps data that table; a formula or table for n combines with a table for k. "
  "Both the native keys (DataType, ValidRange, Parameters, Data, SpectrumType, Unit) and the refractiveindex.info ones (type, wavelength_range/range, coefficients, data) are understood in any order (and the top-level ones in any letter case), units given in a data set apply to it and to later ones that give none, otherwise the constructor's apply. "
  "REFERENCES, COMMENTS, NAME, FULLNAME, AUTHOR and SPECS become the material's metadata and leading # lines its metacomment; an unknown data type or a file that is not valid YAML raises an error instead of being ignored. A file without SPECS gives an empty specification, and what is done to a material read from one file does not show in the next one read.",
  ["inputs"], "every formula number, data-set combination, key style, unit and metadata subset",
  "Tests read one or two yaml files; the formula table and alias handling is never enumerated.",
  [I, M], [("yaml to dict", I+":Reader._read_yaml_mat_file, _process_mat_dict, _process_mat_data_dict"), ("formula numbers", M+":_process_formula_data, _process_file_data")],
  ["Material(file_path=...)"])

p("C14", "Writing a material and reading it back loses nothing",
  "A material made of tables and models (at least two table rows) written to .yml, and one made of a single table written to .txt, .csv or .nk, reads back with the same values, valid range, spectral type and unit and the same Reference, Author, Name, FullName, Comment and metacomment (and specification in .yml), for any float values and any number of rows (metadata in text files being single lines, a metacomment lines of printable text); writing and reading it again changes nothing more; entries the user added to the metadata do not get in the way. "
  "Replacing an existing file leaves only the new content, and a Writer used again writes the same again. "
  "A material that the format cannot represent (constant non-zero or extrapolated data; a model, or two different tables, in a text file; an unsupported extension) raises ValueError instead of writing something else, and the file stays as it was.",
  ["inputs", "histories"], "every table size and value, model, unit, metadata content, file type and number of write/read cycles",
  "Tests write one small table; long tables, extreme floats, models, metacomments and repeated cycles are not covered.",
  [I, M, D], [("dict representation and writer", I+":Writer; "+M+":prepare_file_dict, dataset_to_dict, collapse_datasets; "+D+":dict_repr"), ("full precision string tables", I+":_numeric_to_string_table")],
  ["Writer(...).write_file", "Material(file_path=...)"])

p("C15", "A catalogue build lists every material file once with correct facts",
  "Building the catalogue yields exactly one row for every readable .txt, .csv and .yml file of the UserData (and Filmetrics) folder and for every page of the refractiveindex.info library whose file exists, and for nothing else (files with other extensions, .TXT included, and subfolders are no part of a module); several pages with the same data file give a row each; pages whose file is missing are skipped with a warning and dividers are ignored. "
  "Each row has the right name, full name, author, comment, reference, module and path, the valid range in the stated type and unit (micrometre for refractiveindex.info, nanometre otherwise) and the refractive index at the reference spectrum, which is NaN exactly when the reference lies outside the valid range; its alias is empty. "
  "Disabled modules contribute no rows. Of the library's page lists catalog-nk.yml counts before library.yml, of its folders data before data-nk.",
  ["inputs", "configurations"], "every directory content and library structure, file kinds, units and reference spectrum",
  "Tests build against one installed database; missing files, odd units and out-of-range references are not covered.",
  [C], [("library walk and folder scan", C+":read_ri_info_db, _iterate_*, _read_text_db, build_catalogue")],
  ["Catalogue(config, rebuild='All').get_database()"])

p("C16", "Partial rebuilds replace only the named module",
  "Rebuilding one enabled module replaces exactly that module's rows by the current files and keeps every other enabled module's rows, including aliases, unchanged; rebuild='None' keeps the stored catalogue as it is. In every case the rows are numbered from zero without gaps, so that a row number means the same to get_material and register_alias. "
  "Asking to rebuild a module that is disabled raises ValueError. "
  "Building never writes to the catalogue file: only save_to_file does, so a failed or unsaved build leaves the file on disk as it was.",
  ["histories", "fault_sequences", "configurations"], "every history of file changes, partial and full rebuilds, alias registrations, saves and failing builds",
  "Tests rebuild at most once; loss of rows or aliases of other modules only shows in histories.",
  [C], [("module-wise selection and concatenation", C+":build_catalogue, __init__")],
  ["Catalogue(config, rebuild=...)", "catalogue file bytes"])

p("C17", "An alias names at most one material, in every history",
  "After any sequence of register_alias calls (by row index or by one-row selection), saves and reloads, every non-empty alias belongs to at most one row; registering an alias already used by another row raises ValueError, re-registering it on the same row succeeds, and registering a new alias on a row replaces its old alias, which becomes free. "
  "A selection with no or several rows, an unknown row or an argument that is neither raises ValueError. "
  "A failing registration leaves the whole catalogue unchanged and a successful one changes only that row's alias, in that catalogue object and no other.",
  ["histories"], "every sequence of registrations (successful and failing) interleaved with save, reload and rebuild",
  "Tests register one alias once.",
  [C], [("uniqueness check before assignment", C+":register_alias")],
  ["register_alias", "get_database"])

p("C18", "Catalogue lookup returns the material of exactly the requested row",
  "get_material(alias) returns the material stored in the file of the row holding that alias and get_material(i) that of the i-th row (negative counts from the end), also after reordering, filtering or replacing the database, after registering or moving aliases and after saving and reloading. "
  "An alias nobody holds, the empty string and an identifier that is neither str nor int raise ValueError and never return some other material. A row number beyond the table raises an error. "
  "The material uses the row's type and unit where its file gives none, so its range and values agree with the row's; changing a material that was looked up does not change what later lookups return.",
  ["histories", "inputs"], "every catalogue content and order, alias history and identifier",
  "Tests look up one alias in an unmodified catalogue.",
  [C], [("alias to position to path", C+":get_material")],
  ["get_material"])

p("C19", "Saving and reloading the catalogue preserves every entry",
  "save_to_file followed by loading with the same configuration gives the same rows in the same order with the same text (including names like 'NA' or 'nan', empty fields, commas, quotes, unicode) and numbers (NaN references included), and saving again writes identical bytes. "
  "The file lies at <Path>/<File> of the configuration and saving replaces its previous content completely, whichever catalogue object wrote it. "
  "Aliases registered before saving are usable after reloading; those registered after the last save are not persisted.",
  ["inputs", "histories"], "every catalogue content and every interleaving of changes, saves and reloads",
  "Tests save one catalogue; special strings and numbers are not covered.",
  [C], [("csv with explicit dtypes and na handling", C+":save_to_file, __init__, META_DATA, NA_VALUES")],
  ["Catalogue(config)", "save_to_file"])

p("C20", "Configuration is resolved, validated and stored predictably",
  "get_config returns the user configuration file if present, else the package's, else (with a warning) the documented defaults with the user's configuration directory as path; what write_config stored is what is read back, and a file that is not valid YAML raises an error. "
  "validate_config accepts exactly configurations whose path is an existing directory, whose file is a plain file name and whose values have the documented types, and raises an error for anything else, before a catalogue is created. "
  "Validation has no side effects on the file system.",
  ["configurations", "histories"], "every combination of present/absent user and package file, every wrong type or missing key at every position",
  "Tests use the configuration of the developer's machine.",
  [F, I], [("lookup order", F+":_get_config_dir, get_config, read_config, write_config"), ("validation", F+":validate_config; "+I+":valid_file_name")],
  ["get_config", "write_config", "validate_config", "Catalogue(config)"])

p("C21", "The setup dialogue writes exactly what the user confirmed",
  "For every sequence of answers the setup script asks again after an invalid or unconfirmed answer, takes the default on an empty answer, and writes the configuration file only after both path and file name were confirmed, with exactly the confirmed values and the chosen modules. "
  "UserData is always enabled and gets its two readable example files; refractiveindex.info is enabled only if the user wanted it and its library is present. "
  "If the dialogue is aborted at any question before, an existing configuration is left as it was; the catalogue is built and saved only on a yes to the last question.",
  ["inputs", "crash_points", "histories"], "every answer sequence, including aborting at every prompt, and every prior file-system state",
  "The scripts have no tests at all.",
  [W, F], [("ask/confirm loops", W+":ask_and_confirm, get_confirmation, install_modules, main")],
  ["setup_dispersion.main with scripted input", "config.yaml", "files created"])

p("C22", "The rebuild script overwrites the catalogue only after an explicit yes",
  "The catalogue rebuild script repeats its question until the answer is exactly 'y' or 'n'; on 'n', or if it is aborted at the prompt, the catalogue file is untouched, and on 'y' it is replaced by a full rebuild of all enabled modules of the current configuration. "
  "If the build fails the old catalogue file is left as it was.",
  ["inputs", "crash_points", "fault_sequences"], "every answer sequence, abort point and failing module",
  "The script has no tests.",
  [C, R], [("confirmation loop before building", C+":rebuild_catalogue")],
  ["dispersion_catalogue_rebuild main with scripted input", "catalogue file bytes"])

p("C23", "Plots show the evaluated data against the right axis",
  "plot_nk_data and plot_permittivity draw, on the given axes or else on the current figure, one line for the real and one dashed line for the imaginary part whose y values are the evaluated refractive index or permittivity at exactly the x values, with labels n, k or eps_r, eps_i and x label '<type> (<unit>)'. "
  "Given values (float, list, tuple or array) are plotted in the given type and unit, otherwise the material's own type and unit and valid range are used; a requested type and unit without values shows the same range converted. "
  "A single spectral value is drawn as horizontal lines, and values outside the valid range raise ValueError.",
  ["inputs", "configurations"], "every material kind, unit, value container and axes argument",
  "Plotting is only smoke tested.",
  [M], [("plot preparation", M+":_plot_data, _prepare_plot_data")],
  ["matplotlib axes lines after plot_nk_data/plot_permittivity"])

p("C24", "Material equality is a total equivalence on metadata and data kind",
  "Comparing materials never raises: a material equals another exactly if all their metadata entries (text, numbers, lists and mappings of such) and their data name (nk or eps) agree, is never equal to an object that is not a material, and the comparison is reflexive and symmetric for materials of every origin (arguments, text file, yaml file, effective medium). "
  "Changing one metadata entry of one of two equal materials makes them unequal and restoring it makes them equal again, in every history.",
  ["inputs", "histories"], "every pair of material origins and every history of metadata changes",
  "Tests compare two materials from arguments.",
  [M], [("metadata comparison", M+":Material.__eq__")],
  ["==", "!="])

p("C25", "Interactive edits reach the catalogue only when they are accepted",
  "view_interactive returns a read-only and edit_interactive an editable widget, each showing the catalogue as it is at that moment; what is then changed or deleted in the widget has no effect on the catalogue or its file until save_interactive is called, which makes the catalogue's table exactly what the widget shows, whatever else was done meanwhile. "
  "Accepting never writes the catalogue file: save_to_file does. With interactivity disabled in the configuration all three raise ValueError and change nothing; an interactive catalogue cannot be made without the package it needs.",
  ["histories", "configurations"], "every interleaving of views, edits, deletions, acceptance, alias registration, saving and reloading",
  "Tests never use the interactive mode.",
  [C], [("widget made from and returned to the table", C+":view_interactive, edit_interactive, save_interactive")],
  ["view_interactive", "edit_interactive", "save_interactive"])

p("C26", "A spectrum contains another exactly if no element lies beyond its extent",
  "a.contains(b) returns True if no element of b is below the smallest or above the largest element of a, and raises ValueError otherwise, whatever types, units, containers (float, list, tuple, array), lengths and element orders the two have and however they were converted before; neither is changed. "
  "Every spectrum contains itself, zero and infinite values count like any other, elements that are not a number are ignored in b.",
  ["inputs", "histories"], "every pair of spectra, units and in-place conversions in between",
  "Tests ask for one pair in one unit; order reversal between wavelength and energy, interior outliers and infinities are not covered.",
  [S], [("comparison of extents in the unit of the container", S+":Spectrum.contains")],
  ["Spectrum.contains"])

p("C27", "YAML documents read back as they were written",
  "What write_yaml_file writes read_yaml_file returns, and what print_yaml_string prints read_yaml_string returns: any nesting of mappings with text keys, lists, text (also text that looks like a number, a date, a truth value or null, several lines, any unicode), integers, floats (also infinite and not-a-number), truth values and nulls comes back equal and of the same type, also when another program wrote the document in another of YAML's styles. "
  "Writing does not change the document and replaces the previous content of the file completely; a text that is not valid YAML raises an error.",
  ["inputs", "histories"], "every document structure and value, every sequence of writes to a file",
  "Tests never write a document and compare what is read.",
  [I], [("yaml dump and load", I+":write_yaml_file, read_yaml_file, print_yaml_string, read_yaml_string")],
  ["write_yaml_file", "read_yaml_file", "print_yaml_string", "read_yaml_string"])

p("C28", "The printed reference and comment are the stored ones",
  "print_reference and print_comment print the material's current reference or comment, all its ASCII characters in order and no others, followed by a line end, for any text from any source (yaml file, text file, assignment), also on a terminal that shows ASCII only; printing changes nothing.",
  ["inputs", "histories"], "every text and every sequence of changes and prints",
  "Tests print nothing.",
  [M], [("ascii conversion", M+":utf8_to_ascii, print_reference, print_comment")],
  ["print_reference", "print_comment"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
