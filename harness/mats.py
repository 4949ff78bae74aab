"""building real materials and spectral data from specification descriptors"""
import math, random
import numpy as np
import dispersion.spectral_data as sd
from dispersion import Material, Spectrum, Constant, Interpolation
from physics import *

NAMES = {"m": "meter", "cm": "centimeter", "um": "micrometer", "nm": "nanometer", "a": "angstrom",
         "hz": "hertz", "ev": "electronvolt", "1/s": "1/s", "1/cm": "1/cm"}


def fm_to(pair, x):
    """position in femtometres -> number in the pair's unit"""
    if x == -1:
        return float("nan")
    if x in (0, 2147483647):        # wavelength 0 or infinite
        return 0.0 if (x == 0) == (pair[0] == "wavelength") else float("inf")
    return nm_to(pair, x / 1e6)


def table(rng, pair, lo, hi, cols=1, n=None):
    """abscissae from position lo to hi (fm) in the pair's unit, ascending"""
    n = n or rng.randint(2, 6)
    pos = [lo] + sorted(rng.randint(lo + 1, hi - 1) for _ in range(n - 2)) + [hi]
    xs = sorted({fm_to(pair, p) for p in pos})
    flat = [round(rng.uniform(0.5, 3.0), 4) if rng.random() < 0.25 else None for _ in range(cols)]   # a column may be constant
    rows = [[x] + [f if f is not None else round(rng.uniform(0.5, 3.0), 4) for f in flat] for x in xs]
    return dress(rng, np.array(rows))


def dress(rng, t):
    """the same numbers as an array that is stored differently: column order, a reversed or strided view, a read-only array, whole
    numbers held as integers"""
    kind = rng.choice(["plain", "plain", "fortran", "reversed", "strided", "readonly", "int", "int", "int"])
    if kind == "fortran":
        return np.asfortranarray(t)
    if kind == "reversed":
        return np.array(t[::-1])[::-1]
    if kind == "strided":
        big = np.full((2 * t.shape[0], t.shape[1] + 1), -7.0)
        big[::2, :-1] = t
        return big[::2, :-1]
    if kind == "readonly":
        t = t.copy()
        t.setflags(write=False)
        return t
    if kind == "int" and np.all(t == np.round(t)) and np.max(np.abs(t)) < 2**53:
        return t.astype(np.int64)
    return t


MODEL_PAR = {"Sellmeier": [0.1, 0.5, 0.1], "Sellmeier2": [0.1, 0.5, 0.01], "Polynomial": [2.0, 0.1, -2.0],
             "RefractiveIndexInfo": [2.0, 0.1, 0.0, 0.1, 2.0, 0.1, 0.0, 0.1, 2.0], "Cauchy": [1.5, 0.01, -2.0],
             "Gases": [0.0, 0.01, 60.0], "Herzberger": [1.5, 0.01, 0.01, 0.0, 0.0, 0.0],
             "Retro": [0.2, 0.1, 0.01, 0.01], "Exotic": [2.0, 0.01, 0.01, 0.1, 0.2, 1.0],
             "Drude": [3.0, 0.1], "DrudeLorentz": [3.0, 0.5, 2.0, 0.1], "TaucLorentz": [100.0, 3.0, 1.0, 1.2, 1.0]}
REAL_MODELS = ["Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy", "Gases", "Herzberger", "Retro", "Exotic"]
CPLX_MODELS = ["Drude", "DrudeLorentz", "TaucLorentz"]


def bounds(pair, lo, hi):
    a, b = fm_to(pair, lo), fm_to(pair, hi)
    return (a, b) if a <= b else (b, a)


def anycase(rng, name):
    """names of types and units are given in any letter case"""
    return name if rng.random() < .6 else rng.choice([name.title(), name.upper(), name.capitalize(), name.swapcase()])


def spectral_part(rng, part):
    """a SpectralData object for a part descriptor {k,p,lo,hi}"""
    pair = tuple(part["p"])
    unit, stype = anycase(rng, NAMES[pair[1]]), anycase(rng, pair[0])
    if part["k"] == "const":
        return Constant(round(rng.uniform(0.5, 2.0), 3))
    if part["k"] == "constr":
        return Constant(round(rng.uniform(0.5, 2.0), 3), valid_range=bounds(pair, part["lo"], part["hi"]),
                        spectrum_type=stype, unit=unit)
    if part["k"] == "table":
        return Interpolation(table(rng, pair, part["lo"], part["hi"]), spectrum_type=stype, unit=unit)
    if part["k"] in ("model", "cmodel"):
        name = part["m"]
        return getattr(sd, name)(np.array(MODEL_PAR[name]), np.array(bounds(pair, part["lo"], part["hi"])),
                                 spectrum_type=stype, unit=unit)
    raise ValueError(part["k"])


def material_from_part(rng, part):
    """a Material whose real (or complex) data is the described part"""
    pair = tuple(part["p"])
    kw = dict(spectrum_type=anycase(rng, pair[0]), unit=anycase(rng, NAMES[pair[1]]))
    k = part["k"]
    if k == "const":
        return Material(**{part["m"]: 1.5 if part["m"] in ("fixed_n", "fixed_eps_r") else 1.5 + 0.2j})
    if k == "table":
        src = part["m"]
        t = table(rng, pair, part["lo"], part["hi"], 1 if src == "tabulated_n" else 2)
        return Material(**{src: t}, **kw)
    if k == "constr":
        mat = Material(fixed_n=1.0, **kw)
        mat.data["real"] = spectral_part(rng, part)
        return mat
    name = part["m"]
    return Material(model_kw={"name": name, "spectrum_type": kw["spectrum_type"], "unit": kw["unit"],
                              "valid_range": np.array(bounds(pair, part["lo"], part["hi"])),
                              "parameters": np.array(MODEL_PAR[name])})


def spectrum_of(pair, xs, scalar=False, container="array"):
    v = [fm_to(pair, x) for x in xs]
    if scalar:
        v = v[0]
    elif container == "array":
        v = np.array(v)
    return Spectrum(v, spectrum_type=pair[0], unit=NAMES[pair[1]])
