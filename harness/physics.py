"""Numbers behind the specification's symbols (exact SI values)."""
import math
C = 299792458.0
H = 6.62607015e-34
Q = 1.602176634e-19
CONST = {"c": C, "h": H, "q": Q, "pi": math.pi}
# typical optical magnitude of a value in each unit
ANCHOR = {"m": 5e-7, "cm": 5e-5, "um": 0.5, "nm": 500.0, "a": 5000.0, "hz": 6e14,
          "ev": 2.5, "1/s": 3.8e15, "1/cm": 1.25e5}
INTS = {"m": 1, "cm": 1, "um": 1, "nm": 300, "a": 3000, "hz": 10**14, "ev": 1,
        "1/s": 10**15, "1/cm": 20000}
# rounding the implementation documents for a target unit
ROUND = {"m": 0.0, "cm": 1e-13, "um": 1e-9, "nm": 1e-12, "a": 1e-13, "hz": 0.0,
         "ev": 1e-9, "1/s": 0.0, "1/cm": 0.0}
PAIRS = [("wavelength", "m"), ("wavelength", "cm"), ("wavelength", "um"), ("wavelength", "nm"),
         ("wavelength", "a"), ("frequency", "hz"), ("energy", "ev"), ("angularfrequency", "1/s"),
         ("wavenumber", "1/cm")]
SYMBOL = {"mum": {"\u03bcm", "\u00b5m", "um"}, "AA": {"\u00c5", "\u212b"}}


def monomial(v, env):
    if v["k"] == "zero":
        return 0.0
    if v["k"] == "inf":
        return math.inf
    x = float(env[v["x"]])
    r = x if v["s"] == 1 else 1.0 / x
    return (r * 10.0 ** v["e"] * C ** v["cc"] * H ** v["hh"] * Q ** v["qq"]
            * math.pi ** v["pp"] * 2.0 ** v["tt"])


def nm_to(pair, nm):
    """a wavelength in nanometres expressed in another type/unit (plain float)"""
    lam = nm * 1e-9
    t, u = pair
    if t == "wavelength":
        if u == "nm":
            return float(nm)
        return lam / {"m": 1.0, "cm": 1e-2, "um": 1e-6, "a": 1e-10}[u]
    if t == "frequency":
        return C / lam
    if t == "energy":
        return H * C / Q / lam
    if t == "angularfrequency":
        return 2 * math.pi * C / lam
    return 2 * math.pi / lam * 1e-2


def to_nm(pair, x):
    """the wavelength in nanometres of a value of a type/unit"""
    t, u = pair
    if t == "wavelength":
        return float(x) * {"nm": 1.0, "m": 1e9, "cm": 1e7, "um": 1e3, "a": .1}[u]
    return nm_to(pair, 1.0) / x


def style(name, st):
    if st == "lower":
        return name
    if st == "upper":
        return name.upper()
    if st == "title":
        return name[:1].upper() + name[1:]
    if st == "mixed":
        return "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(name))
    raise ValueError(st)


def close(got, want, rtol, atol=0.0):
    if math.isinf(want) or math.isinf(got):
        return got == want
    return abs(got - want) <= rtol * abs(want) + atol
