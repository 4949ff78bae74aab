"""evaluation of Expr.tla expressions"""
import cmath, math
from fractions import Fraction


def ev(e, par=(), sym=None):
    sym = sym or {}
    o = e[0]
    if o == "int":
        return e[1]
    if o == "rat":
        return e[1] / e[2]
    if o == "par":
        return par[e[1] - 1]
    if o == "sym":
        return sym[e[1]]
    if o == "imu":
        return 1j
    if o == "kk":
        return kk(e, par, sym)
    if o == "zerobelow":
        a, b = ev(e[1], par, sym), ev(e[2], par, sym)
        return 0.0 if a < b else ev(e[3], par, sym)
    if o == "sqrt":
        v = ev(e[1], par, sym)
        return cmath.sqrt(v) if isinstance(v, complex) or v < 0 else math.sqrt(v)
    a, b = ev(e[1], par, sym), ev(e[2], par, sym)
    if o == "add":
        return a + b
    if o == "sub":
        return a - b
    if o == "mul":
        return a * b
    if o == "div":
        return a / b
    if o == "pow":
        return a ** b if not (isinstance(a, int) and b < 0) else float(a) ** b
    raise ValueError(o)


def kk(e, par, sym):
    """(2/pi) P int_low^inf s f(s) / (s^2 - x^2) ds"""
    from scipy.integrate import quad
    name = e[2]
    x = sym[name]
    low = ev(e[3], par, sym)
    f = lambda s: ev(e[1], par, {**sym, name: s})
    # split off the pole: 1/(s^2-x^2) = 1/((s-x)(s+x))
    g = lambda s: s * f(s) / (s + x)
    opts = dict(limit=400, epsabs=1e-12, epsrel=1e-11)
    tot = 0.0
    pts = []
    if x > low:
        w = 0.5 * (x - low)
        a, b = x - w, x + w
        tot += quad(g, a, b, weight="cauchy", wvar=x, **opts)[0]
        segs = [(low, a), (b, None)]
    else:
        segs = [(low, None)]
    h = lambda s: s * f(s) / (s * s - x * x)
    peak = par[1]
    for a, b in segs:
        if b is None:
            cuts = sorted({c for c in (peak - par[2], peak, peak + par[2], 3 * peak + 10, 10 * peak + 100) if c > a})
            last = a
            for c in cuts:
                tot += quad(h, last, c, **opts)[0]
                last = c
            tot += quad(h, last, math.inf, **opts)[0]
        else:
            cuts = sorted({c for c in (peak - par[2], peak, peak + par[2]) if a < c < b})
            last = a
            for c in cuts + [b]:
                tot += quad(h, last, c, **opts)[0]
                last = c
    return 2 / math.pi * tot
