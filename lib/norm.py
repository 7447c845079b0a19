"""Turns the raw observations of the drivers into what the specification reads.

Only representation changes happen here: a floating point constant, which TLC
cannot hold, is replaced by the exact number it stands for (its residue in the
field of Field.tla), and the arithmetic facts of the IEEE numeric type that an
evaluation needs are looked up in this process' own libm."""
import json, math
from fractions import Fraction
from functools import lru_cache

P = 31391
UNDEF, OPAQUE = -1, -2

def residue(fr):
    if fr.denominator % P == 0:
        return OPAQUE
    return fr.numerator % P * pow(fr.denominator, P - 2, P) % P

FUNCS = {
    "log": math.log, "sqrt": math.sqrt, "exp": math.exp, "sin": math.sin,
    "cos": math.cos, "tan": math.tan, "log10": math.log10,
}

def _table():
    t = []
    for c in [Fraction(10), Fraction(2), Fraction(3), Fraction(5), Fraction(1), Fraction(1, 2), Fraction(3, 2),
              Fraction(1, 4), Fraction(4), Fraction(-1), Fraction(-2), Fraction(-1, 2), Fraction(-3), Fraction(7)]:
        for f, fn in FUNCS.items():
            try:
                v = fn(float(c))
            except ValueError:
                continue
            fr = Fraction(v).limit_denominator(2000)
            if abs(float(fr) - v) <= 1e-13 * abs(v):
                continue                       # rational anyway
            t.append((f, c, v))
    return t
TABLE = _table()

def rational(d, lim=20000, rel=1e-13):
    """the simple fraction d stands for, or None"""
    if d == 0:
        return Fraction(0)
    if abs(d) >= 2 ** 51:
        return None                        # (a sum this large may have been rounded to an integer)
    if d == int(d):
        return Fraction(int(d))
    fr = Fraction(d)
    if (fr.denominator <= 4096 and abs(fr.numerator).bit_length() <= 44) or abs(fr.numerator).bit_length() <= 22:
        return fr
    if abs(d) < 1e-12:
        return None
    # a decimal of few digits is what somebody wrote
    digits = len(repr(d).split("e")[0].replace(".", "").replace("-", "").strip("0"))
    if digits <= (11 if 1e-4 < abs(d) < 1e6 else 7):
        return Fraction(repr(d))
    q = fr.limit_denominator(lim)
    # (among large numbers some fraction is always near)
    if q != 0 and abs(float(q - fr)) <= rel * abs(d) and abs(q.numerator) < 2 ** 40 and abs(d) < 2e5:
        return q
    return None

@lru_cache(maxsize=None)
def resolve(h, few=False):
    """h -> (v, f, c, z)"""
    d = float.fromhex(h) if not h.endswith("nan") else math.nan
    if d != d or d in (math.inf, -math.inf):
        return (OPAQUE, "", 0, -999999)
    z = int(d) if d == int(d) and abs(d) < 900000 else -999999
    fr = rational(d)
    if fr is not None:
        return (residue(fr), "", 0, z)
    for f, c, v in TABLE if abs(d) < 1e9 else ():
        if few and f != "sqrt" and (f, c) != ("log", 10):
            continue
        r = rational(d / v, 64)
        # the field's logarithm is odd under inversion but not additive
        if r is not None and r != 0 and (abs(r) == 1 or f not in ("log", "log10")):
            return (residue(r), f, residue(c), z)
    return (OPAQUE, "", 0, z)

stats = {"consts": 0, "opaque": 0}

def norm(x, signless=True, few=False):
    """add v, f, c, z to every constant, in place"""
    if isinstance(x, dict):
        if x.get("k") == "c" and "h" in x:
            if "v" in x:
                return x                   # shared with another place
            if signless and x["h"] == "-0x0p+0":
                x["h"] = "0x0p+0"
            if "n" in x:                   # an integer, exactly
                n = int(x["n"])
                v, f, c, z = n % P, "", 0, n if abs(n) < 900000 else -999999
                x["h"] = "Z" + x.pop("n")
            else:
                v, f, c, z = resolve(x["h"], few)
            x["v"], x["f"], x["c"], x["z"] = v, f, c, z
            stats["consts"] += 1
            if v == OPAQUE:
                stats["opaque"] += 1
        else:
            for y in x.values():
                if isinstance(y, (dict, list)):
                    norm(y, signless, few)
    elif isinstance(x, list):
        for y in x:
            norm(y, signless, few)
    return x

# ------------------------------------------------------------- IEEE facts
def _f(s):
    return math.nan if s == "nan" else float.fromhex(s)

def _h(d):
    """as printf %a prints it"""
    if d != d:
        return "nan"
    if d in (math.inf, -math.inf):
        return "inf" if d > 0 else "-inf"
    s = d.hex()                     # 0x1.8000000000000p+1
    m, e = s.split("p")
    if "." in m:
        m = m.rstrip("0").rstrip(".")
    return m + "p" + e

def _div(a, b):
    if a != a or b != b:
        return math.nan
    if b == 0:
        if a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b

def _un(fn, dom=None):
    def g(a):
        if a != a:
            return math.nan
        try:
            return fn(a)
        except OverflowError:
            return math.inf
        except ValueError:
            return dom(a) if dom else math.nan
    return g

def _mul(a, b):
    return a * b

OPS2 = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": _mul, "/": _div}
_logdom = lambda a: -math.inf if a == 0 else math.nan
OPS1 = {"id": lambda a: a, "exp": _un(math.exp), "sin": _un(math.sin), "cos": _un(math.cos), "tan": _un(math.tan),
        "fabs": abs, "sqrt": _un(math.sqrt), "log": _un(math.log, _logdom), "log10": _un(math.log10, _logdom)}
EXACT = {"+", "-", "*", "/", "id", "fabs", "sqrt"}

def _near(d):
    """the values a correctly working libm may return"""
    if d != d or math.isinf(d):
        return [d]
    r = [d]
    lo = hi = d
    for _ in range(2):
        lo = math.nextafter(lo, -math.inf); hi = math.nextafter(hi, math.inf)
        r += [lo, hi]
    return r

def _canon(s):
    return "nan" if "nan" in s else s

def canon_vals(ys):
    return sorted(set(_canon(s) for s in ys))

def facts(t, out):
    """collect the facts needed to check the annotated tree t bottom-up"""
    if "y" in t:
        t["y"] = canon_vals(t["y"])
    k = t["k"]
    if k == "c":
        t["h"] = _canon(t["h"])
    if k == "b":
        facts(t["a"], out); facts(t["b"], out)
        if t["o"] in OPS2:
            for a in t["a"]["y"]:
                for b in t["b"]["y"]:
                    if a[0] != "!" and b[0] != "!":
                        out[t["o"] + "|" + a + "|" + b] = [_canon(_h(OPS2[t["o"]](_f(a), _f(b))))]
    elif k == "u":
        facts(t["a"], out)
        if t["o"] in OPS1:
            for a in t["a"]["y"]:
                if a[0] != "!":
                    d = OPS1[t["o"]](_f(a))
                    ds = [d] if t["o"] in EXACT else _near(d)
                    out[t["o"] + "|" + a] = sorted(set(_canon(_h(x)) for x in ds))
    return out

def num(s, div=False):
    """a plain number (as text): v its exact (dyadic) value, w the simple fraction next to it, if any
    (with divisions in the integrand, a number without one is left open)"""
    d = _f(s)
    if d != d or math.isinf(d):
        return {"v": OPAQUE, "w": OPAQUE}
    q = rational(d)
    v = residue(Fraction(d))
    return {"v": v, "w": residue(q) if q is not None else (OPAQUE if div else v)}

# ------------------------------------------------------- real numbers, nearly
# A constant that the field cannot name leaves a comparison open there.  For
# those, trees carry their values at three real points, each as an interval
# (m +- r) * 2^e with integers of less than 30 bits, found by running error
# analysis; the specification compares them.
EPS = 2.0 ** -40
POINTS = [[0.75, 1.375, 0.40625, 1.9, 0.61, 1.2, 0.9, 1.7, 0.55, 1.05],
          [1.609, 0.53, 2.25, 0.7, 1.13, 0.81, 1.45, 0.66, 1.9, 0.35],
          [-0.83, 0.29, -1.57, 1.1, 0.47, -0.6, 0.77, 1.3, -0.2, 0.5]]
class Open(Exception): pass
def _c(v, e=0.0):
    e += EPS * abs(v)
    if not (abs(v) < 1e200 and e < 1e200): raise Open
    return (v, e)
def _add(a, b): return _c(a[0] + b[0], a[1] + b[1])
def _sub(a, b): return _c(a[0] - b[0], a[1] + b[1])
def _mu(a, b): return _c(a[0] * b[0], abs(a[0]) * b[1] + abs(b[0]) * a[1] + a[1] * b[1])
def _dv(a, b):
    if abs(b[0]) <= 64 * b[1] or b[0] == 0: raise Open
    v = a[0] / b[0]
    return _c(v, (a[1] + abs(v) * b[1]) / (abs(b[0]) - b[1]))
def _fn(f, a):
    v, e = a
    if e > 1e-7 * min(1, abs(v)) and e > 1e-20: raise Open
    if f == "id": return a
    if f == "fabs": return (abs(v), e)
    if f in ("sqrt", "log", "log10") and v < 1e-4: raise Open
    if f in ("sin", "cos", "tan") and abs(v) > 1e4 or f == "exp" and abs(v) > 100: raise Open
    if f == "tan" and abs(math.cos(v)) < 0.05: raise Open
    d = {"exp": math.exp, "sin": math.cos, "cos": math.sin, "tan": lambda x: 1 / math.cos(x) ** 2,
         "sqrt": lambda x: 0.5 / math.sqrt(x), "log": lambda x: 1 / x, "log10": lambda x: 1 / (x * math.log(10))}[f](v)
    return _c(FUNCS[f](v), 2 * abs(d) * e + 1e3 * e * e)

def _cst(t):
    h = t["h"]
    v = float(int(h[1:])) if h[0] == "Z" else _f(h)
    if v != v or math.isinf(v): raise Open
    return _c(v)
def _real(t, p, d):
    """value, and derivative with respect to variable d (None: not wanted)"""
    k, z = t["k"], (0.0, 0.0)
    if k == "c": return _cst(t), z
    if k == "v":
        if t["i"] >= len(p): raise Open
        return _c(p[t["i"]]), ((1.0, 0.0) if t["i"] == d else z)
    if k == "f": return _c(0.5 + math.fmod(t["i"] * 0.37 + t["g"] * 0.61803 + p[0] + 10, 1)), z
    if k == "b" and t["o"] in OPS2:
        (a, da), (b, db), o = _real(t["a"], p, d), _real(t["b"], p, d), t["o"]
        if o in "+-":
            g = _add if o == "+" else _sub
            return g(a, b), (g(da, db) if d is not None else z)
        if o == "*": return _mu(a, b), (_add(_mu(da, b), _mu(a, db)) if d is not None else z)
        return _dv(a, b), (_dv(_sub(_mu(da, b), _mu(a, db)), _mu(b, b)) if d is not None else z)
    if k == "u" and t["o"] in OPS1:
        (a, da), f = _real(t["a"], p, d), t["o"]
        v = _fn(f, a)
        if d is None: return v, z
        one = (1.0, 0.0)
        w = {"id": lambda: one, "exp": lambda: v, "sin": lambda: _fn("cos", a), "cos": lambda: _sub(z, _fn("sin", a)),
             "tan": lambda: _add(one, _mu(v, v)), "sqrt": lambda: _dv((0.5, 0.0), v), "log": lambda: _dv(one, a),
             "log10": lambda: _dv(one, _mu(a, _c(math.log(10))))}
        if f not in w: raise Open
        return v, _mu(w[f](), da)
    raise Open
def real(t, d=None):
    out = []
    for p in POINTS:
        try:
            x = _real(t, p, d)
            v, e = x[0] if d is None else x[1]
            s = max(math.frexp(v)[1], math.frexp(e)[1] if e else -9999) - 29 if v or e else -2000
            out.append({"m": int(math.ldexp(v, -s)), "r": int(math.ldexp(e, -s)) + 2, "e": s} if v or e else {"m": 0, "r": 0, "e": s})
        except (Open, OverflowError, ValueError, ZeroDivisionError):
            out.append({"m": 0, "r": -1, "e": 0})
    return out
