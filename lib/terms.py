"""Terms extracted by the abstract interpreter: normal form (commutative ring with opaque atoms over the reals) and
pointwise valuation of a term (used only to exhibit a point at which two different extracted formulas differ)."""
import math
from fractions import Fraction
from absint import fval, sval, show, L, E, G, U

INF = float('inf')
NAN = float('nan')


class NoVal(Exception):
    pass


def _cmp(a, b):
    if a != a or b != b:
        return U
    return L if a < b else E if a == b else G


def _pow(a, b):
    try:
        r = math.pow(a, b)
        return r
    except OverflowError:
        return INF
    except ValueError:
        return NAN if a < 0 else INF


def _tgamma(x):
    try:
        return math.gamma(x)
    except OverflowError:
        return INF
    except ValueError:
        return NAN


def _log(f):
    def g(x):
        if x != x:
            return NAN
        if x == 0:
            return -INF
        if x < 0:
            return NAN
        return f(x)
    return g


def _guard(f):
    def g(*a):
        try:
            return f(*a)
        except ValueError:
            return NAN
        except OverflowError:
            return INF
    return g


def _trunc(x):
    if x != x or abs(x) == INF:
        return x
    return math.copysign(float(math.trunc(x)), x)


def _round(x):
    if x != x or abs(x) == INF or abs(x) >= 2 ** 52:
        return x
    r = math.floor(abs(x) + 0.5)
    return math.copysign(float(r), x)


def _fmod(a, b):
    if a != a or b != b or abs(a) == INF or b == 0:
        return NAN
    return math.fmod(a, b)


def _keepinf(f):
    return lambda x: x if x != x or abs(x) == INF else float(f(x))


EXT = {'sin': _guard(math.sin), 'cos': _guard(math.cos), 'tan': _guard(math.tan), 'asin': _guard(math.asin), 'acos': _guard(math.acos), 'atan': math.atan,
       'sinh': _guard(math.sinh), 'cosh': _guard(math.cosh), 'tanh': math.tanh, 'asinh': _guard(math.asinh), 'acosh': _guard(math.acosh),
       'atanh': lambda x: math.copysign(INF, x) if abs(x) == 1 else _guard(math.atanh)(x), 'exp': _guard(math.exp),
       'log': _log(math.log), 'log2': _log(math.log2), 'log10': _log(math.log10), 'pow': _pow, 'sqrt': _guard(math.sqrt), 'fmod': _fmod, 'tgamma': _tgamma,
       'ceil': _keepinf(math.ceil), 'floor': _keepinf(math.floor), 'round': _round, 'trunc': _trunc, 'fabs': abs, 'fmin': min, 'fmax': max,
       'rint': _keepinf(round), 'nearbyint': _keepinf(round), 'lgamma': _guard(math.lgamma), 'exp2': _guard(lambda x: 2.0 ** x), 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
       'hypot': math.hypot, 'atan2': math.atan2, 'copysign': math.copysign, 'log1p': _guard(math.log1p), 'expm1': _guard(math.expm1),
       'labs': abs, 'abs': abs, 'llabs': abs, 'fdim': lambda a, b: max(a - b, 0.0), 'lround': lambda x: int(_round(x)), 'llround': lambda x: int(_round(x)),
       'remainder': _guard(math.remainder), 'logb': _guard(lambda x: float(math.frexp(x)[1] - 1))}


def wrap(x, bits):
    return x & ((1 << bits) - 1)


def sgn(x, bits):
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> (bits - 1) else x


def value(t, env):
    """Python value of a term at a point (env: term -> number).  Integers are kept as unsigned machine words."""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'f':
        return fval(t)
    if k in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        a, b = value(t[1], env), value(t[2], env)
        try:
            if k == 'fadd':
                return a + b
            if k == 'fsub':
                return a - b
            if k == 'fmul':
                return a * b
            if k == 'frem':
                return _fmod(a, b)
            if b == 0:
                if a == 0 or a != a:
                    return NAN
                return math.copysign(INF, a) * math.copysign(1.0, b)
            return a / b
        except OverflowError:
            return INF
    if k == 'fneg':
        return -value(t[1], env)
    if k == 'sel':
        return value(t[2] if truth(t[1], env) else t[3], env)
    if k in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem') and isinstance(t[1], int):
        w, a, b = t[1], value(t[2], env), value(t[3], env)
        a, b = int(a) & ((1 << w) - 1), int(b) & ((1 << w) - 1)
        if k == 'add':
            return wrap(a + b, w)
        if k == 'sub':
            return wrap(a - b, w)
        if k == 'mul':
            return wrap(a * b, w)
        if k == 'and':
            return a & b
        if k == 'or':
            return a | b
        if k == 'xor':
            return a ^ b
        if k == 'shl':
            return wrap(a << b, w)
        if k == 'lshr':
            return a >> b
        if k == 'ashr':
            return wrap(sgn(a, w) >> b, w)
        if b == 0:
            raise NoVal('division')
        if k == 'udiv':
            return a // b
        if k == 'urem':
            return a % b
        sa, sb = sgn(a, w), sgn(b, w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return wrap(q if k == 'sdiv' else sa - q * sb, w)
    if k in ('zext', 'trunc'):
        return wrap(value(t[3], env), min(t[1], t[2]))
    if k == 'sext':
        return wrap(sgn(value(t[3], env), t[2]), t[1])
    if k in ('sitofp', 'uitofp'):
        x = value(t[3], env)
        return float(sgn(x, t[2]) if k == 'sitofp' else x)
    if k in ('fptosi', 'fptoui'):
        x = value(t[3], env)
        if x != x or abs(x) >= 2.0 ** (t[1] - 1):
            raise NoVal('conversion out of range')
        if k == 'fptoui' and x <= -1:
            raise NoVal('conversion out of range')
        return wrap(int(x), t[1])
    if k == 'call' and t[1] in EXT:
        return EXT[t[1]](*[(sgn(value(x, env), 64) if t[1] in ('labs', 'abs', 'llabs') else value(x, env)) for x in t[2:] if x[0] != 'ver'])
    if k in ('cmp', 'not', 'and', 'or'):
        return int(truth(t, env))
    raise NoVal(show(t))


def truth(c, env):
    k = c[0]
    if k == 'c':
        return bool(c[1])
    if k == 'not':
        return not truth(c[1], env)
    if k == 'cmp':
        a, b = value(c[2], env), value(c[3], env)
        if c[1] == 's':
            w = width(c[2]) or width(c[3]) or 64
            a, b = sgn(int(a), w), sgn(int(b), w)
        return bool(_cmp(a, b) & c[4])
    if k in ('and', 'or', 'xor') and c[1] == 1:
        a = truth(c[2], env)
        if k == 'and':
            return a and truth(c[3], env)
        if k == 'or':
            return a or truth(c[3], env)
        return a != truth(c[3], env)
    if k == 'sel':
        return truth(c[2] if truth(c[1], env) else c[3], env)
    if k == 'switch-default':
        return True
    return bool(value(c, env))


def width(t):
    if t[0] == 'c':
        return t[2]
    if t[0] in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'srem', 'sdiv', 'urem', 'udiv', 'shl', 'lshr', 'ashr') and isinstance(t[1], int):
        return t[1]
    if t[0] == 'ld':
        return 8 * t[3]
    return None


def consts(t, out):
    if t[0] == 'f':
        out.add(fval(t))
    elif t[0] == 'c':
        if t[2] > 1:
            out.add(float(sval(t)))
    else:
        for x in t:
            if isinstance(x, tuple) and x:
                consts(x, out)


# ----- normal form: polynomial over atoms with rational coefficients; division by a monomial becomes negative exponents
def nf(t):
    k = t[0]
    if k == 'f':
        x = fval(t)
        if x != x or abs(x) == INF:
            return {((('K', repr(x)), 1),): Fraction(1)}
        return {(): Fraction(x)} if x else {}
    if k in ('fadd', 'fsub'):
        a, b = nf(t[1]), nf(t[2])
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + (c if k == 'fadd' else -c)
        return {m: c for m, c in r.items() if c}
    if k == 'fneg':
        return {m: -c for m, c in nf(t[1]).items()}
    if k == 'fmul':
        return mul(nf(t[1]), nf(t[2]))
    if k == 'fdiv':
        b = nf(t[2])
        if len(b) == 1:
            (m, c), = b.items()
            return mul(nf(t[1]), {tuple((a, -e) for a, e in m): 1 / c})
        return mul(nf(t[1]), {((('poly', freeze(b)), -1),): Fraction(1)})
    if k == 'call' and t[1] == 'pow' and t[3][0] == 'f' and fval(t[3]) == int(fval(t[3]) if abs(fval(t[3])) < 9 else 99):
        n = int(fval(t[3]))
        if 0 <= n <= 4:
            r = {(): Fraction(1)}
            for _ in range(n):
                r = mul(r, nf(t[2]))
            return r
    if k == 'call':
        a = ('call', t[1]) + tuple(freeze(nf(x)) if x[0] != 'ver' else None for x in t[2:])
        return {((a, 1),): Fraction(1)}
    if k in ('sitofp', 'uitofp') and t[3][0] == 'c':
        v = Fraction(sval(t[3]) if k == 'sitofp' else t[3][1])
        return {(): v} if v else {}
    return {((t, 1),): Fraction(1)}


def freeze(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = {}
            for x, k in m + n:
                e[x] = e.get(x, 0) + k
            mm = tuple(sorted(((x, k) for x, k in e.items() if k), key=repr))
            r[mm] = r.get(mm, 0) + c * d
    return {m: c for m, c in r.items() if c}


def same(a, b):
    return a == b or freeze(nf(a)) == freeze(nf(b))


def close(x, y):
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    if abs(x) == INF or abs(y) == INF:
        return False
    return abs(x - y) <= 1e-9 * max(1e-3, abs(x), abs(y))


# ----- interval valuation for results that depend on an unknown in a known range
def interval(t, env):
    if t in env:
        return env[t]
    k = t[0]
    if k == 'f':
        return (fval(t), fval(t))
    if k == 'c':
        return (sval(t), sval(t))
    if k in ('zext', 'sext', 'trunc'):
        return interval(t[3], env)
    if k in ('sitofp', 'uitofp'):
        a = interval(t[3], env)
        return (float(a[0]), float(a[1]))
    if k in ('fptosi', 'fptoui'):
        a = interval(t[3], env)
        return (int(a[0]), int(a[1]))
    if k in ('fadd', 'add'):
        a, b = interval(t[-2], env), interval(t[-1], env)
        return (a[0] + b[0], a[1] + b[1])
    if k in ('fsub', 'sub'):
        a, b = interval(t[-2], env), interval(t[-1], env)
        return (a[0] - b[1], a[1] - b[0])
    if k in ('fmul', 'mul', 'fdiv'):
        a, b = interval(t[-2], env), interval(t[-1], env)
        if k == 'fdiv' and b[0] <= 0 <= b[1]:
            raise NoVal('interval division')
        v = [(x * y if k != 'fdiv' else x / y) for x in a for y in b]
        return (min(v), max(v))
    if k in ('srem', 'urem', 'frem') or (k == 'call' and t[1] == 'fmod'):
        a, b = interval(t[-2], env), interval(t[-1], env)
        if b[0] != b[1] or b[0] <= 0 or a[0] < 0:
            raise NoVal('interval remainder')
        if a[1] < b[0]:
            return a
        return (0, b[0] - 1) if k != 'frem' and k != 'call' else (0.0, b[0])
    if k in ('sdiv', 'udiv'):
        a, b = interval(t[-2], env), interval(t[-1], env)
        if b[0] != b[1] or b[0] <= 0 or a[0] < 0:
            raise NoVal('interval quotient')
        return (a[0] // b[0], a[1] // b[0])
    if k == 'call' and t[1] in ('floor', 'trunc', 'ceil'):
        a = interval(t[2], env)
        f = EXT[t[1]]
        return (f(a[0]), f(a[1]))
    raise NoVal(show(t))
