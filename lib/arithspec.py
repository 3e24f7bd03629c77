"""The documented meaning of the built-in operators (README tables), as cells: a condition on the operands and the outcome there."""
import itertools, math
from absint import *
from terms import *
from terms import _round
import arith

A0, A1 = arith.arg(0), arith.arg(1)


def T(name, *a):
    return ('call', name) + a


def c0(x):
    return cf(float(x))


F = 'f'
FULLORD = [(F, A0, A0, E)]
ZERO = c0(0)


class Cell:
    def __init__(self, text, facts, pred, out):
        self.text, self.facts, self.pred, self.out = text, facts, pred, out


def val(t):
    return ('val', t)


def err(n):
    return ('err', n)


def total1(t):
    return [Cell('any x', [], lambda a: True, val(t))]


def total2(t):
    return [Cell('any x, y', [], lambda a, b: True, val(t))]


def isint(x):
    return x == math.floor(x)


# fixed-arity operators: (name, placement) -> (number of operands, cells)
def fixed():
    s = {}
    s['$', 'prefix'] = total1(A0)
    s['+', 'prefix'] = total1(A0)
    s['-', 'prefix'] = total1(('fneg', A0))
    s['%', 'postfix'] = total1(('fdiv', A0, c0(100)))
    s['+', 'infix'] = total2(('fadd', A0, A1))
    s['-', 'infix'] = total2(('fsub', A0, A1))
    s['*', 'infix'] = total2(('fmul', A0, A1))
    s['mod', 'infix'] = total2(T('fmod', A0, A1))
    s['/', 'infix'] = [Cell('y = 0', [(F, A1, ZERO, E)], lambda a, b: b == 0, err('LISTENERERR_DIVISION_BY_ZERO')),
                       Cell('y != 0', [(F, A1, ZERO, L | G)], lambda a, b: b != 0, val(('fdiv', A0, A1)))]
    TB = T('trunc', A1)
    s['^', 'infix'] = [
        Cell('x = 0, y <= 0', [(F, A0, ZERO, E), (F, A1, ZERO, L | E)], lambda a, b: a == 0 and b <= 0, err('LISTENERERR_DIVISION_BY_ZERO')),
        Cell('x < 0, y not an integer', [(F, A0, ZERO, L), (F, TB, A1, L | G)], lambda a, b: a < 0 and not isint(b), err('LISTENERERR_COMPLEX_SOLUTION')),
        Cell('x = 0, y > 0', [(F, A0, ZERO, E), (F, A1, ZERO, G)], lambda a, b: a == 0 and b > 0, val(T('pow', A0, A1))),
        Cell('x > 0', [(F, A0, ZERO, G), (F, A1, A1, E)], lambda a, b: a > 0, val(T('pow', A0, A1))),
        Cell('x < 0, y an integer', [(F, A0, ZERO, L), (F, TB, A1, E)], lambda a, b: a < 0 and isint(b), val(T('pow', A0, A1)))]
    s['root', 'function'] = [
        Cell('x < 0', [(F, A0, ZERO, L)], lambda a, b: a < 0, err('LISTENERERR_COMPLEX_SOLUTION')),
        Cell('x >= 0', [(F, A0, ZERO, G | E)], lambda a, b: a >= 0, val(T('pow', A0, ('fdiv', c0(1), A1))))]
    s['sqrt', 'function'] = [Cell('x < 0', [(F, A0, ZERO, L)], lambda a: a < 0, err('LISTENERERR_COMPLEX_SOLUTION')),
                             Cell('x >= 0', [(F, A0, ZERO, G | E)], lambda a: a >= 0, val(T('sqrt', A0)))]
    s['deriv', 'function'] = [Cell('any', [], lambda a, b: True, err('LISTENERERR_IMPOSSIBLE_DERIV'))]
    s["'", 'postfix'] = [Cell('any', [], lambda a: True, err('LISTENERERR_IMPOSSIBLE_DERIV'))]
    s['log', 'function'] = total2(('fdiv', T('log', A0), T('log', A1)))
    for nm, fn in (('exp', 'exp'), ('ln', 'log'), ('ld', 'log2'), ('lg', 'log10'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('asin', 'asin'), ('acos', 'acos'),
                   ('atan', 'atan'), ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh'), ('asinh', 'asinh'), ('acosh', 'acosh'), ('atanh', 'atanh'), ('abs', 'fabs'),
                   ('ceil', 'ceil'), ('floor', 'floor'), ('round', 'round'), ('trunc', 'trunc'), ('gamma', 'tgamma')):
        s[nm, 'function'] = total1(T(fn, A0))
    s['frac', 'function'] = total1(('fsub', A0, T('floor', A0)))
    s['sgn', 'function'] = [Cell('x < 0', [(F, A0, ZERO, L)], lambda a: a < 0, val(c0(-1))), Cell('x = 0', [(F, A0, ZERO, E)], lambda a: a == 0, val(c0(0))),
                            Cell('x > 0', [(F, A0, ZERO, G)], lambda a: a > 0, val(c0(1)))]
    return s


CONSTS = {'pi': 3.14159265359, 'e': 2.71828182846, 'phi': 1.61803398874, 'clight': 299792458.0, 'csound': 343.2}


def subcells(n):
    """the partition of {x : trunc(x) = n}: on each part every rounding of x is decided"""
    out = [('x = %d' % n, n, 0.0)]
    if n >= 0:
        out += [('%d < x < %g' % (n, n + .5), n, .25), ('%g <= x < %d' % (n + .5, n + 1), n, .75)]
    if n <= 0:
        out += [('%g < x < %d' % (n - .5, n), n, -.25), ('%d < x <= %g' % (n - 1, n - .5), n, -.75)]
    return out


def cell_facts(a, n, frac):
    x = c0(n)
    if frac == 0:
        fs = [(F, a, x, E)]
        for f in ('trunc', 'floor', 'ceil', 'round', 'rint', 'nearbyint'):
            fs.append((F, T(f, a), x, E))
        fs.append((F, T('fabs', a), c0(abs(n)), E))
    else:
        lo, hi = math.floor(n + frac), math.ceil(n + frac)
        fs = [(F, a, c0(lo), G), (F, a, c0(hi), L), (F, T('trunc', a), x, E), (F, T('floor', a), c0(lo), E), (F, T('ceil', a), c0(hi), E),
              (F, T('round', a), c0(_round(n + frac)), E), (F, T('rint', a), c0(_round(n + frac)), E), (F, T('nearbyint', a), c0(_round(n + frac)), E),
              (F, T('floor', T('fabs', a)), c0(abs(n)), E), (F, T('trunc', T('fabs', a)), c0(abs(n)), E)]
        fs.append((F, a, c0((lo + hi) / 2), L if abs(frac - math.trunc(frac)) < .5 and frac > 0 or frac < -.5 else G))
        fs.append((F, T('fabs', a), c0(abs(n) + 1), L))
    for w in (64, 32):
        fs.append(('s', ('fptosi', w, 64, a), ci(n, w), E))
    if n >= 0:
        for w in (64, 32):
            fs.append(('u', ('fptoui', w, 64, a), ci(n, w), E))
    return fs


def fibn(n):
    a, b = 0, 1
    for _ in range(abs(n)):
        a, b = b, a + b
    return a if n >= 0 or n % 2 else -a


# operators over truncated integers: (name, placement) -> (arity, [operand tuples], meaning)
def integer_ops(thorough):
    s = {}
    r = range
    facts = list(r(0, 14)) + [17, 19, 20, 21, 22, 25, 30, 34, 35, 60, 100, 170]
    s['!', 'postfix'] = (1, [(n,) for n in facts], lambda n: float(math.factorial(n)))
    bn = [(n, k) for n in r(0, 9) for k in r(0, 10)] + [(12, 5), (20, 10), (30, 28), (25, 3), (34, 17), (52, 5), (52, 47), (60, 30), (61, 30), (68, 34), (100, 50), (3, 40)]
    if thorough:
        bn += [(n, k) for n in r(9, 16) for k in r(0, 18)] + [(60, 30), (52, 5)]
    s['C', 'infix'] = (2, bn, lambda n, k: float(math.comb(n, k)))
    gs = [(a, b) for a in r(-3, 10) for b in r(-3, 10)] + [(84, 36), (1071, 462), (12, -18), (100, 40), (-270, 192), (97, 89), (1000, 35), (128, 96)]
    if thorough:
        gs += [(a, b) for a in r(-12, 25) for b in r(10, 31)]
    s['gcd', 'function'] = (2, gs, lambda a, b: float(math.gcd(a, b)))
    s['lcm', 'function'] = (2, [g for g in gs if g[0] and g[1]], lambda a, b: float(abs(a * b) // math.gcd(a, b)))
    s['fib', 'function'] = (1, [(n,) for n in list(r(-24, 30)) + [-25, -31, -40, -46, -47, 40, 46, 47, 48, 60, 80] + ([90] if thorough else [])], lambda n: float(fibn(n)))
    return s


DYN = {'sum', 'prod', 'avg', 'max', 'min', 'var'}


def vsum(a):
    t = c0(0)
    for x in a:
        t = ('fadd', t, x)
    return t


def dyn_terms(name, n):
    a = [arith.arg(i) for i in range(n)]
    if name == 'sum':
        return vsum(a)
    if name == 'prod':
        t = c0(1)
        for x in a:
            t = ('fmul', t, x)
        return t
    if name == 'avg':
        return ('fdiv', vsum(a), c0(n)) if n else c0(0)
    if name == 'var' and n:
        u = ('fdiv', vsum(a), c0(n))
        return ('fdiv', vsum([('fmul', ('fsub', x, u), ('fsub', x, u)) for x in a]), c0(n))
    return None


BASE = [-1e9, -100.0, -7.0, -3.0, -2.5, -2.0, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 9.0, 10.0, 33.3, 100.0, 1e6]


def candidates(terms, n):
    cs = set()
    for t in terms:
        if t is not None:
            consts(t, cs)
    cs = {c for c in cs if c == c and abs(c) < 1e300}
    out = set(BASE if n < 3 else BASE[6:19:2])
    for c in cs:
        out |= {c, -c, c + 1, c - 1, c + .5, c - .5, c * 2, c * 1.01}
        if abs(c) < 1e-3 and c:
            out |= {c / 2, c * 1.5}
    return sorted(out)


def conditions(st):
    return [(e[2], e[3]) for e in st.events() if e[0] == 'br']


def points(nargs, cands, cap=60000):
    its = [cands] * nargs
    for k, p in enumerate(itertools.product(*its)):
        if k >= cap:
            return
        yield p


def feasible(conds, env):
    for c, v in conds:
        if truth(c, env) != v:
            return False
    return True


def witness(st, code, out, nargs, pred, expect, want_err, codes):
    """a point on this path inside the cell at which the extracted outcome differs from the documented one; None if none is found"""
    conds = conditions(st)
    cands = candidates([c for c, _ in conds] + [out, expect], nargs)
    seen = False
    for p in points(nargs, cands):
        env = {arith.arg(i): p[i] for i in range(nargs)}
        try:
            if pred and not pred(*p):
                continue
            if not feasible(conds, env):
                continue
            seen = True
            if want_err is not None:
                if code != codes[want_err]:
                    return p, 'status %s' % code, want_err
                continue
            if code != 0:
                return p, 'status %s' % code, value(expect, env)
            got, exp = value(out, env), value(expect, env)
            if exp != exp:
                continue
            if not close(got, exp):
                return p, got, exp
        except NoVal:
            continue
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
    return None
