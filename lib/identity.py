"""Decides whether both sides of a rewrite rule denote the same value, cell by cell, by normal form (needs sympy)."""
import itertools, signal
import sympy as sp
from ruleset import variables, is_list, show

NUMS = [sp.Integer(2), sp.Integer(3), sp.Integer(-1), sp.Rational(1, 2), sp.Integer(0), sp.Integer(1), sp.Integer(-2), sp.Rational(-1, 2), sp.Rational(2, 3), sp.Integer(4)]
T = sp.Symbol('t', positive=True)
CONSTS = {'pi': sp.pi, 'e': sp.E, 'phi': (1 + sp.sqrt(5)) / 2}


class Undef(Exception):
    """the expression has no value in this cell"""


class Open(Exception):
    """not decided in this cell"""


class Value:
    """what a variable of the pattern stands for"""
    def __init__(self, kind, v):
        self.kind, self.v = kind, v      # kind: CONST / VAR / OP

    def __repr__(self):
        return '%s' % self.v


def power(b, e):
    if e.is_number:
        if b.is_zero:
            if e == 0:
                return sp.Integer(1)
            if e.is_negative:
                raise Undef('0^%s' % e)
            return sp.Integer(0)
        if e.is_integer:
            return b ** e
        if b.is_nonnegative:
            return b ** e
        if b.is_negative:
            raise Undef('(%s)^%s' % (b, e))
        b2 = sp.factor(b)
        if b2.is_nonnegative:
            return b2 ** e
        if b2.is_negative:
            raise Undef('(%s)^%s' % (b, e))
        return b ** e        # where the base is positive
    return b ** e


def value(t, env):
    k = t[0]
    if k == 'c':
        return sp.Rational(str(t[1]))       # '0.5', '1/3'
    if k == 'v':
        return env[t[1]].v
    n, pl = t[1], t[2]
    a = []
    for c in t[3]:
        if c[0] == 'v' and is_list(c[1]):
            a += [x.v for x in env[c[1]]]
        else:
            a.append(value(c, env))
    if pl == 'infix':
        x, y = a
        if n == '+':
            return x + y
        if n == '-':
            return x - y
        if n == '*':
            return x * y
        if n == '/':
            if sp.simplify(y) == 0:
                raise Undef('%s/0' % x)
            return x / y
        if n == '^':
            return power(x, y)
        if n == 'mod':
            if x.is_Rational and y.is_Rational:
                if y == 0:
                    raise Undef('mod 0')
                return sp.sign(x) * (abs(x) % abs(y))
            raise Open('mod')
    if pl == 'prefix' and n in ('+', '$'):
        return a[0]
    if pl == 'prefix' and n == '-':
        return -a[0]
    if pl == 'postfix' and n == '%':
        return a[0] / 100
    if pl == 'function':
        if n in CONSTS and not a:
            return CONSTS[n]
        if n == 'sum':
            return sp.Add(*a)
        if n == 'prod':
            return sp.Mul(*a)
        if n == 'count':
            return sp.Integer(len(a))
        if n == 'avg':
            if not a:
                raise Undef('avg()')
            return sp.Add(*a) / len(a)
        if n in ('min', 'max'):
            if not a:
                raise Open('%s()' % n)
            return (sp.Min if n == 'min' else sp.Max)(*a)
        if n == 'tan':
            return sp.sin(a[0]) / sp.cos(a[0])
        if n in ('sin', 'cos', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'abs', 'floor', 'ceil', 'sgn'):
            f = {'abs': 'Abs', 'ceil': 'ceiling', 'sgn': 'sign'}.get(n, n)
            return getattr(sp, f)(a[0])
        if n == 'sqrt':
            return power(a[0], sp.Rational(1, 2))
        if n in ('ln', 'log', 'ld', 'lg'):
            for x in a:
                if x.is_nonpositive:
                    raise Undef('%s(%s)' % (n, x))
            if n == 'log':
                return sp.log(a[0]) / sp.log(a[1])
            return sp.log(a[0]) / {'ln': 1, 'ld': sp.log(2), 'lg': sp.log(10)}[n]
        if n == 'root':
            if sp.simplify(a[1]) == 0:
                raise Undef('root 0')
            return power(a[0], 1 / a[1])
        if n == 'deriv':
            if a[1] != T:
                raise Open('derivative by %s' % a[1])
            return sp.diff(a[0], T)
    raise Open('operator %s (%s)' % (n, pl))


# ----- conditions

def kind(t, env):
    if t[0] == 'c':
        return 'CONST'
    if t[0] == 'v':
        return env[t[1]].kind
    return 'OP'


def holds(t, env):
    """True / False / None (cannot be evaluated: the rule does not apply)"""
    n, a = t[1], t[3] if t[0] == 'o' else ()
    if t[0] == 'o' and n == '||':
        x, y = holds(a[0], env), holds(a[1], env)
        return None if x is None or y is None else x or y
    if t[0] == 'o' and n == '!' and t[2] == 'prefix':
        x = holds(a[0], env)
        return None if x is None else not x
    if t[0] == 'o' and n in ('TRUE', 'FALSE'):
        return n == 'TRUE'
    if t[0] == 'o' and n == 'equal':
        try:
            return bool(value(a[0], env) == value(a[1], env))
        except (Undef, Open):
            return False
    if t[0] == 'o' and n in ('==', '!='):
        if any(x[0] == 'o' and x[1] == 'type' for x in a):
            ks = [kind(x[3][0], env) if x[0] == 'o' and x[1] == 'type' else x[1] for x in a]
            return (ks[0] == ks[1]) == (n == '==')
    if t[0] == 'o' and n in ('==', '!=', '<', '>', '<=', '>='):
        try:
            x, y = value(a[0], env), value(a[1], env)
        except Undef:
            return None
        if not (x.is_number and y.is_number):
            return None
        return bool({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[n])
    raise Open('condition %s' % show(t))


def walk(t, f):
    f(t)
    if t[0] == 'o':
        for c in t[3]:
            walk(c, f)


def exponents(t, out):
    """variables that decide where a power is defined"""
    def f(x):
        if x[0] == 'o' and (x[1] == '^' or x[1] == 'root'):
            for v in variables(x[3][1]):
                out.add(v)
    walk(t, f)


def numeric(conds):
    out = set()
    for c in conds:
        def f(x):
            if x[0] == 'o' and x[1] in ('==', '!=', '<', '>', '<=', '>=') and not any(y[0] == 'o' and y[1] == 'type' for y in x[3]):
                out.update(variables(x))
        walk(c, f)
    return out


def matches(pat, t, env, out):
    """is a rule without list variables applicable to the instance of t"""
    if pat[0] == 'v':
        if is_list(pat[1]):
            return False
        if pat[1] in out:
            return repr(out[pat[1]]) == repr(inst(t, env))
        out[pat[1]] = inst(t, env)
        return True
    if t[0] == 'v' or t[0] != pat[0] or t[1] != pat[1]:
        return False
    if t[0] == 'c':
        return float(t[1]) == float(pat[1])
    return t[2] == pat[2] and len(t[3]) == len(pat[3]) and all(matches(a, b, env, out) for a, b in zip(pat[3], t[3]))


def inst(t, env):
    if t[0] == 'v':
        return ('is', str(env[t[1]].v)) if not is_list(t[1]) else ('is', str(env[t[1]]))
    if t[0] == 'o':
        return ('o', t[1], t[2], tuple(inst(c, env) for c in t[3]))
    return t[:2]


def cells(rule, earlier, thorough):
    """assignments to the variables of the pattern under which the rule applies"""
    lhs, rhs, conds = rule
    vs = variables(lhs)
    lists = [v for v in vs if is_list(v)]
    scal = [v for v in vs if not is_list(v)]
    diff = set()
    walk(lhs, lambda x: diff.update(variables(x[3][1])) if x[0] == 'o' and x[1] == 'deriv' else None)
    exps = set()
    exponents(lhs, exps)
    exponents(rhs, exps)
    nums = numeric(conds)
    typed = {}
    for c in conds:
        def f(x):
            if x[0] == 'o' and x[1] == 'type':
                for v in variables(x):
                    typed[v] = True
        walk(c, f)
    # equal(v, E): the cells where v stands for E
    equals = []
    for c in conds:
        walk(c, lambda x: equals.append(x[3]) if x[0] == 'o' and x[1] == 'equal' and x[3][0][0] == 'v' else None)

    def options(v, generic):
        pos = sp.Symbol(v + '_p', positive=True)
        kinds = ['CONST', 'OP'] if v in typed else ['OP']
        if diff:
            if v in diff:
                return [Value('VAR', T)]
            fn = sp.Function(v)(T)
            o = [Value('OP', fn)]
            if v in typed:
                o += [Value('CONST', pos), Value('CONST', -pos), Value('VAR', pos), Value('VAR', T), Value('CONST', sp.Integer(0))]
            if v in exps and not generic:
                o += [Value('CONST', n) for n in NUMS[:8]]
            return o
        if v in nums or (v in exps and not generic):
            return [Value(k, n) for n in NUMS for k in ((['OP'] if v not in typed else ['CONST', 'OP']))]
        if generic:
            return [Value(k, pos) for k in kinds]
        return [Value(k, x) for x in (pos, -pos, sp.Integer(0)) for k in kinds]

    sizes = [[0] * len(lists), [1] * len(lists), [2] * len(lists)] if lists else [[]]
    for k in range(len(lists)):
        for base, one in ((0, 1), (1, 0), (0, 2)):
            s = [base] * len(lists)
            s[k] = one
            if s not in sizes:
                sizes.append(s)
    out = []
    for generic in (True, False):
        combos = list(itertools.product(*[options(v, generic) for v in scal]))
        cap = 4000 if thorough else 400
        if len(combos) > cap:
            step = len(combos) / float(cap)
            combos = [combos[int(k * step)] for k in range(cap)]
        for ci, co in enumerate(combos):
            envs = [dict(zip(scal, co))]
            for a, b in equals:
                if variables(a) != variables(b) and a[1] not in variables(b):
                    e = dict(envs[0])
                    try:
                        e[a[1]] = Value('OP', value(b, e))
                        envs.append(e)
                    except (Undef, Open):
                        pass
            use = sizes if generic or (ci < 6 or thorough) else [sizes[ci % len(sizes)]]
            for e in envs:
                for sz in use:
                    for sign in ((1,) if generic else (1, -1)):
                        f = dict(e)
                        for l, n in zip(lists, sz):
                            f[l] = [Value('OP', sign * sp.Symbol('%s%d' % (l.strip('[]'), j), positive=True)) for j in range(n)]
                        if not lists and sign == -1:
                            continue
                        try:
                            ok = all(holds(c, f) is True for c in conds)
                        except Open:
                            ok = True
                        if not ok:
                            continue
                        if any(matches(r[0], lhs, f, {}) and not r[2] for r in earlier if not any(is_list(v) for v in variables(r[0]))):
                            continue      # an earlier rule of the section takes this case
                        out.append((generic, f))
    return out


class Late(Exception):
    pass


def zero(d):
    """is the difference zero on the whole cell: True / False with a point / None"""
    d0 = sp.expand(d)
    if d0 == 0:
        return True, None
    pts = []
    syms = sorted(d0.free_symbols, key=str)
    fns = sorted(d0.atoms(sp.Derivative) | d0.atoms(sp.core.function.AppliedUndef), key=lambda f: (not isinstance(f, sp.Derivative), str(f)))
    big = 0
    for k in range(4):
        e = d0
        for j, f in enumerate(fns):
            e = e.subs(f, sp.Rational(31 + 7 * j + 3 * k, 97 + k))
        m = {s: sp.Rational(13 + 10 * j + 7 * k, 29 + k) for j, s in enumerate(syms)}
        v = e.subs(m).evalf(40)
        if v.is_real is False or not v.is_number or v.has(sp.nan, sp.zoo, sp.oo):
            continue
        try:
            v = abs(complex(v))
        except TypeError:
            continue
        if v > 1e-9:
            return False, ', '.join('%s=%s' % i for i in list(m.items())[:6])
        big += 1

    def stop(*a):
        raise Late()
    try:
        signal.signal(signal.SIGALRM, stop)
        signal.alarm(10)
    except ValueError:
        pass
    try:
        if d0.has(sp.sin, sp.cos):
            # the quadrant in which both are positive
            m = {f: sp.Symbol('f%d' % j, positive=True) for j, f in enumerate(sorted(d0.atoms(sp.sin, sp.cos), key=str))}
            if sp.simplify(sp.expand(d0.xreplace(m))) == 0:
                return True, None
        if sp.simplify(sp.expand_log(sp.powsimp(d0))) == 0 or sp.simplify(sp.expand_trig(d0)) == 0 or sp.simplify(d0.rewrite(sp.exp)) == 0:
            return True, None
    except (Late, Exception):
        pass
    finally:
        try:
            signal.alarm(0)
        except ValueError:
            pass
    return None, None


def decide(rule, generic, env):
    """('same',) / ('differ', detail) / ('narrow', detail) / ('void',) / ('open', why)"""
    try:
        try:
            a = value(rule[0], env)
        except Undef:
            return ('void',)
        if a.has(sp.nan, sp.zoo, sp.oo):
            return ('void',)
        try:
            b = value(rule[1], env)
        except Undef as e:
            return ('narrow', str(e))
        if b.has(sp.nan, sp.zoo, sp.oo):
            return ('narrow', str(b))
        z, at = zero(a - b)
    except Open as e:
        return ('open', str(e))
    if z is None:
        return ('open', 'normal form of %s' % (a - b))
    return ('same',) if z else ('differ', '%s becomes %s%s' % (a, b, ' (e.g. %s)' % at if at else ''))
