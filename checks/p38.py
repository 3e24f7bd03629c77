"""Simplification keeps the value; derivatives are derivatives."""
import os
import ir
from session import *
from prog import fmt
import absint, arith

EXPLAIN = """The shipped rule file is loaded by abstract interpretation of the program's own loader and the simplifier is then interpreted on parsed expressions - one or more for every family of rules and
for every combination of sign, constant position and nesting that the glue code distinguishes (constant folding between passes, representation of negative constants, order of the sections,
shorthand and nested derivatives). The resulting tree is read back and its difference to the meaning of the input (for derivatives: to the derivative of the operand) is brought to normal form,
also with every sign of the variables. Derivatives that are ambiguous, taken with respect to something that is not a variable, or not reducible must be reported with their own code and nothing else.
Every tree must be released completely (heap typestate)."""

PLAIN = ['x-x', 'x+x+x', 'x-y-x', '2*x-3*x', 'x*x*x', 'x^2*x^3', 'x*x^2*y', 'x^a*x^y', '2^x*3^x', '(x*y)^2', '(x^2)^3', 'sqrt(x^2)', 'x/y/a', '(x*y)/(x*a)', '-(x+y)', '-(x+y)*2', '-(x*y)', '-x*-y',
         'x-(-y)', 'x%+y', 'avg(x,y)', 'avg(x,y,x)', 'sum(x,y,x)', 'prod(x,y,x)', 'min(x,y,x)', 'sin(x)^2+cos(x)^2+y', 'tan(x)*cos(x)', 'exp(x)*y', 'root(x,3)', 'log(x,e)', '(x+1)^2', 'x^2+2*x*y+y^2',
         '2*(x+3)', '2*(x+y)', 'x*y+x*a', 'a*(1+x^2)*x^3', '(-x)^2', '(-x)^3', 'x^-2', 'x^(-y)', 'x*(y/a)', '2+x+3', 'x*2*y*3', 'x-5+2', '2-(3-x)', 'x*0+y', '--x', '-2*x', 'x*-2', '(0-2)*x', '1-2*x',
         'x*(1-3)+y', 'y-(2-5)*x', 'x^(2-3)', 'x-(y-(a-x))', '3*x*2-x', 'x/2+x/3', '-(-x-y)', '5', '2-7', 'x', '$x+y', 'x+2/3-y/3']
DERIV = ["x'", "4'", "(x^2)'", "(x^3+2*x)'", "sin(x)'", "cos(x)'", "(x*sin(x))'", "ln(x)'", "(e^x)'", "(x^2)''", 'deriv(x*y,x)', 'deriv(x*y,y)', 'deriv(y,x)', 'deriv(3*x^2*y,x)',
         "(x-3)'+y", "2*(x^2)'", "(x^2)'*(y^2)'", "(-x^2)'", "sin(2*x)'", "deriv(x^2,x)+deriv(y^3,y)", "(5*x)'", "deriv(-x,x)", "atan(x)'", "deriv(7,x)"]
MORE = ["(x^3)'''", "(2^x)'", 'deriv(deriv(x^2*y^2,x),y)', "(1/x)'", "(x^x)'", "asin(x)'", "tan(x)'", "(x/(x+1))'", "exp(2*x)'", "acos(x)'", "sin(cos(x))'", "(x*y*a)^3", "(x+y)*(x-y)", "x*y*x*y", "sqrt(x)*sqrt(y)", "(x+y)^2-x^2", "max(x,y,y)", "x/(y/a)", "(x-1)^2", "2^x*2^y",
        'sin(x)/cos(x)', 'x*x^y', 'x^y*x', 'sin(x)^2*y+cos(x)^2*y', 'x^2*y^3*x^-1', 'sum(x,sum(y,a),2)', 'prod(2,x,prod(3,y))', 'avg(x,2,y,4)', '1/(1/x)', 'x-(-2)', '-(x-y)', '-3-x', 'x*(-1)', '(x*2)%',
        "deriv(x^2+y^2,y)'", "(x^2+x)''", "deriv(x*sin(y),y)", "deriv(ln(x)*x,x)", "sqrt(x^3)", "(x^0.5)^2", "(2*x)^2/(4*x)", "5*x-6*x", "x+y+x+y", "x*(y+a)-x*y", "-x^2", "(-x)^-2", "2-x-3-y"]
ERRORS = [("(x*y)'", 'LISTENERERR_MALFORMED_DERIV_A'), ("x*(y+x)'", 'LISTENERERR_MALFORMED_DERIV_A'), ('deriv(x,2)', 'LISTENERERR_MALFORMED_DERIV_B'), ('deriv(x,x*y)', 'LISTENERERR_MALFORMED_DERIV_B'),
          ('2+deriv(y,x+1)', 'LISTENERERR_MALFORMED_DERIV_B'), ("floor(x)'", 'LISTENERERR_IMPOSSIBLE_DERIV'), ('x+deriv(x!,x)', 'LISTENERERR_IMPOSSIBLE_DERIV'), ("(x^2)'+abs(x)'", 'LISTENERERR_IMPOSSIBLE_DERIV'),
          ('x+1/0', 'LISTENERERR_DIVISION_BY_ZERO'), ('0*x+1/0', 'LISTENERERR_DIVISION_BY_ZERO'), ("x'+1/0", 'LISTENERERR_DIVISION_BY_ZERO'),
          # undefined only once simplified
          ('1/(x-x)', 'LISTENERERR_DIVISION_BY_ZERO'), ('y+1/(x-x)', 'LISTENERERR_DIVISION_BY_ZERO'), ('sqrt(x-x-4)', 'LISTENERERR_COMPLEX_SOLUTION'), ("y'/(x-x)", 'LISTENERERR_DIVISION_BY_ZERO')]


def toks(s):
    from p23 import reference
    from ruleset import operators
    return reference(s, sorted({n for n, _ in operators()}))


def meaning(t, env):
    """value of a reference tree, shorthand derivatives included; env: the variables that are negative"""
    import identity
    from ruleset import variables
    import sympy as sp

    def walk(t):
        if t[0] != 'o':
            return t
        a = tuple(walk(c) for c in t[3])
        if t[1] == "'" and t[2] == 'postfix':
            v = variables(t)
            return ('o', 'deriv', 'function', (a[0], ('v', v[0]) if v else ('v', 'x')))
        return t[:3] + (a,)

    def val(t):
        if t[0] == 'o' and t[1] == 'deriv':
            return env.get(t[3][1][1], 1) * sp.diff(val(t[3][0]), sp.Symbol(t[3][1][1], positive=True))
        if t[0] == 'o' and any(has(c) for c in t[3]):
            e = {}
            kids = []
            for k, c in enumerate(t[3]):
                n = '#%d' % k
                e[n] = identity.Value('OP', val(c))
                kids.append(('v', n))
            return identity.value(t[:3] + (tuple(kids),), e)
        return identity.value(t, symbols(t))

    def has(t):
        return t[0] == 'o' and (t[1] == 'deriv' or any(has(c) for c in t[3]))

    def symbols(t):
        return {v: identity.Value('VAR', env.get(v, 1) * sp.Symbol(v, positive=True)) for v in variables(t)}
    return val(walk(t))


def plain(v):
    """the number a folded constant stands for, rounding undone"""
    from fractions import Fraction
    import math
    if v != v or abs(v) == math.inf:
        raise KeyError('constant %r' % v)
    f = Fraction(v).limit_denominator(1000)
    if abs(float(f) - v) <= 1e-12 * max(1, abs(v)):
        return str(f)
    return repr(v)


def convert(S, st, t, names):
    """tree of the program -> reference shape"""
    if t[0] == 'c':
        v = fval(t[1])
        if v is None:
            raise KeyError(show(t[1]))
        if abs(v - 2.718281828459045) < 1e-11:
            return ('o', 'e', 'function', ())
        return ('c', plain(v))
    if t[0] == 'v':
        return ('v', t[1][1])
    if t[0] != 'o':
        raise KeyError(str(t))
    name, pl = names(t[1])
    return ('o', name, pl, tuple(convert(S, st, c, names) for c in t[2]))


PL = {}
_S = [None]


def prepare(ctx):
    """the session with the rules loaded, shared by all workers"""
    lines = open(os.path.join(ir.REPO, 'simplification.ruleset')).read().splitlines(True)
    S = Session(ctx, files={'rules': lines})
    if S.base is None:
        return None
    S.I.max_steps = 40000000
    S.I.fold_libm = True
    r = S.cmd(S.base, 'load simplification rules', 'loading the rule file')
    if r is None:
        return None
    if r[1] != 1:
        ctx.violation('load', S.where('init_simplification'), 'the shipped rule file is not accepted: %s' % r[3])
        return None
    S.loaded = r[0]
    return S


def work(ctx, items):
    import identity
    from ruleset import Rules, variables, show as rshow
    S = _S[0]
    S.ctx = ctx
    I, P = S.I, S.P
    R = Rules(None)
    E = dict(P.E)
    E.update(arith.err_codes())
    signed = lambda n: n - (1 << 32) if n >> 31 else n
    place = {E['OP_PLACE_PREFIX']: 'prefix', E['OP_PLACE_INFIX']: 'infix', E['OP_PLACE_POSTFIX']: 'postfix', E['OP_PLACE_FUNCTION']: 'function'}
    base = S.loaded.copy()
    root, errp = P.local(base, 'tree', 'undef', 8), P.local(base, 'err', 'undef', 8)
    gctx = I.load(base, S.glob('g_ctx'), 8, 'ptr') if 'g_ctx' in ctx.mod.globals else S.glob('__g_ctx')
    I.max_steps = 4000000
    for text, want in items:
        if absint.late():
            ctx.undecide('%s: out of time' % text)
            continue
        st = base.copy()
        what = 'simplifying "%s"' % text

        def names(op):
            return I.sid(st, P.get(st, 'Operator', op, 'name', 'ptr'))[1], place[P.get(st, 'Operator', op, 'placement')[1]]
        r = S.call(st, what, 'parse_easy', gctx, P.lit(st, text))
        if r is None:
            continue
        st, v = r
        if v == NULL:
            ctx.undecide('%s: not parsed' % what)
            continue
        live = None
        I.store(st, root, v, 8)
        r = S.call(st, what, 'simplify', root, errp)
        if r is None:
            continue
        st, code = r
        ctx.count('expressions')
        if code[0] != 'c':
            ctx.undecide('%s: code %s' % (what, short(code)))
            continue
        tree = P.read(st, I.load(st, root, 8, 'ptr'))
        got = signed(code[1])
        success = E['LISTENERERR_SUCCESS']
        if want in ('plain', 'deriv'):
            if got != success:
                if want == 'deriv' and text in MORE and got == E['LISTENERERR_IMPOSSIBLE_DERIV']:
                    continue
                ctx.violation('code', S.where('simplify'), '%s fails with code %s' % (what, [k for k, x in E.items() if x == got and k.startswith('LISTENERERR')] or got))
                continue
            try:
                back = convert(S, st, tree, names)
            except KeyError as e:
                ctx.undecide('%s: %s' % (what, e))
                continue
            orig = R.ref.parse(toks(text))
            vs = sorted(set(variables(orig)))
            signs = [{}] + ([{v: -1 for v in vs}] if vs else []) + ([{v: -1} for v in vs] if len(vs) > 1 else [])
            done = True
            for m in signs:
                desc = 'for %s' % ', '.join('%s%s 0' % (v, '<' if v in m else '>') for v in vs)
                try:
                    a = meaning(orig, m)
                except identity.Undef:
                    continue
                except identity.Open as e:
                    ctx.undecide('%s: %s' % (what, e))
                    done = False
                    continue
                try:
                    b = meaning(back, m)
                    z, at = identity.zero(a - b)
                except identity.Undef as e:
                    ctx.violation('undefined', S.where('simplify'), '%s yields %s, which has no value %s (%s)' % (what, rshow(back), desc, e))
                    break
                except identity.Open as e:
                    ctx.undecide('%s: %s' % (what, e))
                    done = False
                    continue
                ctx.count('cells')
                if z is False:
                    ctx.violation('value:%s' % ('derivative' if want == 'deriv' else 'kept'), S.where('simplify'), '%s yields %s, which differs from %s %s%s' % (what, rshow(back), a, desc, ' (e.g. %s)' % at if at else ''))
                    break
                if z is None:
                    ctx.undecide('%s => %s: %s' % (what, rshow(back), a - b))
                    done = False
            else:
                ctx.count('decided', int(done))
            if len(ctx.samples) < 4:
                ctx.sample('%s => %s' % (text, rshow(back)))
        else:
            if got != E[want]:
                ctx.violation('code:%s' % want, S.where('simplify'), '%s yields code %s, expected %s' % (what, [k for k, x in E.items() if x == got and k.startswith('LISTENERERR')] or got, want))
            else:
                ctx.count('decided')
        r = S.call(st, what, 'free_tree', I.load(st, root, 8, 'ptr'))
        if r is None:
            continue
        extra = set(I.live(r[0])) - set(I.live(S.loaded))
        if extra:
            ctx.violation('leak', S.where('simplify'), '%s: %d blocks are lost' % (what, len(extra)))
    ctx.fns |= I.visited_fns


def check(ctx):
    ctx.rule('value of the simplified tree = value of the expression (derivatives taken); error codes for derivatives that cannot be taken; trees released')
    S = prepare(ctx)
    if S is None:
        return
    _S[0] = S
    items = [(t, 'deriv') for t in DERIV] + [(t, 'plain') for t in PLAIN] + ERRORS
    if ctx.thorough:
        items += [(t, 'deriv' if "'" in t or 'deriv' in t else 'plain') for t in MORE]
    parallel(ctx, work, items)
    ctx.need('decided', 60)
