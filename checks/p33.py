"""Conditions of rewrite rules."""
import itertools, math
from parsing import *
from catalog_spec import OPS as CAT

EXPLAIN = """The calculator's condition context is built by abstract interpretation of its initialisation; conditions - every comparison on every ordering cell of its operands (below, equal, above, differing in the
fraction only, opposite signs, both zeros), type() of every kind of expression against every kind, equal() on equal and on different expressions of every shape, truth tables of || and !,
the truth constants, nesting of all of them in both operand positions, conditions whose evaluation fails or is impossible, and the operators' grouping without parentheses - are parsed and
checked abstractly. The verdict is compared with the documented meaning; a condition that cannot be evaluated is false. The condition tree is released completely afterwards (heap typestate)."""

PROP = {('type', 'function'): (1, None, None), ('equal', 'function'): (2, None, None), ('==', 'infix'): (2, 1, 'left'), ('!=', 'infix'): (2, 1, 'left'), ('CONST', 'function'): (0, None, None),
        ('VAR', 'function'): (0, None, None), ('OP', 'function'): (0, None, None), ('>', 'infix'): (2, 1, 'left'), ('<', 'infix'): (2, 1, 'left'), ('>=', 'infix'): (2, 1, 'left'),
        ('<=', 'infix'): (2, 1, 'left'), ('||', 'infix'): (2, 0, 'left'), ('TRUE', 'function'): (0, None, None), ('FALSE', 'function'): (0, None, None), ('!', 'prefix'): (1, 4, None),
        ('count', 'function'): (None, None, None)}
KIND = {'c': 'CONST', 'v': 'VAR', 'o': 'OP'}


class Fail(Exception):
    pass


def strip(t):
    return (t[0], float(t[1])) if t[0] == 'c' else t[:2] if t[0] == 'v' else ('o', t[1], t[2], tuple(strip(c) for c in t[3]))


def fold(t):
    """replace type() first, then equal()"""
    def walk(t, name, f):
        if t[0] != 'o':
            return t
        t = ('o', t[1], t[2], tuple(walk(c, name, f) for c in t[3]))
        return f(t[3]) if t[1] == name else t
    t = walk(strip(t), 'type', lambda a: ('k', KIND.get(a[0][0], 'CONST')))
    return walk(t, 'equal', lambda a: ('c', 1.0 if a[0] == a[1] else 0.0))


def value(t):
    if t[0] in ('c', 'k'):
        return t[1]
    if t[0] == 'v':
        raise Fail()
    n, pl, a = t[1], t[2], [value(c) for c in t[3]]
    if n in ('CONST', 'VAR', 'OP'):
        return n
    if n == 'TRUE' or n == 'FALSE':
        return 1.0 if n == 'TRUE' else 0.0
    if n == '==':
        return float(a[0] == a[1])
    if n == '!=':
        return float(a[0] != a[1])
    if any(isinstance(x, str) for x in a):
        raise KeyError(n)
    if n in ('<', '>', '<=', '>='):
        return float({'<': a[0] < a[1], '>': a[0] > a[1], '<=': a[0] <= a[1], '>=': a[0] >= a[1]}[n])
    if n == '||':
        return float(a[0] != 0 or a[1] != 0)
    if n == '!' and pl == 'prefix':
        return float(a[0] == 0)
    if n == 'count':
        return float(len(a))
    if n == '-' and pl == 'prefix':
        return -a[0]
    if n == '/':
        if a[1] == 0:
            raise Fail()
        return a[0] / a[1]
    if n == 'mod':
        if int(a[1]) == 0:
            raise Fail()
        return math.fmod(int(a[0]), int(a[1]))
    if n in '+-*' and pl == 'infix':
        return {'+': a[0] + a[1], '-': a[0] - a[1], '*': a[0] * a[1]}[n]
    raise KeyError(n)


EXPRS = ['3', '0', 'x', 'y', 'x + 1', '- x', 'sin ( x )', 'pi', '2 + 3', 'x + y', 'y + x', 'x + x', 'sum ( x , y )', 'sum ( )', 'sum ( x , y , 1 )', "( x + y ) * 2", '( x + y ) * 3', '2.5']
NUMS = ['0', '1', '2', '0.5', '2.25', '( - 1 )', '( - 0 )', '( - 2 )', '1000000', '( 1 + 1 )', '( 5 mod 3 )', '( - 0.5 )']
TRUTH = ['TRUE', 'FALSE', '1 == 1', '1 == 2', 'type ( x ) == VAR', 'equal ( x , y )', '( x == 1 )', '2', '( 1 / 0 )', '0.5', '( - 1 )']
REL = ['==', '!=', '<', '>', '<=', '>=']


def conditions(thorough):
    for a, r, b in itertools.product(NUMS, REL, NUMS):
        yield '%s %s %s' % (a, r, b)
    for e, r, k in itertools.product(EXPRS, ['==', '!='], ['CONST', 'VAR', 'OP']):
        yield 'type ( %s ) %s %s' % (e, r, k)
        if thorough:
            yield '%s %s type ( %s )' % (k, r, e)
    for a, b in itertools.product(EXPRS, repeat=2):
        yield 'equal ( %s , %s )' % (a, b)
        yield '! equal ( %s , %s )' % (a, b)
        yield 'type ( %s ) == type ( %s )' % (a, b)
    for a, b in itertools.product(TRUTH, repeat=2):
        yield '%s || %s' % (a, b)
        yield '! ( %s ) || %s' % (a, b)
        yield '! ( %s || %s )' % (a, b)
    for a in TRUTH:
        yield a
        yield '! %s' % a
        yield '! ! %s' % a
        yield '! ( ! ( %s ) )' % a
        for b, c in itertools.product(TRUTH[:6], repeat=2):
            yield '%s || %s || %s' % (a, b, c)
    for a, b in itertools.product(['x', '3', 'x + 1'], repeat=2):
        yield 'equal ( %s , - %s ) || equal ( %s , - %s )' % (a, b, b, a)
        yield 'equal ( - %s , %s )' % (a, b)
        yield 'type ( %s ) == CONST || type ( %s ) == VAR' % (a, b)
        yield 'type ( %s + %s ) != OP' % (a, b)
        yield 'equal ( type ( %s ) , type ( %s ) )' % (a, b)
        yield 'type ( equal ( %s , %s ) ) == OP' % (a, b)
        yield 'equal ( equal ( %s , %s ) , equal ( %s , 3 ) )' % (a, b, a)
        yield 'sum ( %s ) == %s' % (a, b)
    for a in ['( x mod 2 ) == 0', '( 4 mod 2 ) == 0', '( 3 mod 2 ) == 0', '4 mod 2 == 0', '5 mod 2 == 0', '( 4 mod 0 ) == 0', '1 + 1 == 2', '2 * 3 > 5', '2 > 1 == 1', '1 < 2 < 3', '3 > 2 > 1', '- 1 < 0', '1 / 0 == 1', 'x > 0',
              '0 < x', 'x == x', 'count ( ) == 0', 'count ( 1 , 2 ) == 2', 'count ( 1 , 1 , 1 ) > 2', '! count ( )', '1 - 1', '3 - 2', 'CONST != VAR', 'VAR != OP', 'OP != CONST', 'CONST == CONST', 'VAR == VAR', 'OP == OP']:
        yield a


def work(ctx, items):
    S = Suite(ctx)
    P, I = S.P, S.I
    ref = Ref({**{k: v[:3] for k, v in CAT.items()}, **PROP}, None)
    st = P.state()
    for f in ('init_arith_ctx', 'init_propositional_ctx'):
        r = S.call(st, 'initialisation', f)
        if r is None:
            return
        st = r[0]
        st.ev = None
    C = ('p', ('glob', '__g_propositional_ctx'), 0)
    ROOT = P.local(st, 'root', size=8)
    live = set(I.live(st))
    for c in items:
        try:
            v = value(fold(ref.parse(c.split())))
            want = int(v != 0) if not isinstance(v, str) else 1
        except Fail:
            want = 0
        except KeyError:
            continue
        what = 'condition %s' % c
        s = st.copy()
        r = S.call(s, what, 'parse_easy', C, P.lit(s, c))
        ctx.count('conditions')
        if r is None:
            continue
        s, n = r
        if n == NULL:
            ctx.violation('parse:%s' % ' '.join(t for t in c.split() if (t, 'infix') in PROP or (t, 'function') in PROP or t == '!'), S.where('init_propositional_ctx'), '%s cannot be parsed' % what)
            continue
        I.store(s, ROOT, n, 8)
        r = S.call(s, what, 'propositional_checker', ROOT)
        if r is None:
            continue
        s, v = r
        if v[0] == 'c':
            ctx.count('verdicts')
        S.same('propositional_checker', 'verdict', what, v[1] & 1 if v[0] == 'c' else v, want)
        r = S.call(s, what, 'free_tree', I.load(s, ROOT, 8, 'ptr'))
        if r and set(I.live(r[0])) - live:
            ctx.violation('propositional_checker:leak', S.where('propositional_checker'), '%s: %d blocks are lost' % (what, len(set(I.live(r[0])) - live)))
        if len(ctx.samples) < 4:
            ctx.sample('%s => %s' % (what, bool(want)))
    ctx.fns |= I.visited_fns


def check(ctx):
    ctx.rule('verdict of a condition = documented meaning of type, equal, comparisons, ||, !, TRUE, FALSE; false when it cannot be evaluated')
    items = list(dict.fromkeys(conditions(ctx.thorough)))
    parallel(ctx, work, items)
    ctx.need('verdicts', 1500)
