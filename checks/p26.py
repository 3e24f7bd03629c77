"""The table command tabulates, folds and refuses as documented."""
import itertools, math
from session import *

EXPLAIN = """exec_command() is abstractly interpreted on table commands built from every combination of expression (constant, linear, with undefined points, user functions, history, any variable name), bounds and step (ascending, descending, wrong sign of
the step, single row, overshooting, fractional, negative, computed, from user constants), optional fold (sum, product, difference both ways, maximum, constant, only x, only y, expressions that skip undefined rows) and mode (interactive or not);
and on malformed ones. The printed rows must be those of a reference loop: one row per step from the first bound to the second one inclusive, the step taken in the direction of the second bound, value or "Error", 10 decimals, right-aligned;
when interactive also a header with variable and expression and row numbers from 1. The fold result must be the fold of all defined values in order, printed and stored as the latest result; without fold nothing is stored; a refused or failing
table stores nothing; functions stay untouched and no heap block is lost."""


def fact(x):
    r = 1.0
    for k in range(2, int(x) + 1):
        r *= k
    return r


class Undefined(Exception):
    pass


def div(a, b):
    if b == 0:
        raise Undefined
    return a / b


def root(x):
    if x < 0 or math.sqrt(x) != int(math.sqrt(x)):
        raise Undefined
    return math.sqrt(x)


# expression -> (variable, header, value)
EXPR = {'x': ('x', 'x', lambda v: v), '2*x': ('x', '2*x', lambda v: 2 * v), '7': (None, '7', lambda v: 7.0), '1+2': (None, '1+2', lambda v: 3.0), '-x': ('x', '-x', lambda v: -v), '1/x': ('x', '1/x', lambda v: div(1.0, v)), 'x^2-x': ('x', 'x^2-x', lambda v: v ** 2 - v),
        'a+1': ('a', 'a+1', lambda v: v + 1), 'foo_bar*4': ('foo_bar', 'foo_bar*4', lambda v: v * 4), 'f(x)': ('x', 'f(x)', lambda v: v + 1), 'f(f(y))-k': ('y', 'f(f(y))-k', lambda v: v + 2 - 5), 'max(x,2)': ('x', 'max(x, 2)', lambda v: max(v, 2.0)), '8/(x-2)': ('x', '8/(x-2)', lambda v: div(8.0, v - 2)),
        'ans*x': ('x', 'ans*x', lambda v: 42 * v), '(x+x)*x': ('x', '(x+x)*x', lambda v: (v + v) * v), 'k': (None, 'k', lambda v: 5.0), 'x!': ('x', 'x!', lambda v: fact(v)), '1/(x-x)': ('x', '1/(x-x)', lambda v: div(1.0, v - v)), 'y/(0-2)': ('y', 'y/(0-2)', lambda v: v / -2.0)}
# bounds and step: text, value
RANGE = [(('1', 1), ('3', 3), ('1', 1)), (('3', 3), ('1', 1), ('1', 1)), (('3', 3), ('1', 1), ('-1', -1)), (('1', 1), ('3', 3), ('-1', -1)), (('2', 2), ('2', 2), ('1', 1)), (('2', 2), ('2', 2), ('-1', -1)), (('0', 0), ('1', 1), ('0.25', .25)), (('1', 1), ('4', 4), ('2', 2)),
         (('1', 1), ('2', 2), ('5', 5)), (('-2', -2), ('2', 2), ('1', 1)), (('2', 2), ('-2', -2), ('2', 2)), (('-3', -3), ('-1', -1), ('0.5', .5)), (('0', 0), ('0', 0), ('3', 3)), (('1+1', 2), ('2*3', 6), ('k-3', 2)), (('-k', -5), ('k', 5), ('2.5', 2.5)), (('ans', 42), ('40', 40), ('1', 1)),
         (('1', 1), ('11', 11), ('1', 1)), (('95', 95), ('105', 105), ('5', 5)), (('f(0)', 1), ('f(2)', 3), ('f(0)', 1)), (('(1)', 1), (' 2 ', 2), ('1/2', .5))]
FOLD = {'x+y;0': (lambda x, y: x + y, 0.0), 'x*y;1': (lambda x, y: x * y, 1.0), 'x-y;10': (lambda x, y: x - y, 10.0), 'y-x;0': (lambda x, y: y - x, 0.0), 'max(x,y);-100': (lambda x, y: max(x, y), -100.0), '3;1': (lambda x, y: 3.0, 1.0), 'x;7': (lambda x, y: x, 7.0), 'y;7': (lambda x, y: y, 7.0),
        'x+1;0': (lambda x, y: x + 1, 0.0), '2*x+y;k': (lambda x, y: 2 * x + y, 5.0), 'f(x)-y*y;-2': (lambda x, y: x + 1 - y * y, -2.0), 'x+y;2-3': (lambda x, y: x + y, -1.0), 'x/2-y;8': (lambda x, y: x / 2 - y, 8.0)}
BAD = ['table x', 'table x;1', 'table x;1;2', 'table x;1;2;', 'table ;1;2;1', 'table x;;2;1', 'table x;1;2;0', 'table x;1;2;1-1', 'table x;1;2;-0', 'table x+y;1;2;1', 'table x*y/z;1;2;1', 'table x;y;2;1', 'table x;1;x;1', 'table x;1;2;x', 'table x;1;2;1 fold', 'table x;1;2;1 fold x+y', 'table x;1;2;1 fold ;0',
       'table x;1;2;1 fold x+y;', 'table x;1;2;1 fold x+z;0', 'table x;1;2;1 fold z;0', 'table z;1;2;1 fold z+y;0', 'table x;1;2;1 fold x+y;z', 'table x;1;2;1 fold x+y;x', 'table );1;2;1', 'table x;1/0;2;1', 'table x;1;2;1/0', 'table x+1/0;1;2;1', 'table x;1;2;1 fold x+;0', 'table x;1;2;1 fold x+y;1/0',
       'table x;1;2;1 fold x+y;0;1', 'table x;1;2;1;3', 'table x;1;2;0.00000000000000000000001', 'table x;100;2;0.000000000000000000001', 'table x;1;2;1 fold 1/0+x;0', 'table f(x,y);1;2;1', 'table x;1;2;1 folded x+y;0', 'table x=3', 'table x;1;2;1 fold a+b;0', 'table x+y;1;2;1 fold x+y;0']
# folds that fail on the way: the rows are shown, the failure is reported, nothing is stored
FAILING = ['table x;1;3;1 fold x/(y-2);1', 'table x;1;2;1 fold x/(y-1);1', 'table x;-1;1;1 fold y/y;0', 'table 3;1;2;1 fold 1/(y-3);0', 'table x;1;3;1 fold y/(x-1);1']


def reference(e, rng, fold):
    var, head, fn = EXPR[e]
    (_, a), (_, b), (_, s) = rng
    a, b, s = float(a), float(b), float(s)
    if a < b and s < 0 or a > b and s > 0:
        s = -s
    rows, acc = [], FOLD[fold][1] if fold else None
    while a <= b if s > 0 else a >= b:
        try:
            v = fn(a)
            if fold:
                acc = FOLD[fold][0](acc, v)
        except Undefined:
            v = None
        rows.append((a, v))
        a += s
    return rows, acc


def strip(t):
    return re.sub('\x1b\\[[0-9;]*m', '', t)


def z(t):
    return '0' + t[2:] if re.fullmatch(r'-0(\.0*)?', t) else t


def cells(rows, inter):
    out = []
    for i, (a, v) in enumerate(rows):
        out.append(([str(i + 1)] if inter else []) + [z('%.10f' % a), 'Error' if v is None else z('%.10f' % v)])
    return out


def rowcheck(ctx, S, what, key, out, rows, acc, head, inter):
    """compare a printed table with the reference"""
    w = S.where('cmd_table_exec') if 'cmd_table_exec' in ctx.mod.functions else S.where('exec_command')
    lines = strip(out).split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    if acc is not None:
        last = lines.pop() if lines else ''
        m = re.search(r'(-?[0-9.e+-]+)\s*$', last)
        if not m or abs(float(m.group(1)) - acc) > 1e-6 * max(1, abs(acc)):
            return ctx.violation('fold:%s' % key, w, '%s reports the fold as %r, expected %g' % (what, last, acc))
    if inter:
        h = lines.pop(0) if lines else ''
        if ''.join(h.split()) != (head[0] or '') + head[1].replace(' ', ''):
            return ctx.violation('header:%s' % key, w, '%s has the header %r, expected %s %s' % (what, h, head[0] or '', head[1]))
    got = [[z(c) for c in l.split()] for l in lines]
    want = cells(rows, inter)
    if got != want:
        k = next((i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]), 0)
        return ctx.violation('rows:%s' % key, w, '%s: row %d is %s, expected %s (%d rows, expected %d)' % (what, k + 1, got[k] if k < len(got) else 'missing', want[k] if k < len(want) else 'no such row', len(got), len(want)))
    ends = {tuple(m.end() for m in re.finditer(r'\S+', l)) for l in lines}
    if len(ends) > 1:
        ctx.violation('alignment:%s' % key, w, '%s: the columns of the rows end at different places: %s' % (what, sorted(ends)))
    ctx.count('rows', len(rows))


def work(ctx, items):
    S = Session(ctx)
    if S.base is None:
        return
    base = S.cmds(S.base, ['f(x)=x+1', 'k=5', '6*7'], 'earlier commands')
    if base is None:
        return
    w = S.where('cmd_table_exec') if 'cmd_table_exec' in ctx.mod.functions else S.where('exec_command')
    hist, ops = [fval(v) for v in S.history(base)], S.ops(base)
    for kind, inter, text, e, rng, fold in items:
        what = '"%s"%s' % (text, ' (interactive)' if inter else '')
        st = S.interactive(base, inter)
        r = S.cmd(st, text, what)
        if r is None:
            continue
        s, ok, out, err = r
        ctx.count('tables')
        if ok not in (0, 1) or not isinstance(out, str):
            ctx.undecide('%s: verdict %s' % (what, short(ok)))
            continue
        stored = list(hist)
        if kind == 'ok':
            if ok != 1:
                ctx.violation('refused:%s' % text, w, '%s is refused: %s' % (what, err.strip()[:100]))
                continue
            rows, acc = reference(e, rng, fold)
            rowcheck(ctx, S, what, text, out, rows, acc, EXPR[e][:2], inter)
            if acc is not None:
                stored.insert(0, acc)
            if len(ctx.samples) < 6:
                ctx.sample('%s: %d rows, fold %s' % (what, len(rows), acc))
        else:
            if ok != 0:
                ctx.violation('accepted:%s' % text, w, '%s is accepted, but must be refused; prints %r' % (what, out[:80]))
                continue
            if kind == 'bad' and out.strip():
                ctx.violation('printed:%s' % text, w, '%s is refused, but prints %r' % (what, out[:80]))
            if kind == 'failing' and 'result' in out.lower():
                ctx.violation('result:%s' % text, w, '%s fails, but prints a fold result: %r' % (what, out[-60:]))
        h = [fval(v) if v[0] == 'f' else None for v in S.history(s)]
        if None not in h and h != stored:
            ctx.violation('history:%s' % text, w, '%s leaves the stored results %s, expected %s' % (what, h, stored))
        if S.ops(s) != ops:
            ctx.violation('functions:%s' % text, w, '%s changes the registered operators' % what)
        if S.is_interactive(s) != (1 if inter else 0):
            ctx.violation('mode:%s' % text, w, '%s changes the interactive mode' % what)
        lk = S.I.leaks(s)
        if lk:
            ctx.violation('leak:%s' % text, w, '%s: %d heap block(s) unreachable afterwards' % (what, len(lk)))
    ctx.fns |= S.I.visited_fns


def items(thorough):
    out = []
    n = 0
    for (e, (ei)), (k, rng) in itertools.product(zip(EXPR, range(99)), enumerate(RANGE)):
        folds = [None] + list(FOLD)
        for j, fo in enumerate(folds):
            n += 1
            if e == 'x!' and min(v for _, v in rng) < 0 or e == 'x!' and any(v != int(v) for _, v in rng) or e == 'x!' and max(v for _, v in rng) > 12:
                continue
            if len(reference(e, rng, None)[0]) > 6 and not (thorough or (ei + k + j) % 9 == 0):
                continue
            if not (thorough or (ei * 5 + k * 3 + j) % 7 == 0 or j == 0 and (ei + k) % 2 == 0):
                continue
            rows, acc = reference(e, rng, fo)
            if acc is not None and (abs(acc) > 1e5 or acc != round(acc, 3)):
                continue
            sep = ' ; ' if n % 5 == 0 else ';'
            text = 'table ' + sep.join([e, rng[0][0], rng[1][0], rng[2][0]]) + (' fold ' + fo.replace(';', sep) if fo else '')
            out.append(('ok', n % 3 == 0, text, e, rng, fo))
    for m in (False, True):
        for t in BAD:
            out.append(('bad', m, t, None, None, None))
        for t in FAILING:
            out.append(('failing', m, t, None, None, None))
    return out


def check(ctx):
    ctx.rule('printed rows, header, fold result, stored results and verdict as in the reference loop; nothing stored or printed by refused tables; no leak')
    parallel(ctx, work, items(ctx.thorough))
    ctx.need('tables', 700)
    ctx.need('rows', 1500)
