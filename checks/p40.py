"""A drawn expression tree shows every node under its parent."""
import itertools, random, re
from session import *

EXPLAIN = """print_tree_visually() is abstractly interpreted on every tree shape up to a bound and on generated deeper ones (nodes with up to five operands, chains, combs, full trees; operators with and without operands, constants of all printed
forms, variables). The output is read back: line by line, the branch symbols in front of a name say how deep the node is, whether a sibling follows and which ancestors still have siblings to come. The tree read back this way must be the tree drawn, every
symbol and vertical line in its place, with names and values as they print elsewhere; nothing but the tree is written, to standard output only, and the tree is left as it was."""

NAMES = ['x', 'foo', 'y_1']
CONSTS = [(3.0, '3'), (0.5, '0.5'), (-2.0, '-2'), (1e20, '1e+20'), (1 / 3, '0.3333333333')]
ANSI = re.compile('\x1b\\[[0-9;]*m')


def shapes(n):
    """all ordered trees of n nodes as nested tuples of children"""
    if n == 1:
        return [()]
    out = []
    for split in compositions(n - 1):
        for kids in itertools.product(*[shapes(k) for k in split]):
            out.append(tuple(kids))
    return out


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def deep(r, depth):
    if depth == 0 or r.random() < .25:
        return ()
    return tuple(deep(r, depth - 1) for _ in range(r.randrange(1, 4)))


def chain(n, left, right):
    t = ()
    for _ in range(n):
        t = ((),) * left + (t,) + ((),) * right
    return t


def label(shape, it):
    """names for the nodes: inner nodes are operators, leaves are variables, constants and constants of the context"""
    k = next(it)
    kids = [label(s, it) for s in shape]
    if kids:
        return ['+', '-x', 'sum', 'mod'][k % 4], kids
    return (NAMES + [c for c in CONSTS] + ['pi'])[k % (len(NAMES) + len(CONSTS) + 1)], []


def lines(t, depth=0, more=(), last=True):
    name = t[0] if isinstance(t[0], str) else t[0][1]
    pre = ''
    if depth:
        pre = ''.join('│   ' if m else '    ' for m in more) + ('└── ' if last else '├── ')
    out = [pre + name]
    for k, c in enumerate(t[1]):
        out += lines(c, depth + 1, more + (not last,) if depth else (), k == len(t[1]) - 1)
    return out


def work(ctx, items):
    S = Session(ctx, init=False)
    P = S.P
    fn = 'print_tree_visually'
    for what, shape in items:
        t = label(shape, itertools.count(len(what)))
        st = P.state()

        def build(st, n):
            if n[1] or n[0] == 'pi':
                return ('o', P.op(st, n[0], 'OP_PLACE_FUNCTION', arity=len(n[1])), [build(st, c) for c in n[1]])
            if isinstance(n[0], tuple):
                return ('c', ('num', n[0][0]))
            return ('v', P.lit(st, n[0]))
        st, p = P.tree(st, build(st, t))
        before = P.read(st, p)
        st.ev = None
        r = S.call(st, what, fn, p)
        if r is None:
            continue
        ctx.count('trees')
        s = r[0]
        if S.streams(s) - {'stdout'}:
            ctx.violation('stream', S.where(fn), '%s: not only standard output is written' % what)
            continue
        out = S.text(s, 'stdout')
        try:
            out = out.encode('latin1').decode('utf-8')
        except (UnicodeEncodeError, UnicodeDecodeError):
            pass
        got = [l.rstrip() for l in ANSI.sub('', out).split('\n')]
        want = lines(t)
        if got and got[-1] == '':
            got.pop()
        ctx.count('nodes', len(want))
        if got != want:
            k = next((i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]), 0)
            ctx.violation('drawing', S.where(fn), '%s: line %d is %r, expected %r (%d lines, expected %d)' % (what, k + 1, got[k] if k < len(got) else 'missing', want[k] if k < len(want) else 'nothing', len(got), len(want)))
        elif P.read(s, p) != before:
            ctx.violation('changed', S.where(fn), '%s: drawing changes the tree' % what)
        elif len(ctx.samples) < 4 and len(want) == 6:
            ctx.sample('%s => %s' % (what, want))
    ctx.fns |= S.I.visited_fns


def check(ctx):
    ctx.rule('the drawing read back is the tree: one line per node in preorder, branch symbols and vertical lines by depth and following siblings')
    n = 8 if ctx.thorough else 6
    items = [('tree of %d nodes %s' % (k, s), s) for k in range(1, n + 1) for s in shapes(k)]
    items += [('chain of %d (%d left, %d right)' % (k, a, b), chain(k, a, b)) for k in range(1, 30 if ctx.thorough else 20, 3) for a in range(3) for b in range(3)]
    items += [('generated tree %d' % s, deep(random.Random(s), 3 + s % 4)) for s in range(300 if ctx.thorough else 60)]
    parallel(ctx, work, [(w[:300], s) for w, s in items])
    ctx.need('trees', 100)
