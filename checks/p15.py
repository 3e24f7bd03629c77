"""No input makes the program touch memory it does not own."""
from session import *
import adverse
import random
import os

EXPLAIN = """The program is abstractly interpreted on whole sessions of adverse lines: every command at its borders (missing, empty, doubled and surplus parts), unbalanced and deeply nested brackets, very long names, numbers and argument
lists, numbers out of every integer range, all operators with missing operands, every character class in every place (control, non-ASCII and format characters, brackets), references to results that do not exist, and generated
expressions, definitions, tables and mutations of them, executed in the state earlier lines left (definitions made, replaced and cleared, results stored). Every load, store, release, string operation and conversion on the way is an
obligation: inside a live block, not before it is written, released once, numbers converted to integers only when they fit, lines and results of any length. Decided on the heap and value domains of the interpreter; nothing is run."""


_S = [None]


def prepare(ctx):
    """two starting points shared by all workers: without rules and with the shipped ones"""
    lines = open(os.path.join(ir.REPO, 'simplification.ruleset')).read().splitlines(True)
    S = Session(ctx, files={'nothing': None, 'rules': lines})
    if S.base is None:
        return None
    S.I.max_steps = 40000000
    S.I.fold_libm = True
    r = S.cmd(S.base, 'load simplification rules', 'loading the rule file')
    S.loaded = r[0] if r is not None and r[1] == 1 else None
    return S


def work(ctx, items):
    S = _S[0]
    S.ctx = ctx
    S.I.max_steps = 1500000
    S.I.fold_libm = True
    S.soft = True
    for label, lines, inter in items:
        if absint.late():
            ctx.undecide('%s: out of time' % label)
            continue
        start = S.base
        S.I.max_steps = 250000
        if label.startswith('rules'):
            start = S.loaded
            S.I.max_steps = 2000000
            if start is None:
                continue
        st = S.interactive(start, inter)
        for l in lines:
            if isinstance(l, tuple):
                S.files[l[0]] = l[1]
                continue
            r = S.cmd(st, l, '%s: line %r' % (label, l[:90]))
            if r is None:
                continue
            st = r[0]
            ctx.count('lines')
            if len(ctx.samples) < 8 and len(l) % 7 == 1:
                ctx.sample('%r => %r %r' % (l[:60], r[2][:60], r[3][:60]))
        ctx.count('sessions')
    ctx.fns |= S.I.visited_fns


RULES = ['sin(x) -> cos(x)', 'x+0 -> x', 'sum([xs], x, [ys], x) -> sum([xs], 2*x, [ys]) WHERE type(x) == VAR', 'prod(x,[xs]) -> x*prod([xs]) WHERE type(x) != CONST ; equal(x, x)', "deriv(x*y,z) -> deriv(x,z)*y+x*deriv(y,z)",
         '(-x)^y -> x^y WHERE (y mod 2) == 0', 'x-y -> x+(-y)', 'sum([xs]) -> sum([xs], 0)', 'x/0 -> 0/0 WHERE x != 0']


def rule_files(n):
    """a file with a damaged rule, and expressions afterwards"""
    for k in range(n):
        r = random.Random(5000 + k)
        out = []
        for sec in range(7):
            out.append(r.choice(['RULESET', 'RULESET', 'RULESET x', '  RULESET', 'RULESET # c']))
            for _ in range(r.choice((0, 1, 1, 2))):
                out.append('  ' + r.choice(RULES[:6]))
        j = r.randrange(len(out))
        out[j] = adverse.mangle(r, r.choice(RULES)) if r.random() < .8 else adverse.mangle(r, out[j])
        if r.random() < .2:
            out = out[:r.randrange(len(out) + 1)]
        text = '\n'.join(out) + r.choice(['\n', '', '\n\n'])
        yield 'damaged rule file %d' % k, [('damaged', text.replace('\0', '').splitlines(True)), 'load simplification damaged', 'sin(x+0)*y', "(sin(x))'", 'load simplification nothing', 'x*0', 'load simplification damaged', '2+x'], bool(k % 2)


def check(ctx):
    ctx.rule('no access outside live blocks, no use of unwritten memory, no double release, no conversion out of range, on any line in any state')
    items = []
    fx = [l for l in dict.fromkeys(adverse.fixed()) if l.strip() != 'quit']
    pre = ['3', 'f(x)=x+1', 'k=4', 'g(a,b)=a*f(b)', '2.5']
    for k in range(0, len(fx), 12):
        items.append(('border lines %d' % k, pre + fx[k:k + 12], bool(k // 12 % 2)))
    for s in range(400 if ctx.thorough else 70):
        r = random.Random(1000 + s)
        items.append(('session %d' % s, list(adverse.lines_of(r, 14)), bool(s % 2)))
    items += list(rule_files(160 if ctx.thorough else 40))
    for k in range(200 if ctx.thorough else 24):
        r = random.Random(9000 + k)
        ls = [adverse.expr(r, 3) if r.random() < .75 else adverse.mangle(r, adverse.expr(r, 2)) for _ in range(3)]
        if k % 3 == 0:
            ls.append('(%s)\'' % adverse.expr(r, 2))
        if k % 4 == 0:
            ls = ['f(x,y)=x*y-2', 'f(x,3)+f(y,x)'] + ls[1:]
        items.append(('rules %d' % k, ls, bool(k % 2)))
    _S[0] = prepare(ctx)
    if _S[0] is None:
        return
    parallel(ctx, work, items)
    ctx.need('lines', 1000)
