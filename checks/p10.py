"""The history of results and the operators that read it."""
from session import *

EXPLAIN = """Command sequences (evaluations with positive, negative, fractional, zero results; expressions that are not constant; failing ones; definitions, clear, help, table with and without fold; reads through ans and @) are abstractly
interpreted, with and without the simplification rules loaded (parsed from /repo's rule file by the interpreted rule parser), and followed in a reference list. After every command the stored results - all of them, in order - must be those of
the list: exactly one more after an evaluation with a constant result or a fold, none after anything else; ans and @0 give the latest, @k the k-th before it, and reading beyond the first result fails. Long sequences cross the growth of the store."""

# command -> value as a function of the list (latest first); None: nothing is stored; 'fail': an error
NUM = {'3+4': 7, '5': 5, '-5': -5, '3-7': -4, '0': 0, '1-1': 0, '0.5': .5, '-0.25*2': -.5, '2^10': 1024, '-(2*3)': -6, '--4': 4, '2*-3': -6, '(0-1)/2': -.5, '(1)': 1, '$2+1': 3, '3!': 6, 'max(1,-2)': 1, '1-2-3': -4, '+8': 8}
HIST = {'ans': lambda h: h[0], '@0': lambda h: h[0], '@1': lambda h: h[1], '@2': lambda h: h[2], '@(1+2)': lambda h: h[3], 'ans+1': lambda h: h[0] + 1, '@1-ans': lambda h: h[1] - h[0], '-ans': lambda h: -h[0], '2*@1': lambda h: 2 * h[1], 'ans*@0': lambda h: h[0] * h[0],
        'f(ans)': None}
NONE = ['x', '2*x', 'x+y', '-x', 'f(x)=x+1', 'k=3', 'clear', 'help', 'table x;1;2;1', 'x-1', 'f(y)']
FAIL = ['1/0', '', '2+', ')', 'sin=2', 'clear nosuch', 'load nosuch', 'table x;1', '0^0', '@40', 'x+1/0']
FOLD = {'table x;1;3;1 fold x+y;0': 6, 'table 2*x;1;2;1 fold x*y;1': 8, 'table x;1;2;1 fold x-y;0': -3}


def sequences(thorough):
    one = list(NUM) + NONE + FAIL + list(FOLD)
    for c in one:
        yield [c]
        yield ['9', c, 'ans']
    for c in HIST:
        if c != 'f(ans)':
            yield [c]
            for k in range(1, 5):
                yield ['%d*%d' % (j, j + 1) for j in range(1, k + 1)] + [c]
    mix = ['3+4', '-5', '2*x', '1/0', 'k=3', 'ans', '@1', 'table x;1;3;1 fold x+y;0', 'clear', 'ans+1']
    for a in mix:
        for b in mix:
            yield [a, b, 'ans']
            for c in mix if thorough else mix[::4]:
                yield [a, b, c, '@1', '@2']
    yield ['%d+0' % j for j in range(1, 14)] + ['@%d' % j for j in (0, 5, 9, 14, 15)]
    if thorough:
        yield ['%d-7' % j for j in range(1, 36)] + ['@%d' % j for j in (0, 30, 34, 36, 40, 7)]


def num(v):
    return fval(v) if isinstance(v, tuple) and v[0] == 'f' else None


def work(ctx, parts):
    S = S0 = None
    bases = {}
    for rules, seq in parts:
        if S is None:
            lines = open(ir.REPO + '/simplification.ruleset').read().splitlines(True)
            S = Session(ctx, files={'rules': lines})
            bases[False] = S.base
        if rules not in bases:
            S.I.max_steps = 20000000
            r = S.cmd(S.base, 'load simplification rules', 'loading the rule file')
            S.I.max_steps = 1500000
            bases[True] = r[0] if r and r[1] == 1 else None
        st = bases[rules]
        h = []
        defs = set()
        done = []
        for c in seq:
            if st is None:
                break
            done.append(c)
            what = '%s"%s"' % ('with the rules loaded: ' if rules else '', ' ; '.join(done))
            if c in NUM or re.fullmatch(r'[0-9]+', c) or re.fullmatch(r'\d+[*+-]\d+', c):
                want = NUM[c] if c in NUM else eval(c)
            elif c in FOLD:
                want = FOLD[c]
            elif c in NONE:
                want = None
            elif c in FAIL:
                want = 'fail'
            else:
                try:
                    want = HIST[c](h) if c in HIST else h[int(c[1:])]
                except IndexError:
                    want = 'fail'
            if c in ('k=3', 'f(x)=x+1'):
                if c in defs:
                    want = 'fail'
                defs.add(c)
            if c == 'clear':
                defs.clear()
            r = S.cmd(st, c, what)
            if r is None:
                break
            st, ok, out, err = r
            ctx.count('commands')
            if ok not in (0, 1):
                ctx.undecide('%s: verdict %s' % (what, short(ok)))
                break
            if ok != int(want != 'fail'):
                ctx.violation('verdict', S.where('cmd_evaluation_exec'), '%s: the last command %s' % (what, 'succeeds' if ok else 'fails: ' + err.strip()))
                break
            if want not in (None, 'fail'):
                h = [float(want)] + h
            got = [num(x) for x in S.history(st)]
            if None in got:
                ctx.undecide('%s: history %s' % (what, S.history(st)))
                break
            ctx.count('histories')
            if got != h:
                ctx.violation('history:%s' % ('value' if len(got) == len(h) else 'length'), S.where('history_add'), '%s: stored results (latest first) %s, expected %s' % (what, got, h))
                break
            if want not in (None, 'fail') and c not in FOLD and out.strip() != '%g' % want:
                ctx.violation('printed', S.where('cmd_evaluation_exec'), '%s: prints %r, expected %g' % (what, out, want))
                break
        if len(ctx.samples) < 6 and len(h) > 1:
            ctx.sample('%s => %s' % (what, h))
    if S:
        ctx.fns |= S.I.visited_fns


def check(ctx):
    ctx.rule('stored results = reference list after every command; ans = @0, @k = k-th before; beyond: error')
    seqs = list(sequences(ctx.thorough))
    small = [s for i, s in enumerate(seqs) if len(s) <= 3 and not s[0].startswith('1*')]
    parts = [(False, s) for s in seqs] + [(True, s) for i, s in enumerate(small) if ctx.thorough or i % 3 == 0]
    parallel(ctx, work, parts)
    ctx.need('histories', 700)
