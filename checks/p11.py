"""Both modes do the same; non-interactive output is nothing but results."""
from session import *
from refcalc import *

EXPLAIN = """Sequences of commands over a vocabulary of all kinds (evaluations, definitions, clear, tables, help, loads, failing ones) are abstractly interpreted twice from the same state, interactively and not. Verdict, registered functions and stored
results must be the same after every command. Non-interactively, standard output must be exactly the results of the reference calculator - one line per evaluation, rows for tables, nothing for definitions, clear, loads and failures - without
escape sequences, prefixes or notices; interactively each result appears with the same digits, after "= ", and definitions, clear and load are acknowledged. process_input() is interpreted on typed lines in both modes likewise: nothing is
echoed or prompted non-interactively."""


def strip(t):
    return re.sub('\x1b\\[[0-9;]*m', '', t)


FILES = {'file': ['3+4\n', 'f(x)=x+1\n'], 'bad': ['1/0\n', '5\n'], 'empty': []}
ACK = re.compile(r'^clear( |$)|^[^=]*=')


def work(ctx, items):
    S = Session(ctx, files=FILES)
    if S.base is None:
        return
    w = S.where('exec_command')
    for kind, seq in items:
        if kind == 'typed':
            typed(ctx, S, seq)
            continue
        a, b = S.base, S.interactive(S.base, True)
        ref = RefCalc(FILES)
        done = []
        for c in seq:
            what = '"%s"' % ' ; '.join(done + [c])
            ra, rb = S.cmd(a, c, what), S.cmd(b, c, what + ' (interactive)')
            if ra is None or rb is None:
                break
            a, ok, out, err = ra
            b, okb, outb, errb = rb
            ref.out = []
            want = ref.run(c)
            ctx.count('commands')
            if not isinstance(out, str) or not isinstance(outb, str) or ok not in (0, 1) or okb not in (0, 1):
                ctx.undecide('%s: %s' % (what, short(ra[1:])))
                break
            if ok != okb:
                ctx.violation('verdict:%s' % c, w, '%s %s, but interactively it %s' % (what, *(('succeeds', 'fails') if ok else ('fails', 'succeeds'))))
                break
            if [o[:4] for o in S.ops(a)] != [o[:4] for o in S.ops(b)]:
                ctx.violation('functions:%s' % c, w, '%s leaves other functions interactively' % what)
            ha, hb = S.history(a), S.history(b)
            if ha != hb:
                ctx.violation('history:%s' % c, w, '%s stores %s, but interactively %s' % (what, [short(v) for v in ha], [short(v) for v in hb]))
            if ok != want:
                ctx.undecide('%s: verdict %s, reference %s' % (what, ok, want))
                break
            if '\x1b' in out and c not in HELP:
                ctx.violation('escape:%s' % c, w, '%s prints escape sequences non-interactively: %r' % (what, out[:100]))
            if not agrees(ref.out, out):
                ctx.violation('output:%s' % c, w, '%s prints %r non-interactively, expected %s' % (what, out[:160], [t for _, t in ref.out]))
            if not ok:
                if outb.strip() and not c.startswith(('table', 'load')):
                    ctx.violation('noise:%s' % c, w, '%s fails, but prints %r as result interactively' % (what, outb[:100]))
            elif c in HELP or c.startswith(('table', 'load ')):
                pass
            elif ACK.match(c):
                if not outb.strip():
                    ctx.violation('quiet:%s' % c, w, '%s is not acknowledged interactively' % what)
            elif strip(outb) != '= ' + out:
                ctx.violation('result:%s' % c, w, '%s prints %r non-interactively, but %r interactively' % (what, out, outb))
            done.append(c)
    ctx.fns |= S.I.visited_fns


def typed(ctx, S, lines):
    what = 'typed lines %s' % [l.rstrip('\n') for l in lines]
    got = []
    for on in (False, True):
        r = S.feed(S.interactive(S.base, on), lines, what)
        if r is None:
            return
        got.append(r)
    ctx.count('inputs')
    (a, va, oa, _), (b, vb, ob, _) = got
    w = S.where('process_input')
    if va != vb:
        ctx.violation('verdict:%s' % lines[0], w, '%s: the verdict is %s, but %s interactively' % (what, va, vb))
        return
    if [o[:4] for o in S.ops(a)] != [o[:4] for o in S.ops(b)] or S.history(a) != S.history(b):
        ctx.violation('state:%s' % lines[0], w, '%s leaves other functions or results interactively' % what)
    ref = RefCalc(FILES)
    try:
        ref.lines(lines)
    except Quit:
        pass
    if not agrees(ref.out, oa):
        ctx.violation('typed:%s' % lines[0], w, '%s prints %r non-interactively, expected %s' % (what, oa[:160], [t for _, t in ref.out]))
    res = [t for k, t in ref.out if k == 'line' and not t.startswith('Fold')]
    shown = [l[l.index('= ') + 2:] for l in strip(ob).split('\n') if re.match(r'^[^=\w]*= ', l)]
    if 'load' not in what and [norm(x) for x in shown] != [norm(x) for x in res]:
        ctx.violation('shown:%s' % lines[0], w, '%s shows the results %s interactively, expected %s' % (what, shown, res))


def norm(t):
    return t.replace(' ', '')


def hash_(s):
    return sum((i + 1) * ord(c) for i, c in enumerate(s))


def items(thorough):
    voc = list(NUM) + list(SYM) + list(DEF) + list(HIST) + sorted(BAD) + list(TABLE) + sorted(HELP) + ['clear', 'clear f', 'f(3)', 'f(9,4)', 'k', 'c', 'load file', 'load bad', 'load empty']
    out = [('cmd', [c]) for c in voc]
    for d in list(DEF)[:6] + ['6*7', 'load file', '1/0', 'clear', 'table x;1;3;1 fold x+y;0']:
        for c in voc:
            if (d, c) == ('load file', 'clear') or d.startswith('table') and c in DEF:
                continue
            if thorough or hash_(d + c) % 4 == 0 or c in HIST or c in ('f(3)', 'k'):
                if d in DEF and c in SYM and c not in ('x', '2*x', 'u-v'):
                    continue
                out.append(('cmd', [d, c, 'ans'] if c not in SYM else [d, c]))
    L = ['3+4\n', 'f(x)=x+1\n', '# comment\n', '\n', '1/0\n', 'f(3)\n', 'ans\n', 'clear f\n', 'k=5\n', '2*x\n', 'load file\n', '2+\n', 'quit\n', '9', 'table 2*x;1;2;1\n', '-5\n', '50%\n']
    for a in L:
        out.append(('typed', [a]))
        if a.endswith('\n'):
            for b in L:
                out.append(('typed', [a, b]))
                if thorough and b.endswith('\n'):
                    for c in L[::3]:
                        out.append(('typed', [a, b, c]))
    return out


def check(ctx):
    ctx.rule('same verdict, functions, results in both modes; stdout non-interactively = results of the reference, interactively the same after "= "')
    parallel(ctx, work, items(ctx.thorough))
    ctx.need('commands', 600)
    ctx.need('inputs', 200)
