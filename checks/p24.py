"""Which command an input line is."""
from session import *
from refcalc import *

EXPLAIN = """exec_command() is abstractly interpreted on every line of a vocabulary that contains every command form, every near miss (names of commands as variables, prefixes, upper case, missing blanks, extra text, commands inside
definitions, definitions of names of commands), expressions and errors, alone and after definitions of conflicting names; process_input() is interpreted on the same lines together with comments, blank lines and quit. Verdict, printed
text, registered functions and stored results must be those of a reference dispatcher: help / help operators / license exactly; table; anything with '=' is a definition; clear; load; everything else is evaluated."""


def probe(ctx, S, st, ref, c, done):
    what = '"%s"' % ' ; '.join(done + [c])
    r = S.cmd(st, c, what)
    if r is None:
        return None
    s, ok, out, err = r
    ref = ref.copy()
    ref.out = []
    want = ref.run(c)
    ctx.count('lines')
    if ok not in (0, 1):
        ctx.undecide('%s: verdict %s' % (what, short(ok)))
        return None
    if ok != want:
        ctx.violation('verdict:%s' % c, S.where('exec_command'), '%s %s' % (what, 'succeeds, but is not a legal command' if ok else 'fails (%s), but is a legal command' % err.strip()))
        return None
    if not agrees(ref.out, out):
        ctx.violation('output:%s' % c, S.where('exec_command'), '%s prints %r, expected %s' % (what, out[:200], [t for _, t in ref.out]))
    fn = sorted((o[0], o[2]) for o in S.ops(s) if o not in S.base_ops)
    if fn != sorted((n, a) for n, (a, _) in ref.m.items()):
        ctx.violation('functions:%s' % c, S.where('exec_command'), '%s leaves the functions %s, expected %s' % (what, fn, sorted(ref.m)))
    h = [fval(v) if v[0] == 'f' else None for v in S.history(s)]
    if None not in h and h != ref.h:
        ctx.violation('history:%s' % c, S.where('exec_command'), '%s leaves the results %s, expected %s' % (what, h, ref.h))
    return s, ref


def work(ctx, items):
    S = Session(ctx, files={'file': ['3+4\n', 'f(x)=x+1\n'], 'bad': ['1/0\n', '5\n'], 'empty': [], 'simplify': ['5\n'], 'simplification': ['-5\n'], ' file': ['100\n']})
    if S.base is None:
        return
    S.base_ops = S.ops(S.base)
    for seq in items:
        if seq[0] == 'typed':
            typed(ctx, S, seq[1])
            continue
        st, ref, done = S.base, RefCalc(S.files), []
        for c in seq:
            r = probe(ctx, S, st, ref, c, done)
            if r is None:
                break
            st, ref = r
            done.append(c)
        if len(ctx.samples) < 6:
            ctx.sample('%s => %s' % (done, ref.out))
    ctx.fns |= S.I.visited_fns


def typed(ctx, S, lines):
    what = 'typed lines %s' % [l.rstrip('\n') for l in lines]
    r = S.feed(S.base, lines, what)
    if r is None:
        return
    s, v, out, err = r
    ctx.count('inputs')
    ref = RefCalc(S.files)
    try:
        want, end = ref.lines(lines), False
    except Quit as q:
        want, end = q.args[0], True
    w = S.where('process_input')
    if isinstance(v, tuple) != end:
        ctx.violation('end:%s' % lines[0].strip(), w, '%s: the input %s' % (what, 'ends before its last line' if isinstance(v, tuple) else 'does not end with quit'))
    elif not agrees(ref.out, out):
        ctx.violation('lines:%s' % lines[0].strip(), w, '%s print %r, expected %s' % (what, out[:200], [t for _, t in ref.out]))
    elif (v if not end else int(v[1] == 0)) != want:
        ctx.violation('lines:%s' % lines[0].strip(), w, '%s: the verdict is %s, expected %s' % (what, v, want))
    fn = sorted((o[0], o[2]) for o in S.ops(s) if o not in S.base_ops)
    if fn != sorted((n, a) for n, (a, _) in ref.m.items()):
        ctx.violation('functions:%s' % lines[0].strip(), w, '%s leave the functions %s, expected %s' % (what, fn, sorted(ref.m)))


LINES = ['quit', 'quitter', 'quit ', ' quit', 'Quit', 'QUIT', 'quits', 'qui', 'quit now', 'quit=3', 'quitter=4', '# quit', '#', '#3+4', ' # x', '2 # x', '', ' ', '3+4', 'help', 'clear', 'load nosuch', 'f(x)=x+1', '1/0', 'quit=', ')']


VOCAB = list(NUM) + list(SYM) + list(DEF) + list(HIST) + sorted(BAD) + list(TABLE) + sorted(HELP) + ['clear', 'clear f', 'clear k', 'f(3)', 'f(9,4)', 'k', 'c', 'load file', 'load bad', 'load empty', 'load  file', 'load simplify', 'load simplification', 'load file ']


def items(thorough):
    out = [[c] for c in VOCAB]
    for d in DEF:
        for c in VOCAB:
            if thorough or (hash_(d + c) % 5 == 0) or c in HELP or c in ('clear', 'k', 'f(3)', 'quit now') or c in SYM:
                if (d.startswith(('load', 'help', 'clear')) and c in SYM and c not in ('x', '2*x', 'u-v')) or (d.startswith('quit') and c == 'quit now') or (d.startswith('table')):
                    continue
                if d.startswith('clear') and c in ('clearx',):
                    continue
                out.append([d, c])
    for c in VOCAB:
        out.append(['3+4', c, 'ans'])
        if thorough:
            out.append([c, c, c])
    for a in LINES:
        out.append(('typed', [a + '\n']))
        out.append(('typed', [a]))
        out.append(('typed', [a + '\n', '6*7\n', '5\n']))
        for b in LINES if thorough else ('quit', 'quitter', '# quit', '', 'ans'):
            out.append(('typed', ['6*7\n', a + '\n', b + '\n', '5']))
    return out


def hash_(s):
    return sum((i + 1) * ord(c) for i, c in enumerate(s))


def check(ctx):
    ctx.rule('first applicable command: help/license (exact), table, definition (contains =), clear, load, evaluation; verdict, output, functions and results as in the reference')
    parallel(ctx, work, items(ctx.thorough))
    ctx.need('lines', 600)
    ctx.need('inputs', 150)
