"""Loading a file is like typing its lines; comments and blank lines are ignored."""
from session import *
from refcalc import *

EXPLAIN = """process_input() is abstractly interpreted on files and typed input made of every combination of command lines (evaluations, definitions, clear, failing lines of every kind), comments, blank lines, nested loads, loads of missing
files, quit, a last line without line end, empty files and long lines; and the load command on the same files, interactively and not. Printed results, verdict, functions and stored results must be those of a reference that runs the lines one after
the other (a failing line does not stop the rest; the verdict is success only when all lines succeed); every opened file must be closed exactly once, the mode (interactive or not) restored, nothing lost on the heap, and lines of a file are never
echoed or prompted for."""

LINES = ['3+4\n', 'f(x)=x+1\n', '# comment\n', '\n', '1/0\n', 'f(3)\n', 'ans\n', 'clear f\n', '#3+4\n', 'k=5\n', '2*x\n', 'load inner\n', 'load nosuch\n', '2+\n', ' 8 \n', 'f(x)=\n', 'quit\n', '9', 'ans+1', '# last', 'quit', '1/0', '##\n', '5\n']
INNER = {'inner': ['2^10\n', '# in\n', 'g\n'.replace('g', 'c = 2*3')], 'failing': ['1/0\n', '5\n'], 'empty': [], 'noeol': ['3!'], 'blank': ['\n', '\n'], 'deep': ['load inner\n', 'load noeol\n', '-5'], 'stop': ['5\n', 'quit\n', '9\n'], 'badstop': ['1/0\n', 'quit\n'],
         'comments': ['# a\n', '#\n', '# = 5\n', '#quit\n', '#load nosuch']}


def contents(thorough):
    yield []
    for l in LINES:
        yield [l]
    for a in LINES:
        if not a.endswith('\n'):
            continue
        for b in LINES:
            yield [a, b]
            if b.endswith('\n'):
                for c in LINES if thorough else LINES[::5]:
                    if True:
                        yield [a, b, c]
    for f in INNER:
        yield ['load %s\n' % f, 'ans\n']
        yield ['5\n', 'load %s' % f]
        yield ['load %s\n' % f, 'load %s\n' % f, '1\n']
    yield ['5\n'] * 12 + ['@1\n']
    yield ['1+' * 80 + '1\n', 'ans\n']
    yield ['#' + 'x' * 300 + '\n', '3+4\n']
    yield ['f(x)=x+1\n', 'f(3)\n', 'clear\n', 'f(3)\n', 'f(x,y)=x-y\n', 'f(9,4)\n', '@2\n'.replace('@2', '@1')]


def reference(lines, files):
    ref = RefCalc(files)
    try:
        return ref, ref.lines(lines)
    except Quit as q:
        return ref, ('exit', 0 if q.args[0] else 1)


def compare(ctx, S, what, fn, r, ref, want, exact=True):
    s, v, out, err = r
    ctx.count('runs')
    if not (v in (0, 1) or isinstance(v, tuple) and v[0] == 'exit' and isinstance(v[1], int)):
        ctx.undecide('%s: verdict %s' % (what, short(v)))
        return
    if v != want:
        ctx.violation('%s:verdict' % fn, S.where(fn), '%s: verdict %s, expected %s' % (what, v, want))
    if exact and not agrees(ref.out, out):
        ctx.violation('%s:output' % fn, S.where(fn), '%s: prints %r, expected %s' % (what, out[:300], [t for _, t in ref.out]))
    if bool(err) != bool(ref.fails or want == 0):
        ctx.violation('%s:errors' % fn, S.where(fn), '%s: %s' % (what, 'no error message although a line fails' if not err else 'error message %r although no line fails' % err[:100]))
    if isinstance(v, int):
        fnl = sorted((o[0], o[2]) for o in S.ops(s) if o not in S.base_ops)
        if fnl != sorted((n, a) for n, (a, _) in ref.m.items()):
            ctx.violation('%s:functions' % fn, S.where(fn), '%s: functions %s, expected %s' % (what, fnl, sorted(ref.m)))
        h = [fval(x) if x[0] == 'f' else None for x in S.history(s)]
        if None not in h and h != ref.h:
            ctx.violation('%s:history' % fn, S.where(fn), '%s: results %s, expected %s' % (what, h, ref.h))
        if S.open_files(s):
            ctx.violation('%s:open file' % fn, S.where(fn), '%s: %s not closed' % (what, S.open_files(s)))
        lk = S.I.leaks(s)
        if lk:
            ctx.violation('%s:leak' % fn, S.where(fn), '%s: %d heap block(s) allocated at %s are lost' % (what, len(lk), ', '.join(sorted({str(s.info[x][2]) for x in lk}))))


def work(ctx, items):
    S = Session(ctx, files=dict(INNER))
    if S.base is None:
        return
    S.base_ops = S.ops(S.base)
    inter = S.interactive(S.base, True)
    for lines in items:
        try:
            ref, want = reference([l if len(l) < 100 or l[0] == '#' else '80\n' for l in lines], INNER) if False else reference(lines, INNER)
        except KeyError:
            continue
        shown = repr(''.join(lines))[:160]
        r = S.feed(S.base, lines, 'typed input %s' % shown)
        if r:
            compare(ctx, S, 'typed input %s' % shown, 'process_input', r, ref, want)
        S.files['file'] = lines
        for mode, st in (('', S.base), ('interactive ', inter)):
            what = '%sload of a file with the lines %s' % (mode, shown)
            c = st.copy()
            c.ev = None
            r = S.feed(c, ['load file\n'], what)
            if r is None:
                continue
            # the load command itself fails when one of its lines fails
            compare(ctx, S, what, 'cmd_load_exec', r, ref, want if isinstance(want, int) else want, exact=not mode)
            if mode and isinstance(r[1], int):
                if S.is_interactive(r[0]) != 1:
                    ctx.violation('cmd_load_exec:mode', S.where('cmd_load_exec'), '%s: interactive mode is not restored' % what)
                out = r[2][:-1] if r[2].endswith('\n') else r[2]       # end of typed input is answered with a line break
                if not agrees(ref.out, out[:-1] + '\n' if out.endswith('\n\n') else out):
                    ctx.violation('cmd_load_exec:whispers', S.where('cmd_load_exec'), '%s: prints %r, expected only %s' % (what, r[2][:300], [t for _, t in ref.out]))
            elif not mode and isinstance(r[1], int) and S.is_interactive(r[0]) != 0:
                ctx.violation('cmd_load_exec:mode', S.where('cmd_load_exec'), '%s: leaves interactive mode on' % what)
        if len(ctx.samples) < 6:
            ctx.sample('%s => verdict %s, printed %s' % (shown, want, ref.out))
    ctx.fns |= S.I.visited_fns


def check(ctx):
    ctx.rule('load file = its lines one after the other; comments and blank lines ignored; verdict = all succeeded; files closed, mode restored, nothing lost')
    NUM['1+' * 80 + '1'] = 81
    parallel(ctx, work, list(contents(ctx.thorough)))
    ctx.need('runs', 900)
