"""Everything is released when the program ends."""
from session import *
import adverse
import random
import p26

EXPLAIN = """main() is abstractly interpreted from process start until it returns or exit() is called, followed by the exit handlers it registered, on sessions that build up and tear down every kind of state: definitions (accepted, refused
for every reason, replaced, cleared singly and together), results, tables and folds, help pages, loaded files (missing, nested, with failing lines, ending the program from within), rule files (missing, malformed in every part, too
few sections, loaded twice, loaded over valid ones), all on a terminal and in scripts, with and without the installed rule file, with commands given as arguments, and on generated adverse sessions. At the end the heap typestate must
hold no allocated block and every file that was opened must be closed, whichever way the program ended; when a loaded file quits the program, only the lines and files being processed at that moment are exempt, as documented."""

INSTALLED = '/etc/ccalc/simplification.ruleset'
GOOD = ['RULESET\n', ' sin(x) -> cos(x)\n', 'RULESET\n', ' deriv(x, x) -> 1\n', ' deriv(x, z) -> 0 WHERE type(x) != OP\n', 'RULESET\n', ' x+0 -> x\n', ' sum([xs], x, [ys], x) -> sum([xs], 2*x, [ys]) WHERE type(x) == VAR ; equal(x, x)\n'] + ['RULESET\n'] * 4
BAD = {
    'b1': ['rubbish\n'] + GOOD[:-1],
    'b2': GOOD[:3] + [' sin(x) -> y\n'] + GOOD[3:],
    'b3': GOOD[:3] + [' sin(x) cos(x)\n'] + GOOD[3:],
    'b4': GOOD[:7] + [' sin(x) -> cos(x) WHERE TRUE ; (\n'] + GOOD[7:],
    'b5': GOOD[:7] + [' sin(x) -> (\n'],
    'b6': GOOD[:4],
    'b7': [],
    'b8': GOOD + ['RULESET\n', 'x -> 1\n'],
    'b9': GOOD[:-1] + ['RULESET\n', ' sin( -> 1'],
}
FILES = {
    'l1': ['3+4\n', 'f(x)=x+1\n', 'f(2)\n'],
    'l2': ['1/0\n', 'load l1\n', 'nosuch(\n', 'g=7'],
    'l3': ['load l2\n', 'load nothing\n', 'clear f\n'],
    'quit': ['k=3\n', 'quit\n', 'k\n'],
    'quit2': ['load quit\n', '5\n'],
    'empty': [],
    'blank': ['\n', '#c\n', '\n'],
    'table': ['table x*y;1;3;1\n', 'table x^2;1;4;1 fold x+y;0\n', 'table x;1;2\n'],
    'nothing': None,
}
STEPS = {
    'results': ['1', '2', 'ans+@1', '@7', '3/4', '1/0', 'sqrt(-1)', '2+', 'x+1', 'pi'] * 2,
    'definitions': ['f(x)=x+1', 'g(x,y)=f(x)*y', 'k=g(1,2)', 'f(x)=x+2', 'k=4', 'h(x)=h(x)', 'f(x)=g(x,1)', 'sin(x)=x', 'p(x,x)=1', 'q(1)=1', 'f(x', 'f(x)=', 'f(x)=1/0', 'm=x+1', '=3', 'f(2)+g(k,2)', 'f(1,2)', 'long_function_name(a_parameter,b)=a_parameter'],
    'clear': ['f(x)=x+1', 'g=3', 'f(g)', 'clear f', 'f(1)', 'f=7', 'clear', 'f', 'clear sin', 'clear nosuch', 'g=1', 'clear g ', 'clear f g', 'h(x)=x', 'clear h'],
    'tables': ['table x^2;1;3;1', 'table x*y;1;3;1', 'table 1/x;-1;1;1', 'table x;1;3;1 fold x+y;0', 'table x;1;3;1 fold x+y;1/0', 'table x;1;3;1 fold z;0', 'table x;1;3;0', 'table x;1', 'table ;;;', 'table x;y;3;1', 'table sqrt(x);-2;2;1 fold x+y;0', 'f(x)=x^2', 'table f(x);3;1;1'],
    'refused tables': p26.BAD, 'failing folds': p26.FAILING + ['table x;1;3;1 fold 1/0+x;0', 'table 1/(x-x);1;3;1 fold x/y;1', 'table x;1;3;1 fold root(0-1,y);2', 'table x;3;1;1 fold ln(x-y);0'],
    'parameters': ['f(a,b,c,d,e,g,h,i,j,k)=a', 'f(a,b,c,d,e,g,h,i,j,k,l)=a', 'f(1,2,3,4,5,6,7,8,9,10)', 'q(2,x)=x', 'q(x+1)=x', 'q(x)(y)=x', 'q x=x', 'x+y=3', '(q)=3', '7=3', 'q(x)=x+y', "q(x)=x'+$", 'q(x)=ans', 'q(x)=@9', 'q()=3', 'q()', 'q=q', 'q(x)=q'],
    'help': ['help', 'help all', 'help sin', 'help +', 'help nosuch', 'f(x)=x', 'help f', '?', 'help -'],
    'load': ['load l1', 'load l2', 'load l3', 'load nothing', 'load empty', 'load blank', 'load table', 'load ', 'load'],
    'rules': ['load simplification nothing', 'load simplification good', 'x+0', "(x+0)'", 'load simplification good', 'sin(x)+0', 'load simplification b2', 'x+0', 'load simplification nothing'],
    'derivatives': ['load simplification good', "x'", "(x*y)'", "sin(x)'", 'deriv(x,2)', "f(x)=x'", 'f(3)', "(x')'", 'sum(x,x,y)', 'sum(1,2)'],
    'quit': ['f(x)=x', '3', 'quit', '5'],
    'quit after failure': ['f(x)=x', '1/0', 'quit'],
    'quit in a file': ['f(x)=x', '3', 'load quit', '5'],
    'quit in a nested file': ['g=3', 'load good', 'load quit2', '7'],
}


def runs(thorough):
    """(label, args, stdin, tty, installed)"""
    bad = {'bad rules %s' % b: ['load simplification good', 'sin(x)', 'load simplification %s' % b, 'sin(x)+0', 'load simplification %s' % b, 'load simplification good', "x'"] for b in BAD}
    for name, ls in list(STEPS.items()) + list(bad.items()):
        for tty in (False, True):
            for inst in (False, True):
                if name in bad and tty == inst and not thorough:
                    continue
                yield name, [], ls, tty, GOOD if inst else None
        yield name, ['-c'] + ls, [], False, None
        yield name, ['-i', '-c'] + ls[:1], ls[1:], True, GOOD
    for b in BAD:
        yield 'installed %s' % b, [], ['x+0', "x'", '3'], False, BAD[b]
        yield 'installed %s' % b, ['-c', 'x+0'], [], False, BAD[b]
    for a in (['-h'], ['-v'], ['-x'], ['-q'], ['-c'], ['-q', '-i', '-c']):
        yield 'switches', a, [], False, GOOD
        yield 'switches', a, ['3\n'], True, None
    # every step once at the end: what the last command leaves behind
    for name, ls in STEPS.items():
        for k in range(1, len(ls)):
            if thorough or k % 3 == 0:
                yield name + ' until %d' % k, [], ls[:k], bool(k % 2), None
    for s in range(240 if thorough else 48):
        r = random.Random(40000 + s)
        ls = list(adverse.lines_of(r, 12))
        if s % 4 == 0:
            ls.insert(r.randrange(12), r.choice(['load l3', 'load simplification good', 'load simplification b4', 'load quit', 'load table']))
        yield 'session %d' % s, ['-c'] + ls if s % 6 == 5 else [], [] if s % 6 == 5 else ls, bool(s % 2), GOOD if s % 5 == 0 else None


def is_line(S, st, x):
    """block holding a typed line that loads a file"""
    t = ''
    for k in range(5):
        c = st.mem.get(x, {}).get(k)
        t += chr(c[1][1]) if c and c[1][0] == 'c' and c[1][1] < 256 else '?'
    return t.startswith('load ')


def work(ctx, items):
    S = Session(ctx, init=False)
    S.soft = True
    S.I.fold_libm = True
    S.I.max_steps = 6000000
    for label, args, lines, tty, inst in items:
        if absint.late():
            ctx.undecide('%s: out of time' % label)
            continue
        what = '%s: ccalc%s%s%s%s' % (label, ''.join(' %r' % a for a in args)[:200], ' on a terminal' if tty else '', ', rules installed' if inst else '', ', input %r' % lines if lines else '')
        files = dict(FILES, good=GOOD, **BAD)
        files[INSTALLED] = inst
        r = S.main(args, [l if l.endswith('\n') else l + '\n' for l in lines], tty, files=files, what=what[:400])
        if r is None:
            continue
        st = r[3]
        ctx.count('runs')
        within = 'quit in a' in label or 'load quit' in lines or 'load quit2' in lines
        lk = S.I.live(st)
        if lk:
            own = {str(st.info[x][2]) for x in lk}
            if within:
                # the line that holds the load command, in each nesting level
                held = [x for x in lk if 'readline' not in str(st.info[x][2])]
                ctx.count('runs ended from within a file')
                lines_held = [x for x in held if is_line(S, st, x)]
                held = [x for x in held if x not in lines_held]
                own = {str(st.info[x][2]) for x in held}
                lk = held
        if lk:
            ctx.violation('leak:%s' % sorted(own)[0], S.where('main'), '%s: %d heap block(s) allocated at %s are not released when the program ends' % (what[:300], len(lk), ', '.join(sorted(own))[:300]))
        of = S.open_files(st)
        if of and not within:
            ctx.violation('file', S.where('main'), '%s: %d file(s) still open when the program ends' % (what[:300], len(of)))
        ctx.count('exits through exit()' if st.info.get('exit_code') is not None else 'exits through return')
        if len(ctx.samples) < 8 and len(what) % 5 == 0:
            ctx.sample('%s => status %d, nothing held' % (what[:160], r[0]))
    ctx.fns |= S.I.visited_fns


def check(ctx):
    ctx.rule('at the end of every run, after the exit handlers: no allocated block, no open file')
    items = list(runs(ctx.thorough))
    parallel(ctx, work, items)
    ctx.need('runs', 150)
