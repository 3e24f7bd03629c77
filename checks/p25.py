"""Command-line switches."""
from session import *
from refcalc import *
import itertools

EXPLAIN = """main() is abstractly interpreted, from process start to exit including the exit handlers, on every list of up to three switches (short and long form of each, unknown words, abbreviations that do not exist, empty words) followed by
every kind of command list after --commands, with typed input present, with and without a terminal and with and without the rule file in place. Exit status, output and which commands were carried out must be those of the reference:
switches are read from the left up to --commands, an unknown one ends the run with an error and status 1 before anything is done; --help and --version print and end with status 0; commands run in order and the first failing
one ends the run with status 1; without --interactive the run ends with status 0 after the commands, otherwise (or without --commands) the typed lines are processed and the status tells whether all succeeded; the notice is shown
exactly when lines will be processed on a terminal and --quiet is absent. After the exit handlers no heap block may be left unreachable or allocated, and every file is closed."""

SW = {'-i': 'i', '--interactive': 'i', '-q': 'q', '--quiet': 'q', '-h': 'h', '--help': 'h', '-v': 'v', '--version': 'v', '-c': 'c', '--commands': 'c'}
ODD = ['-x', '', '-', '--', '--hel', '--helpp', '-ic', 'help', '--Version', '-c1', '5', '--version=1', '-H', 'commands', '--comm']


def reference(args, lines, tty):
    """(status, printed, notice, stage)"""
    seen = set()
    ci_ = None
    for k, a in enumerate(args):
        if a not in SW:
            return 1, None, False, 'unknown'
        if SW[a] == 'c':
            ci_ = k
            break
        seen.add(SW[a])
    if 'h' in seen:
        return 0, None, False, 'help'
    if 'v' in seen:
        return 0, None, False, 'version'
    notice = ('i' in seen or ci_ is None) and 'q' not in seen and tty
    ref = RefCalc()
    if ci_ is not None:
        for c in args[ci_ + 1:]:
            if not ref.run(c):
                ref.fails += 1
                return 1, ref, notice, 'failed command'
        if 'i' not in seen:
            return 0, ref, notice, 'commands'
    try:
        ok = ref.lines(lines)
    except Quit as q:
        ok = q.args[0]
    return (0 if ok else 1), ref, notice, 'input'


def runs(thorough):
    words = list(SW)
    inputs = [[], ['3+4\n', 'ans+1\n'], ['1/0\n', '5'], ['f(x)=x+1\n', 'f(3)\n', 'quit\n', '1/0\n'], ['2+\n', 'quit']]
    cmds = [[], ['3+4'], ['3+4', 'ans+1'], ['1/0', '3+4'], ['3+4', '2+', '5'], ['f(x)=x+1', 'f(3)', 'clear f'], ['-h'], ['k=5', '-c', 'k'], ['5', 'clear nosuch']]
    cmds = [c for c in cmds if all(RefCalc().knows(x) for x in c)]
    n = 0
    for a in words + ODD:
        yield [a], inputs[1], False
    for a, b in itertools.product(words + ODD[:7], repeat=2):
        fast = a in ODD or (b in ODD and SW.get(a) != 'c') or 'h' in (SW.get(a), SW.get(b)) and SW.get(a) != 'c' or 'v' in (SW.get(a), SW.get(b)) and SW.get(a) != 'c'
        n += 1
        if SW.get(a) == 'c' and b in ODD + words:
            continue
        if fast or thorough or n % 3 == 0:
            yield [a, b], inputs[n % 5], bool(n % 2)
    for a, b, c in itertools.product(['-i', '-q', '-h', '-v', '--quiet', 'zz', '--help'], repeat=3):
        if {'-h', '-v', 'zz', '--help'} & {a, b, c}:
            yield [a, b, c], inputs[1], False
    for pre in ([], ['-i'], ['-q'], ['-q', '-i'], ['--interactive', '--quiet'], ['-i', '-i']):
        for c in cmds:
            for j, inp in enumerate(inputs):
                for tty in (False, True):
                    n += 1
                    if thorough or n % 6 == 0 or (j in (1, 2) and pre in ([], ['-i']) and not tty):
                        yield pre + ['-c' if n % 2 else '--commands'] + c, inp, tty
        for j, inp in enumerate(inputs):
            for tty in (False, True):
                yield pre, inp, tty
    yield ['-h', '-c', '1/0'], [], False
    yield ['-v', '-c', '1/0'], [], False
    yield ['zz', '-c', '5'], ['5\n'], False


def work(ctx, items):
    S = Session(ctx, init=False)
    for args, lines, tty in items:
        what = 'ccalc %s%s%s' % (' '.join(repr(a) if a == '' or ' ' in a else a for a in args), ' with input %r' % ''.join(lines) if lines else '', ' on a terminal' if tty else '')
        try:
            want, ref, notice, stage = reference(args, lines, tty)
        except KeyError:
            continue
        r = S.main(args, lines, tty, files={'/etc/ccalc/simplification.ruleset': None}, what=what)
        if r is None:
            continue
        status, out, err, s = r
        ctx.count('runs')
        ctx.count('runs: ' + stage)
        key = stage
        if status != want:
            ctx.violation('status:' + key, S.where('main'), '%s ends with status %d, expected %d' % (what, status, want))
        if stage == 'unknown':
            if out or not err:
                ctx.violation('output:' + key, S.where('main'), '%s prints %r / %r, expected an error message only' % (what, out[:100], err[:100]))
        elif stage == 'help':
            if err or not all(w in out for w in ('--help', '--version', '--interactive', '--quiet', '--commands')):
                ctx.violation('output:' + key, S.where('main'), '%s prints %r / %r, expected the help message' % (what, out[:100], err[:100]))
        elif stage == 'version':
            if err or not out.startswith('ccalc ') or '--help' in out or out.count('\n') != 1:
                ctx.violation('output:' + key, S.where('main'), '%s prints %r / %r, expected the version' % (what, out[:100], err[:100]))
        else:
            n = out.count('Copyright')
            if n != (1 if notice else 0):
                ctx.violation('notice:' + key, S.where('main'), '%s: notice shown %d times, expected %d' % (what, n, notice))
            if not tty and not agrees(ref.out, out):
                ctx.violation('output:' + key, S.where('main'), '%s prints %r, expected %s' % (what, out[:200], [t for _, t in ref.out]))
            if tty:
                got = [norm(l) for l in out.split('\n')]
                got = [l[2:] if l.startswith('= ') else l for l in got]
                i = 0
                for kind, t in ref.out:
                    while i < len(got) and got[i] != t:
                        i += 1
                    if i == len(got):
                        ctx.violation('output:' + key, S.where('main'), '%s prints %r, expected the results %s' % (what, out[:300], [t for _, t in ref.out]))
                        break
                    i += 1
            errs = [l for l in err.split('\n') if l and 'simplification' not in l]
            if bool(errs) != bool(ref.fails):
                ctx.violation('errors:' + key, S.where('main'), '%s: error output %r, %d commands fail' % (what, errs[:3], ref.fails))
        lk = S.I.live(s)
        if lk:
            ctx.violation('leak:' + key, S.where('main'), '%s: %d heap block(s) allocated at %s are not released at exit' % (what, len(lk), ', '.join(sorted({str(s.info[x][2]) for x in lk}))[:300]))
        if len(ctx.samples) < 8:
            ctx.sample('%s => status %d (%s)' % (what, status, stage))
    ctx.fns |= S.I.visited_fns


def check(ctx):
    ctx.rule('exit status, output and carried-out commands = reference for every switch list, command list and input; nothing left allocated after the exit handlers')
    items, seen = [], set()
    for a, l, t in runs(ctx.thorough):
        k = (tuple(a), tuple(l), t)
        if k not in seen:
            seen.add(k)
            items.append((a, l, t))
    parallel(ctx, work, items)
    ctx.need('runs', 300)
