"""Interactive error messages point at the offending token."""
from session import *
from errors import *

EXPLAIN = """exec_command() is abstractly interpreted in interactive mode on failing inputs built from a failing core (computation or syntax error with known offending token) and a context, alone, as right side of a definition, as argument
of a user function, as part of a table command, on uses of functions whose body fails, and on illegal left sides and clear commands. The error stream must consist of one line whose marker (~ and ^) covers exactly the columns of the offending
token in the typed line - wherever the message itself is put; in non-interactive mode there is no marker."""

ENV = [('', '', False), ('g(x)=', '', False), ('w = ', '', False), (' g(x) =', '', False), ('table ', ';1;2;1', False), ('table x;', ';2;1', False), ('table x;1;', ';1', False), ('table x;1;2;', '', False), ('table  x ; 1 ; 2 ; ', ' ', False), ('table x;1;2;1 fold ', ';0', False),
       ('table x;1;2;1 fold x+y;', '', False), ('f(', ')', True), ('3*f(2+f(', ')-1)', True), ('f(1)+', '*1', True)]
USES = [('h(x)=1/x', 'h(0)', 0, 1), ('h(x)=1/x', '2*h(1-1)+3', 2, 1), ('h(x)=sqrt(x)', '17+h(0-4)*3', 3, 1), ('hello(x,y)=5+x/(x-y)', '1+hello(2,2)', 2, 5), ('h(x)=1/x', 'w=3+h(0)', 4, 1), ('h(x)=1/x', 'gg(x)=x+h(0)', 8, 1), ('h(x)=1/x', 'table 4+h(0);1;2;1', 8, 1),
        ('h(x)=1/x', 'table x;1+h(0);2;1', 10, 1), ('h(x)=f(1/x)', 'max(1,h(0))', 6, 1)]
# other commands with a position: text, column, length
CMD = [('clear nosuch', 6, 6), ('clear a', 6, 1), ('clear f(x)', 6, 4), ('g(x,x)=x', 0, 6), ('g(x,y,x)=2', 0, 8), ('g(1)=2', 0, 4), ('g(x)+1=2', 0, 6), ('=5', 0, 1), ('g(x=2', 3, 1), ('g(x))=2', 4, 1), ('table x;a;2;1', 8, 1), ('table x;1;a+b;1', 10, 3), ('table x;1;2;bb', 12, 2),
       ('table x+y;1;2;1', 6, 3), ('table x;1;2;0', 12, 1), ('table x;1;2;1-1', 12, 3), ('table x;1;2;1 fold x+y;zz', 23, 2)]


def marker(err):
    """(column, length) of the marker of the first line, None without one"""
    first = err.split('\n', 1)[0]
    runs = [(m.start(), m.end() - m.start(), m.group()) for m in re.finditer(r'[~^]+', first)]
    runs = [r for r in runs if '^' in r[2]]
    return (runs[0][0], runs[0][1]) if len(runs) == 1 else None


def work(ctx, items):
    S = Session(ctx)
    if S.base is None:
        return
    base = S.cmds(S.base, ['f(x)=x+1', 'k=3'], 'earlier definitions')
    if base is None:
        return
    bases = {None: base}
    for d, text, col, ln in items:
        if d not in bases:
            bases[d] = S.cmds(base, [d], 'definition')
        what = '"%s"%s' % (text, ' after "%s"' % d if d else '')
        for mode in (True, False):
            st = S.interactive(bases[d], mode)
            r = S.cmd(st, text, what)
            if r is None:
                continue
            _, ok, out, err = r
            if ok != 0 or not isinstance(err, str):
                ctx.undecide('%s: %s' % (what, short(r[1:])))      # verdicts belong to another property
                continue
            ctx.count('messages')
            w = S.where('report_error_at') if 'report_error_at' in S.I.mod.functions else S.where('exec_command')
            if not mode:
                if marker(err) is not None or '\n' in err.rstrip('\n'):
                    ctx.violation('marker:%s' % text, w, '%s: non-interactive message %r has a marker or several lines' % (what, err))
                continue
            got = marker(err)
            if got != (col, ln):
                ctx.violation('column:%s' % text, w, '%s: the marker in %r covers %s, the offending token "%s" is at column %d..%d' % (what, err, 'columns %d..%d' % (got[0], got[0] + got[1] - 1) if got else 'nothing', text[col:col + ln], col, col + ln - 1))
            elif len(ctx.samples) < 6:
                ctx.sample('%s: %s' % (what, err.rstrip()))
    ctx.fns |= S.I.visited_fns


def items(thorough):
    out = [(None, t, c, l) for t, c, l in CMD] + list(USES)
    for i, (t, c, l, _, comp) in enumerate(texts()):
        for j, (a, b, only) in enumerate(ENV):
            if only and not comp:
                continue
            if a.startswith('table') and (a == 'table ' and not t.strip() or a != 'table ' and comp and re.search('[a-z]+', re.sub('max|sqrt|sum|mod|root', '', t))):
                continue
            if b.strip() and not comp and not a.startswith('table'):
                continue
            if not comp and c >= len(t.rstrip()) and (b[:1] == ' ' or a.startswith('table') and t != t.rstrip()):
                continue            # the end of a part that is followed by blanks
            if thorough or j == 0 or (i * 7 + j * 3) % 5 == 0:
                out.append((None, a + t + b, len(a) + c, l))
    return out


def check(ctx):
    ctx.rule('marker columns = columns of the offending token, exactly one marker on one line when interactive, none otherwise')
    parallel(ctx, work, items(ctx.thorough))
    ctx.need('messages', 800)
