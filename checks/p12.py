"""Every failing command says why on the error stream; a successful one says nothing there."""
from session import *
from refcalc import *
from errors import *

EXPLAIN = """exec_command() is abstractly interpreted on failing inputs of every kind - failing computations and syntax errors built from a failing core and a context, alone, as right sides of definitions, as arguments and bodies of user functions,
as parts of table commands, as lines of loaded files - and on illegal definitions, clear, load and table commands. The verdict must be failure, standard output must stay empty (tables that fail while folding excepted), and the error
stream must get a message that names the reason, ended by a line end, whether interactive or not. On commands of a vocabulary that succeed the error stream must stay empty."""

# illegal commands: text -> words of which one must occur in the message
CMD = {'sin(x)=2': ['built-in'], 'pi=3': ['built-in'], 'max(x)=x': ['built-in'], 'ans=1': ['built-in'], 'f(x)=2': ['already'], 'f=2': ['already'], 'k=2': ['already'], 'k(x)=x': ['already'], 'g(x)=g(x)+1': ['recurs'], 'g(x)=x*g(2)': ['recurs'], 'g(x)=y': ['unbound'],
       'g(x)=x+y': ['unbound'], 'w=y+1': ['unbound'], 'g(x,y)=x+z': ['unbound'], 'g(x,x)=x': ['distinct'], 'g(x,y,x)=y': ['distinct'], 'g(1)=1': ['variables'], 'g(x+1)=x': ['variables'], 'g(x,2)=x': ['variables'], 'g(pi)=1': ['variables'], '1=2': ['not a function'], '(g)=2': ['not a function'],
       '=5': ['not a function'], '+=1': ['not a function', 'end', 'name'], 'g(a,b,c,d,l,h,i,j,m,n,o)=1': ['too many', 'maximum'], 'g(x=2': ['closing'], 'g(x))=2': ['closing'], 'g(x)(y)=2': [''],
       'clear nosuch': ['unknown'], 'clear f(x)': ['unknown'], 'clear +': ['unknown'], 'clear sin': ['built-in'], 'clear pi': ['built-in'], 'clear ans': ['built-in'], 'load nosuch': [''], 'load simplification nosuch': ['not found', 'readable'],
       'table x;1;2': ['syntax'], 'table x': ['syntax'], 'table x;1;2;1;5': ['syntax', 'character', 'delimiter', 'argument'], 'table x;1;2;1 fold x': ['syntax'], 'table x;1;2;1 fold x;1;2': ['syntax', 'character', 'delimiter', 'argument'], 'table x;1;2;0': ["step"], 'table x;1;2;1-1': ["step"], 'table x;1;2;0.00000000000000000000000000001': ['step'],
       'table x+y;1;2;1': ['variable'], 'table x*y+z;1;2;1': ['variable'], 'table x;a;2;1': ['not constant'], 'table x;1;a;1': ['not constant'], 'table x;1;2;a': ['not constant'], 'table x;1;2;1 fold x+y;z': ['not constant'], 'table x;1;2;1 fold x+z;0': ['variable'], 'table a;1;2;1 fold a+y;0': ['variable', 'fold'],
       'table x;1;3;1 fold x/(y-2);1': ['fold']}
# environments of failing texts: before the text, after it, for computations only, earlier commands
ENV = [('', '', False, ()), ('g(x)=', '', False, ()), ('w=', '', False, ()), ('table ', ';1;2;1', False, ()), ('table x;', ';2;1', False, ()), ('table x;1;', ';1', False, ()), ('table x;1;2;', '', False, ()), ('table x;1;2;1 fold ', ';0', False, ()), ('table x;1;2;1 fold x+y;', '', False, ()),
       ('f(', ')', True, ()), ('3*f(2+f(', ')-1)', True, ()), ('f(1)+', '*1', True, ())]
# uses of functions whose body fails
USES = [('h(x)=1/x', 'h(0)', DIV), ('h(x)=1/x', '2*h(1-1)+3', DIV), ('h(x)=sqrt(x)', 'h(0-4)', CPX), ('h(x)=sqrt(x)', '1+h(-4)', CPX), ('h(x,y)=x/(x-y)', 'h(2,2)', DIV), ('h(x)=@x', 'h(77)', HIS), ('h(x)=f(1/x)', 'h(0)', DIV), ('h(x)=1/f(x)', 'h(0-1)', DIV), ('h(x)=1/x', 'w=h(0)', DIV),
        ('h(x)=1/x', 'g(x)=x+h(0)', DIV), ('h(x)=1/x', 'table h(0);1;2;1', DIV), ('h(x)=1/x', 'table x;h(0);2;1', DIV)]


def judge(ctx, S, st, text, words, what, mode):
    s = S.interactive(st, mode)
    r = S.cmd(s, text, what)
    if r is None:
        return
    _, ok, out, err = r
    ctx.count('failing commands')
    w = S.where('exec_command')
    tag = what + (' (interactive)' if mode else '')
    if ok not in (0, 1) or not isinstance(err, str):
        return ctx.undecide('%s: verdict %s' % (tag, short(ok)))
    if ok == 1:
        return ctx.violation('accepted:%s' % text, w, '%s succeeds, but it must fail (%s)' % (tag, ' / '.join(words)))
    if not err.strip():
        return ctx.violation('silent:%s' % text, w, '%s fails without saying anything on the error stream' % tag)
    if not any(x in err.lower() for x in words):
        return ctx.violation('reason:%s' % text, w, '%s reports %r, which does not name the reason (%s)' % (tag, err.strip(), ' / '.join(words)))
    if not err.endswith('\n'):
        ctx.violation('line:%s' % text, w, '%s: the message %r does not end its line' % (tag, err))
    if out.strip() and not text.startswith('table x;1;3;1 fold x/'):
        ctx.violation('stdout:%s' % text, w, '%s fails, but prints %r as a result' % (tag, out[:100]))


def work(ctx, items):
    S = Session(ctx, files={'file': ['3+4\n', 'f(x)=x+1\n'], 'empty': [], 'bad': ['1/0\n']})
    if S.base is None:
        return
    base = S.cmds(S.base, ['f(x)=x+1', 'k=3'], 'earlier definitions')
    if base is None:
        return
    known_ = {}
    for it in items:
        kind, mode = it[0], it[1]
        if kind == 'fail':
            judge(ctx, S, base, it[2], it[3], '"%s"' % it[2], mode)
        elif kind == 'use':
            d = it[2]
            if d not in known_:
                known_[d] = S.cmds(base, [d], 'definition')
            if known_[d] is not None:
                judge(ctx, S, known_[d], it[3], it[4], '"%s" after "%s"' % (it[3], d), mode)
        else:
            r = S.cmd(S.interactive(S.base, mode), it[2], '"%s"' % it[2])
            if r is None:
                continue
            ref = RefCalc({'file': ['3+4\n', 'f(x)=x+1\n'], 'empty': [], 'bad': ['1/0\n']})
            want = ref.run(it[2])
            ctx.count('commands of the vocabulary')
            _, ok, out, err = r
            if want and ok == 1 and err:
                ctx.violation('noise:%s' % it[2], S.where('exec_command'), '"%s" succeeds, but prints %r to the error stream' % (it[2], err[:100]))
            if not want and ok == 0 and not err.strip():
                ctx.violation('silent:%s' % it[2], S.where('exec_command'), '"%s" fails without saying anything on the error stream' % it[2])
    ctx.fns |= S.I.visited_fns


def items(thorough):
    out = []
    for m in (False, True):
        for c, w in CMD.items():
            out.append(('fail', m, c, w))
        for d, u, why in USES:
            out.append(('use', m, d, u, [why]))
        for c in list(NUM) + list(SYM) + list(DEF) + list(HIST) + sorted(BAD) + list(TABLE) + sorted(HELP) + ['clear', 'load file', 'load empty', 'load bad']:
            out.append(('vocab', m, c))
    for i, (t, _, _, why, comp) in enumerate(texts()):
        for j, (a, b, only, _) in enumerate(ENV):
            if only and not comp or 'clear' in t:
                continue
            if a.startswith('table') and (a == 'table ' and not t.strip() or a != 'table ' and comp and re.search('[a-z]+', re.sub('max|sqrt|sum|mod|root', '', t))):
                continue            # parts that are not constant are refused for another reason, an empty first part is no table command
            if b and comp is False and b not in (';0',) and not a.startswith('table'):
                continue
            if thorough or j == 0 or (i * 7 + j * 3) % 6 == 0:
                out.append(('fail', (i + j) % 2 == 1, a + t + b, [why]))
    return out


def check(ctx):
    ctx.rule('fails => message naming the reason on stderr, nothing on stdout; succeeds => stderr empty')
    parallel(ctx, work, items(ctx.thorough))
    ctx.need('failing commands', 600)
    ctx.need('commands of the vocabulary', 200)
