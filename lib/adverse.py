"""Command lines nobody would type: a deterministic generator of adverse input for the whole program."""
import random

PRE = ['+', '-', '$']
INF = ['+', '-', '*', '/', '^', ' mod ', ' C ', ' P ', '-', '*']
POST = ['!', '!!', '%', "'"]
FN1 = ['sin', 'sqrt', 'abs', 'exp', 'ln', 'floor', 'fib', 'trunc', 'frac', 'sgn', 'atan', 'ceil', 'round']
FN2 = ['root', 'log', 'deriv', 'rand']
FNN = ['sum', 'prod', 'avg', 'min', 'max', 'median', 'gcd', 'lcm', 'var', 'count']
FN0 = ['pi', 'e', 'phi', 'clight', 'csound', 'ans']
WORD = ['x', 'y', 'foo', 'x_', '_', '[', ']', '[xs]', 'X', 'a' * 40, 'nan', 'inf', 'infinity', 'quit', 'help', 'load', 'clear', 'table', 'fold', 'WHERE', 'ex', 'sinx', 'e_', 'C', 'mod', 'P']
NUM = ['0', '1', '2', '7', '.5', '5.', '1.5', '00', '1e5', '1e', '1e-', '0x1F', '1.2.3', '.', '..', '9' * 25, '0.' + '0' * 30 + '1', '1e400', '1e-400', '170', '171', '2.5', '4294967296', '18446744073709551615', '-0']
ODD = ['\t', '\x01', '\x7f', '\xc3\xa4', '\xff', '~', '|', '"', '\\', '`', ';', ':', '&', '#', '%s', '%n', '%d%s', '?', '{', '}', '[', ']', '@', '@1', '@0', '@-1', '@99', '@1.5', '=', ',', '(', ')', '  ', ' ', '\r']


def expr(r, d, names=()):
    k = r.random()
    if d <= 0 or k < .18:
        return r.choice(NUM[:8]) if r.random() < .5 else r.choice(['x', 'y', 'pi', 'e', 'ans', '@1', '3'] + [n for n, a in names if a == 0])
    if k < .45:
        return expr(r, d - 1, names) + r.choice(INF) + expr(r, d - 1, names)
    if k < .55:
        return r.choice(PRE) + expr(r, d - 1, names)
    if k < .62:
        return expr(r, d - 1, names) + r.choice(POST[:3])
    if k < .72:
        return '(' + expr(r, d - 1, names) + ')'
    if k < .8:
        return r.choice(FN1) + '(' + expr(r, d - 1, names) + ')'
    if k < .86:
        return r.choice(FN2[:2]) + '(' + expr(r, d - 1, names) + ',' + expr(r, d - 1, names) + ')'
    if k < .93 or not names:
        return r.choice(FNN) + '(' + ','.join(expr(r, d - 2, names) for _ in range(r.choice((0, 1, 1, 2, 3, 5)))) + ')'
    n, a = r.choice(names)
    return n + ('(' + ','.join(expr(r, d - 2, names) for _ in range(a)) + ')' if a else '')


def mangle(r, s):
    """one to three edits"""
    for _ in range(r.randint(1, 3)):
        k = r.randint(0, len(s))
        e = r.random()
        if e < .3:
            s = s[:k] + s[k + 1:]
        elif e < .6:
            s = s[:k] + r.choice(ODD) + s[k:]
        elif e < .8:
            s = s[:k] + r.choice(WORD + NUM + FN1 + FNN) + s[k:]
        elif e < .9:
            s = s[:k]
        else:
            s = s[:k] + s[max(0, k - 3):]
    return s


def definition(r, names):
    n = r.choice(['f', 'g', 'h', 'k', 'long_name_' * 3, 'ff', 'x', 'i', 'sinh_'])
    ps = r.sample(['x', 'y', 'z', 'a', 'bb', 'param_' * 4], r.choice((0, 0, 1, 1, 2, 3, 6)))
    b = expr(r, 2, names)
    left = n + ('(' + ','.join(ps) + ')' if ps else '')
    if r.random() < .15:
        left = mangle(r, left)
    return left + r.choice(('=', ' = ')) + b, (n, len(ps))


def table(r, names):
    e = expr(r, 2, names)
    p = [e, r.choice(['0', '1', '-3', 'x', '1/0', 'pi', '']), r.choice(['3', '0', '-2', '2+2', 'y']), r.choice(['1', '-1', '0.5', '0.7', '2', '1/0', '-0.3'])]
    s = 'table ' + ' ; '.join(p[:r.choice((1, 2, 3, 4, 4, 4, 4))])
    if r.random() < .4:
        s += ' fold ' + r.choice(['x+y', 'x', 'x+y ; 0', 'x*y;1', 'expr;', 'x+y;1/0', 'x+y+z;0', 'y;0', ';', 'x+y;0;1'])
    return s


def fixed():
    """lines around the borders of every command"""
    heads = ['help', '?', 'clear', 'load', 'table', 'quit ', 'license', 'load simplification', 'help all', 'help all operators', 'fold']
    tails = ['', ' ', '  ', ' x', 'x', ' x y', ' ;', ';', ' ;;;', ' ;;;;;;', ' ,', ' (', ' "', ' %s%n', ' ' + 'a' * 300, ' sin', ' +', ' $', ' ans', ' f', ' @', '\t', ' \xc3\xa4', ' fold', ' x;1;2;1 fold', ' x;1;2;1fold x', ' x;1;2;1 fold ;', ' fold x;1;2;1', '=1', '(x)=x', ' = 1']
    for h in heads:
        for t in tails:
            yield h + t
    for s in ('=', '==', '=1', 'f=', 'f =', ' = ', 'f()=', 'f()=1', 'f(=1', 'f)=1', '(f)=1', 'f(x=x', 'f(x,)=x', 'f(,)=1', 'f(,x)=x', 'f(x y)=x', 'f(1)=1', 'f(x,x)=x', 'f(sin)=1', 'f(f)=f', 'f(x)==x', 'f(x)=x=x', '1=2', '1=x', '+=1', 'x+y=1',
              'sin=1', 'sin(x)=x', 'f g=1', 'f(x)g=1', 'f(x)(y)=x', 'f((x))=x', 'f(x)=f(x)', 'f=f', '@=1', '@1=1', 'ans=1', 'f(@1)=1', 'f(x)=@', 'f(x)=ans', '=x=', 'f[x]=x', '[=1', '[]=1', '_=1', '_ = _', 'f(_)=_', 'f(x)=x;', '#=1', 'e=1', 'f%s=1', 'f(%n)=1'):
        yield s
    for s in ('@', '@0', '@1', '@2', '@-1', '@ 1', '@x', '@@1', '@@', '@1@1', '@(1)', '@1.5', '@1e30', '@1e400', '@(1/0)', '@nan', '@-1e30', '@18446744073709551616', '@0.999999999999', '@(0/0)', '2@1', '@1!', '-@1', "@1'", 'ans@1', 'ans ans', 'ans()'):
        yield s
    for s in ('(' * 120, ')' * 60, '(' * 100 + '1' + ')' * 100, '(' * 100 + ')' * 100, '-' * 150 + '1', '1' + '!' * 5, '1' + '%' * 120, '1+' * 150 + '1', '2^' * 60 + '1', 'sum(' * 60 + '1' + ')' * 60, 'sum(' + ','.join(['1'] * 150) + ')', 'f(' * 40, 'sum(' + ',' * 40 + ')',
              '9' * 320, '0.' + '3' * 320, 'a' * 400, '[' * 80, '_' * 80, '1 ' * 80, 'x ' * 60, ' ' * 200, '.' * 50, '1.' * 40, 'e' * 60, '%' * 60, '!' * 60, "'" * 30, ',' * 50, '$' * 80 + '1', 'sin ' * 30, '+' * 100, '1' + '+' * 100 + '1', '\xff' * 40, '\t' * 40):
        yield s
    for f in FN1 + FN2 + FNN + FN0:
        for t in ('', '(', '()', '(1', '(,)', '(1,', '(1,2,3,4)', ' 1', '(x)', '((1))', ')', "'", '!', '(1e400)', '(-1e400)', '(0-1)', '(1e30)', '(-1e30)', '(nan)', '(1e30,1e30)', '(-7,1e30)', '(0,0)'):
            yield f + t
    for o in ('mod', 'C', 'P', '/', '^', '+', '*', '-', '!', '%'):
        for a, b in (('1e30', '3'), ('3', '1e30'), ('-1e30', '-3'), ('0', '0'), ('1', '0'), ('1e308', '1e308'), ('2.5', '-2.5'), ('4294967296', '2147483648'), ('-1', '9223372036854775808')):
            yield '%s %s %s' % (a, o, b)
    for d in ODD:
        for s in ('%s', '1%s2', 'x%s', '%sx', '1+%s', '%s+1', 'sin(%s)', 'sin%s(1)', 'f(%s)=1', 'f=%s', 'clear %s', 'load %s', 'help %s', 'table %s;1;2;1', 'table x;%s;2;1', 'table x;1;2;%s', 'table x;1;2;1 fold %s;0', 'table x;1;2;1 fold x+y;%s'):
            yield s.replace('%s', d, 1)


def lines_of(r, n):
    """a session of n lines"""
    names = []
    for _ in range(n):
        k = r.random()
        if k < .35:
            s = expr(r, 3, names)
        elif k < .55:
            s, nm = definition(r, names)
            if r.random() < .3:
                s = mangle(r, s)
            elif all(nm[0] != x for x, _ in names):
                names.append(nm)
        elif k < .68:
            s = table(r, names)
        elif k < .74:
            s = 'clear' + r.choice(['', ' f', ' g', ' k', ' nosuch', ' sin', ' f g', ' ' + 'long_name_' * 3])
            names = [] if s == 'clear' else [x for x in names if ' ' + x[0] != s[5:]]
        elif k < .78:
            s = r.choice(['help', 'help sin', '? +', 'help all', '?']) + r.choice(['', '', ' x'])
        else:
            s = r.choice([expr(r, 3, names), table(r, names), 'load nothing', 'load simplification nothing', 'clear f', 'help sin', definition(r, names)[0]])
        if r.random() < .35:
            s = mangle(r, s)
        if s != 'quit':
            yield s.replace('\n', ' ').replace('\0', ' ')
