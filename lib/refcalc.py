"""Reference calculator for a fixed vocabulary of commands: verdict, printed result and effect, by construction."""
import re

NUM = {'3+4': 7, '5': 5, '-5': -5, '3-7': -4, '0': 0, '0.5': .5, '-0.25*2': -.5, '2^10': 1024, '-(2*3)': -6, '--4': 4, '(0-1)/2': -.5, '$2+1': 3, '3!': 6, 'max(1,-2)': 1, '1-2-3': -4, ' 8 ': 8, '6*7': 42, '5 C 2': 10, '2(3)': 6, '50%': .5,
       '9': 9, '100': 100, '1': 1, '2': 2, '3': 3, '1+1': 2, '7 mod 4': 3, '5 mod 2': 1}
SYM = {'x': 'x', '2*x': '2*x', 'x+y': 'x+y', 'quit now': 'quit*now', 'helper': 'helper', 'tables': 'tables', 'loads': 'loads', 'license2': 'license*2', 'load': 'load', 'table': 'table', 'operators': 'operators', 'q': 'q', 'Help': 'Help', 'u-v': 'u-v', 'helpx': 'helpx',
       'quitter': 'quitter', 'quit ': 'quit', ' quit': 'quit', 'Quit': 'Quit', 'QUIT': 'QUIT', 'quits': 'quits', 'qui': 'qui', 'licensed': 'licensed', 'help me': 'help*me', 'info': 'info', 'nanny': 'nanny', 'loader': 'loader'}
DEF = {'k()=4': ('k', 0, lambda: 4), 'k() = 2+3': ('k', 0, lambda: 5), 'f( x )=-x': ('f', 1, lambda x: -x), 'c=x': None, 'f(x,y,z)=x-y-z': ('f', 3, lambda x, y, z: x - y - z), 'quitter=4': ('quitter', 0, lambda: 4), 'f(x)=x+1': ('f', 1, lambda x: x + 1), 'f(x,y)=x-y': ('f', 2, lambda x, y: x - y), 'k=5': ('k', 0, lambda: 5), 'c = 2*3': ('c', 0, lambda: 6), ' f(x) = x*x ': ('f', 1, lambda x: x * x), 'table x=3': None, 'table (x)=x*2': None, 'load (x)=x*4': ('load', 1, lambda x: x * 4), 'clear (x) = 7': ('clear', 1, lambda x: 7), 'help (x)=x': ('help', 1, lambda x: x), 'load(x)=x*4': ('load', 1, lambda x: x * 4),
       'quit=3': ('quit', 0, lambda: 3), 'help=9': ('help', 0, lambda: 9), 'clear(x)=7': ('clear', 1, lambda x: 7)}
HIST = {'ans': lambda h: h[0], '@0': lambda h: h[0], '@1': lambda h: h[1], 'ans+1': lambda h: h[0] + 1, '-ans': lambda h: -h[0]}
BAD = {' ', 'quit=', ' #', ' # x', '2 # x', '1/0', '2+', ')', '(', 'sin=2', '=', '1=2', 'f(1)=2', 'k=', 'clear nosuch', 'clear sin', 'load nosuch', 'load ', 'load simplification nosuch', 'table x;1', 'table ', '0^0', '@40', 'sqrt(0-1)', 'sin', 'max', '3 = 4', '1.2.3', 'f(x,x)=x', 'g(x)=g(x)', 'g(x)=y', 'load a = b', 'clear=', 'clearx', 'clear ',
       'table x;1;2;0', 'table x+y;1;2;1', 'table x;a;2;1', 'table x;1;2;1 fold z;0', 'table );1;2;1', 'table x;1;2;1 fold 1/(y-y);0', 'table x;1;2;1 fold x', 'sin()', ',', '1 , 2', '@', 'mod', 'help operators 2)', ' = ', 'p = 1/0', '&', '1 & 2', '"'}
TABLE = {'table x;1;3;1 fold x+y;0': ([(1, 1), (2, 2), (3, 3)], 6), 'table 2*x;1;2;1': ([(1, 2), (2, 4)], None), 'table 7;1;2;1': ([(1, 7), (2, 7)], None), 'table x ; 2 ; 1 ; 0.5': ([(2, 2), (1.5, 1.5), (1, 1)], None), 'table x;1;1;1 fold x-y;3': ([(1, 1)], 2)}
HELP = {'help', 'help operators', 'license'}


def table_text(rows):
    """printed table of a non-interactive table command, blanks collapsed"""
    return [('%.10f %.10f' % r) for r in rows]


class Quit(Exception):
    pass


class RefCalc:
    def __init__(self, files=None):
        self.m, self.h, self.files = {}, [], files or {}
        self.out = []      # list of ('line', text) / ('any', command)
        self.fails = 0

    def copy(self):
        r = RefCalc(self.files)
        r.m, r.h, r.out, r.fails = dict(self.m), list(self.h), list(self.out), self.fails
        return r

    def knows(self, c):
        return c in NUM or c in SYM or c in DEF or c in HIST or c in BAD or c in TABLE or c in HELP or c == 'clear' or c.startswith(('clear ', 'load ')) or re.fullmatch(r'[a-z]+\([\d,]*\)|k|c', c)

    def run(self, c):
        """verdict of one command line"""
        if c in DEF:
            d = DEF[c]
            if d is None or d[0] in self.m:
                return 0
            self.m[d[0]] = d[1:]
            return 1
        if c == 'table x;1;2;1 fold 1/(y-y);0':
            self.out += [('row', t) for t in table_text([(1, 1), (2, 2)])]
            return 0
        if c in BAD:
            return 0
        if c in NUM:
            return self.result(NUM[c])
        if c in HIST:
            try:
                return self.result(HIST[c](self.h))
            except IndexError:
                return 0
        if c in HELP:
            self.out.append(('any', c))
            return 1
        if c in TABLE:
            rows, fold = TABLE[c]
            self.out += [('row', t) for t in table_text(rows)]
            if fold is not None:
                self.out.append(('line', 'Fold result: %g' % fold))
                self.h.insert(0, float(fold))
            return 1
        if c == 'clear':
            self.m.clear()
            return 1
        if c.startswith('clear ') and c[6:] in self.m:
            del self.m[c[6:]]
            return 1
        if c.startswith('clear '):
            return 0
        if c.startswith('load '):
            f = self.files.get(c[5:])
            if f is None:
                return 0
            return self.lines(f)
        m = re.fullmatch(r'([a-z]+)\(([\d,]*)\)|([kc])', c)
        if m:
            n = m.group(1) or m.group(3)
            if n in self.m:
                a = [float(x) for x in m.group(2).split(',')] if m.group(2) else []
                if len(a) != self.m[n][0]:
                    return 0
                return self.result(self.m[n][1](*a))
            if m.group(3):
                self.out.append(('line', n))
                return 1
            if not m.group(2):
                return 0
            if ',' in m.group(2):
                return 0
            self.out.append(('line', '%s*%s' % (n, m.group(2))))
            return 1
        if c in SYM and self.m.get(c.strip(), (1,))[0] == 0:
            return self.result(self.m[c.strip()][1]())
        if c in SYM:
            self.out.append(('line', SYM[c]))
            return 1
        raise KeyError(c)

    def result(self, v):
        self.h.insert(0, float(v))
        self.out.append(('line', '%g' % v))
        return 1

    def lines(self, lines):
        """process input lines; verdict 1 when every command succeeded; Quit(verdict) on quit"""
        ok = 1
        for l in lines:
            l = l.split('\n')[0]
            if l == 'quit':
                raise Quit(ok)
            if l == '' or l[0] == '#':
                continue
            try:
                v = self.run(l)
            except Quit as q:
                raise Quit(q.args[0])
            if not v:
                ok = 0
                self.fails += 1
        return ok


def agrees(want, text):
    """does printed text consist of exactly the expected outputs, in order?"""
    got = text.split('\n')
    if got and got[-1] == '':
        got.pop()
    i = 0
    for k, (kind, t) in enumerate(want):
        if kind == 'any':
            # a help page: at least one line, up to the next expected line
            j = i + 1
            if k + 1 == len(want):
                i = len(got) if j <= len(got) else len(got) + 1
                continue
            nxt = want[k + 1]
            if nxt[0] == 'any':
                i = j
                continue
            while j < len(got) and norm(got[j]) != nxt[1]:
                j += 1
            i = j
            continue
        if i >= len(got) or norm(got[i]) != t:
            return False
        i += 1
    return i == len(got)


def norm(s):
    return re.sub(r'\s+', ' ', re.sub(r'\x1b\[[0-9;]*m', '', s)).strip()
