"""Reference grammar and grouping, written independently of the parser.

Tokens: strings.  Ops: {(name, placement): (arity, precedence, assoc)}; arity None = any number.
"""
OPEN, CLOSE, DELIM = ('(', '{'), (')', '}'), (',',)


def is_num(t):
    try:
        float(t)
        return t not in ('nan', 'inf', 'infinity')
    except ValueError:
        return False


def letter(c):
    return c.isascii() and (c.isalpha() or c in '_[]')


class Err(Exception):
    def __init__(self, kind, tok, also=()):
        self.kind, self.tok, self.also = kind, tok, also


class Ref:
    def __init__(self, ops, glue):
        self.ops, self.glue = ops, glue

    def has(self, t, pl):
        return (t, pl) in self.ops

    def scan(self, toks):
        """left-to-right recogniser: list of items (kind, token, index, ...) or the first error"""
        toks_i = [(t, i) for i, t in enumerate(toks) if t[0] != ' ']
        n = len(toks)
        items = []
        frames = []          # ['(', index] | ['fn', name, count, index, used]
        want = True
        arity = None
        k = 0
        while k < len(toks_i):
            t, i = toks_i[k]
            if want and frames and t not in CLOSE:
                frames[-1][-1] = True
            if not want:
                if not (t in CLOSE or t in DELIM or self.has(t, 'infix') or self.has(t, 'postfix')):
                    if self.glue is None:
                        raise Err('EXPECTED_INFIX', i)
                    items.append(('infix', self.glue, i, True))
                    want = True
                    continue
            if want:
                if t in OPEN:
                    frames.append(['(', i, False])
                    items.append(('(', t, i))
                elif t in CLOSE:
                    if frames and frames[-1][0] == 'fn' and not frames[-1][-1]:
                        f = frames.pop()
                        self.arity(f, 0)
                        items.append((')', t, i))
                        want = False
                    else:
                        raise Err('UNEXPECTED_CLOSING_PAREN', i)
                elif t in DELIM:
                    raise Err('UNEXPECTED_DELIMITER', i)
                elif self.has(t, 'function'):
                    if self.ops[(t, 'function')][0] == 0:
                        items.append(('const', t, i))
                        want = False
                    else:
                        k += 1
                        if k == len(toks_i):
                            raise Err('EXPECTED_PARAM_LIST', n)
                        if toks_i[k][0] not in OPEN:
                            raise Err('EXPECTED_PARAM_LIST', toks_i[k][1])
                        frames.append(['fn', t, 0, i, False])
                        items.append(('fn', t, i))
                        items.append(('(', toks_i[k][0], toks_i[k][1]))
                elif self.has(t, 'prefix'):
                    items.append(('prefix', t, i))
                elif is_num(t):
                    items.append(('num', t, i))
                    want = False
                elif self.has(t, 'infix') or self.has(t, 'postfix'):
                    raise Err('UNEXPECTED_INFIX', i)
                elif letter(t[0]):
                    items.append(('var', t, i))
                    want = False
                else:
                    raise Err('UNEXPECTED_CHARACTER', i)
            elif t in CLOSE:
                if not frames:
                    raise Err('UNEXPECTED_CLOSING_PAREN', i)
                f = frames.pop()
                if f[0] == 'fn':
                    self.arity(f, f[2] + 1)
                items.append((')', t, i))
            elif t in DELIM:
                if not frames or frames[-1][0] != 'fn':
                    raise Err('UNEXPECTED_DELIMITER', i)
                frames[-1][2] += 1
                items.append((',', t, i))
                want = True
            elif self.has(t, 'infix'):
                items.append(('infix', t, i, False))
                want = True
            else:
                items.append(('postfix', t, i))
            k += 1
        if want:
            raise Err('UNEXPECTED_END_OF_EXPR', n)
        if frames:
            raise Err('EXCESS_OPENING_PAREN', n)
        return items

    def arity(self, f, n):
        a = self.ops[(f[1], 'function')][0]
        if a is not None and a != n:
            raise Err('FUNCTION_WRONG_ARITY', f[3])

    # ---- grouping: operator x binds into the right operand of pending operator t iff it binds tighter (or equally and to the right)
    def binds(self, x, t):
        if t is None:
            return True
        px, pt = x[0], t
        return px > pt or (px == pt and x[1] == 'right')

    def parse(self, toks):
        self.it = self.scan(toks)
        self.p = 0
        r = self.expr(None)
        assert self.p == len(self.it), (toks, self.it, self.p)
        return r

    def expr(self, pending):
        """pending: precedence of the operator whose right operand is being read (None inside parentheses)"""
        k = self.it[self.p]
        self.p += 1
        if k[0] == 'prefix':
            o = self.ops[(k[1], 'prefix')]
            left = ('o', k[1], 'prefix', [self.expr(o[1])], k[2])
        elif k[0] == 'num':
            left = ('c', k[1], k[2])
        elif k[0] == 'var':
            left = ('v', k[1], k[2])
        elif k[0] == 'const':
            left = ('o', k[1], 'function', [], k[2])
        elif k[0] == '(':
            left = self.expr(None)
            self.p += 1
        else:
            args = []
            self.p += 1
            while self.it[self.p][0] != ')':
                args.append(self.expr(None))
                if self.it[self.p][0] == ',':
                    self.p += 1
            self.p += 1
            left = ('o', k[1], 'function', args, k[2])
        while self.p < len(self.it):
            k = self.it[self.p]
            if k[0] == 'infix':
                o = self.ops[(k[1], 'infix')]
                if not self.binds(o[1:], pending):
                    break
                self.p += 1
                left = ('o', k[1], 'infix', [left, self.expr(o[1])], None if k[3] else k[2])
            elif k[0] == 'postfix':
                o = self.ops[(k[1], 'postfix')]
                if not self.binds((o[1], 'left'), pending):
                    break
                self.p += 1
                left = ('o', k[1], 'postfix', [left], k[2])
            else:
                break
        return left


def text(t):
    if t is None:
        return '-'
    if t[0] in ('c', 'v'):
        return str(t[1])
    if t[0] != 'o':
        return str(t)
    return '%s[%s](%s)' % (t[1], t[2], ', '.join(text(x) for x in t[3]))
