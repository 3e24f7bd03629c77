"""What a table has to look like: reference layout of the table library, independent of how the printer proceeds."""
import itertools, re

MAXC = 11
ANSI = re.compile('\x1b[^m]*m')
# lines leaving a crossing point, clockwise from above: 1, right 2, below 4, left 8
SINGLE = {0: ' ', 1: ' ', 2: ' ', 4: ' ', 8: ' ', 3: '└', 5: '│', 6: '┌', 7: '├', 9: '┘', 10: '─', 11: '┴', 12: '┐', 13: '┤', 14: '┬', 15: '┼'}
DOUBLE = {0: ' ', 1: ' ', 2: ' ', 4: ' ', 8: ' ', 3: '╚', 5: '║', 6: '╔', 7: '╠', 9: '╝', 10: '═', 11: '╩', 12: '╗', 13: '╣', 14: '╦', 15: '╬'}
H = {0: ' ', 1: '─', 2: '═'}
V = {0: ' ', 1: '│', 2: '║'}


def width(s):
    return len(ANSI.sub('', s))


class Cell:
    def __init__(self):
        self.text, self.set, self.h, self.v, self.left, self.above, self.sx, self.sy, self.owner = None, False, None, None, None, None, 1, 1, None


class Grid:
    """the table a sequence of calls describes"""
    def __init__(self):
        self.rows, self.hl, self.vl, self.ha, self.va, self.n, self.x, self.y = [[Cell() for _ in range(MAXC)]], [0], [0] * MAXC, [0] * MAXC, [0] * MAXC, 0, 0, 0

    def row(self):
        self.rows.append([Cell() for _ in range(MAXC)])
        self.hl.append(0)

    def cur(self):
        return self.rows[self.y][self.x]

    def set_position(self, x, y):
        while len(self.rows) <= y:
            self.row()
        self.x, self.y = x, y

    def next_row(self):
        self.y += 1
        self.x = 0
        if self.y == len(self.rows):
            self.row()
        self.skip()

    def skip(self):
        while self.x < MAXC and self.cur().set:
            self.x += 1

    def add(self, text):
        c = self.cur()
        c.set, c.text = True, text
        self.n = max(self.n, self.x + 1)
        self.skip()

    def aligns(self, h, v):
        for k, a in enumerate(h or []):
            self.ha[k] = a
        for k, a in enumerate(v or []):
            self.va[k] = a

    def h(self, a):
        self.cur().h = a

    def v(self, a):
        self.cur().v = a

    def h_row(self, a):
        for c in self.rows[self.y]:
            c.h = a

    def v_row(self, a):
        for c in self.rows[self.y]:
            c.v = a

    def hline(self, s):
        self.hl[self.y] = s

    def vline(self, i, s):
        self.vl[i] = s
        self.n = max(self.n, i + 1)

    def vlines(self, s):
        for i in range(1, self.n):
            self.vl[i] = s

    def boxed(self, s):
        self.set_position(0, 0)
        self.vline(0, s)
        self.hline(s)
        self.set_position(self.n, len(self.rows) - 1)
        self.vline(self.n, s)
        self.hline(s)

    def left(self, s):
        self.cur().left = s

    def above(self, s):
        self.cur().above = s

    def span(self, sx, sy):
        """the part of the area that is free: as wide as possible in the first row, then as deep as possible"""
        x, y = self.x, self.y
        w = 1
        while w < sx and not self.rows[y][x + w].set:
            w += 1
        d = 1
        while d < sy and (y + d >= len(self.rows) or not any(self.rows[y + d][x + k].set for k in range(w))):
            d += 1
        while len(self.rows) < y + d:
            self.row()
        me = self.cur()
        me.sx, me.sy = w, d
        self.n = max(self.n, x + w)
        for i in range(d):
            for j in range(w):
                if i or j:
                    c = self.rows[y + i][x + j]
                    c.set, c.owner = True, (x, y)
                    if j:
                        c.left = 0
                    if i:
                        c.above = 0

    # ---- layout ----
    def parents(self):
        for y, r in enumerate(self.rows):
            for x in range(self.n):
                c = r[x]
                if c.owner is None:
                    yield x, y, c

    def seps(self):
        """columns and rows that have room for a line in front of them"""
        n, m = self.n, len(self.rows)
        sv = [bool(self.vl[x]) or any(self.rows[y][x].left for y in range(m)) for x in range(n)]
        sh = [bool(self.hl[y]) or any(self.rows[y][x].above for x in range(MAXC)) for y in range(m)]
        return sv, sh

    def needs(self):
        """[(first, last+1, size)] for columns and for rows"""
        sv, sh = self.seps()
        cw, rh = [], []
        for x, y, c in self.parents():
            if c.text is not None and c.set:
                ls = c.text.split('\n')
                cw.append((x, x + c.sx, max(0, max(width(l) for l in ls) - sum(sv[x + 1:x + c.sx]))))
                rh.append((y, y + c.sy, max(0, len(ls) - sum(sh[y + 1:y + c.sy]))))
        return cw, rh

    @staticmethod
    def solve(needs, k):
        """sizes that hold every cell: single ones first, what is missing for wide ones is divided evenly"""
        r = [0] * k
        for a, b, s in needs:
            if b - a == 1:
                r[a] = max(r[a], s)
        low = list(r)
        for a, b, s in needs:
            m = s - sum(r[a:b])
            if m > 0:
                for j in range(b - a):
                    r[a + j] += m // (b - a) + (1 if m % (b - a) > j else 0)
        return r, low

    def trim(self):
        """an empty last column or row only carries the closing line of a box: no line inside of it"""
        if not self.n:
            return
        cw, rh = self.needs()
        if self.solve(cw, self.n)[0][-1] == 0:
            for r in self.rows:
                r[self.n - 1].above = 0
        if self.solve(rh, len(self.rows))[0][-1] == 0:
            for c in self.rows[-1][:self.n]:
                c.left = 0

    def draw(self, w, hh):
        """lines of the drawing for given column widths and row heights"""
        if not self.n:
            return []
        n, m = self.n, len(self.rows)
        sv, sh = self.seps()
        above = lambda x, y: self.rows[y][x].above if self.rows[y][x].above is not None else self.hl[y]
        left = lambda x, y: self.rows[y][x].left if self.rows[y][x].left is not None else self.vl[x]
        A = {(x, y): above(x, y) for x in range(n) for y in range(m)}
        L = {(x, y): left(x, y) for x in range(n) for y in range(m)}
        X = [0]
        for x in range(n):
            X.append(X[-1] + sv[x] + w[x])
        Y = [0]
        for y in range(m):
            Y.append(Y[-1] + sh[y] + hh[y])
        P = [[' '] * X[n] for _ in range(Y[m])]
        for y in range(m):
            for x in range(n):
                if sv[x]:
                    for k in range(hh[y]):
                        P[Y[y] + sh[y] + k][X[x]] = V[L[x, y]]
                if sh[y]:
                    for k in range(w[x]):
                        P[Y[y]][X[x] + sv[x] + k] = H[A[x, y]]
                if sv[x] and sh[y]:
                    q = [L[x, y - 1] if y else 0, A[x, y], L[x, y], A[x - 1, y] if x else 0]
                    i = sum(1 << k for k in range(4) if q[k])
                    P[Y[y]][X[x]] = (DOUBLE if q.count(2) > q.count(1) else SINGLE)[i]
        for x, y, c in self.parents():
            x0, y0 = X[x] + sv[x], Y[y] + sh[y]
            W, D = X[x + c.sx] - x0, Y[y + c.sy] - y0
            ls = c.text.split('\n') if c.text is not None else []
            h = c.h if c.h is not None else self.ha[x]
            v = c.v if c.v is not None else self.va[x]
            off = {0: 0, 1: D - len(ls), 2: (D - len(ls)) // 2}[v]
            for k in range(D):
                # nothing of the lines shines through a wide cell; escape sequences take no room
                s = ls[k - off] if 0 <= k - off < len(ls) else ''
                free = W - width(s)
                p = {0: 0, 1: free, 2: free // 2}[h]
                P[y0 + k][x0:x0 + W] = [' '] * p + split(s) + [' '] * (free - p)
        return [''.join(r) for r in P]


def split(s):
    """one list element per visible character, escape sequences attached"""
    out, pend = [], ''
    for t in re.findall('\x1b[^m]*m|.', s):
        if t[0] == '\x1b':
            if out and t.endswith('[0m'):
                out[-1] += t
            else:
                pend += t
        else:
            out.append(pend + t)
            pend = ''
    if pend:
        if out:
            out[-1] += pend
        else:
            out = ['']
    return out


def plain(lines):
    return [ANSI.sub('', l) for l in lines]


def choices(needs, k, total):
    """all sizes that add up to the total and hold every cell"""
    r, low = Grid.solve(needs, k)
    extra = total - sum(low)
    if extra < 0:
        return
    wide = sorted({i for a, b, _ in needs if b - a > 1 for i in range(a, b)})
    if sum(r) == total:
        yield r
    n = 0
    for cut in itertools.combinations(range(extra + len(wide) - 1), len(wide) - 1) if wide else ():
        n += 1
        if n > 3000:
            return
        t = list(low)
        p = -1
        for i, c in zip(wide, cut + (extra + len(wide) - 1,)):
            t[i] += c - p - 1
            p = c
        if t != r and all(sum(t[a:b]) >= s for a, b, s in needs):
            yield t


def judge(grid, out):
    """None when the drawing is one the table may have, else what is wrong. out: text printed (bytes decoded)"""
    if not grid.n:
        return None if out == '' else 'an empty table prints %r' % out[:80]
    if out and not out.endswith('\n'):
        return 'the last line is not ended'
    got = out.split('\n')[:-1]
    ws = sorted({width(l) for l in got})
    if len(ws) > 1:
        return 'lines of %s columns' % ' and '.join(map(str, ws))
    grid.trim()
    sv, sh = grid.seps()
    cw, rh = grid.needs()
    if not got and not any(sh) and not any(Grid.solve(rh, len(grid.rows))[0]):
        return None
    want = None
    for w in choices(cw, grid.n, (ws[0] if ws else 0) - sum(sv)):
        for h in choices(rh, len(grid.rows), len(got) - sum(sh)):
            d = grid.draw(w, h)
            if plain(d) == plain(got):
                # colours: every sequence printed, in order, inside the same line
                for a, b in zip(d, got):
                    if ANSI.findall(a) != ANSI.findall(b):
                        return 'line %r has other escape sequences than its cells' % b
                return None
            want = want or d
    if want is None:
        w, h = Grid.solve(cw, grid.n)[0], Grid.solve(rh, len(grid.rows))[0]
        return '%d lines of %d columns, where the cells need %d of %d' % (len(got), ws[0] if ws else 0, sum(h) + sum(sh), sum(w) + sum(sv))
    for k, (a, b) in enumerate(zip(plain(want), plain(got))):
        if a != b:
            return 'line %d is %r, expected %r' % (k + 1, b, a)
    return 'the drawing has %d lines, expected %d' % (len(got), len(want))
