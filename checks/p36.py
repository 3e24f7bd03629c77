"""Tables are drawn as aligned grids."""
import random, re
from session import *
from grid import Grid, judge, plain, width, ANSI

EXPLAIN = """The table library is abstractly interpreted through its own interface: tables are built by sequences of calls (cells of one and several lines, with and without colour sequences, empty, missing and longer rows; column, row and
cell alignments; lines above rows and left of columns, for whole rows and columns and overridden for single cells; boxes; areas that span columns and rows, also where they meet cells that are already set; free positioning) and printed. The sequence alone,
through a reference layout, says what the drawing has to be: a grid with every line of equal display width, every cell's text complete and in its place, aligned as asked, lines where they were asked for and crossings that join exactly the
lines that meet. Where spanning areas leave a choice of sizes, every choice that holds all cells is accepted. Printing twice gives the same drawing, releasing the table releases everything. The tables the calculator itself draws (value tables with
every kind of value and header, help pages, composite functions) are taken from interpreted commands and must be such grids too."""

TEXTS = ['a', ' bb ', 'ccc\nd', '', '\n', '\x1b[1mxy\x1b[0m', 'eeeeeeee', ' 12.5 ', 'q\nrr\nsss', None, '\x1b[92m long \x1b[0m\nz', 'pos', '20 °C\nü', '\x1b[47m\x1b[22;30mtwo\x1b[0m\x1b[1m fold\x1b[0m']


class Script:
    """a call sequence together with the grid it describes"""
    def __init__(self):
        self.ops, self.g = [], Grid()

    def __call__(self, op, *a):
        g = self.g
        self.ops.append((op,) + a)
        {'pos': g.set_position, 'next': g.next_row, 'add': g.add, 'fmt': g.add, 'array': self.array, 'ha': lambda l: g.aligns(l, None), 'va': lambda l: g.aligns(None, l), 'h': g.h, 'v': g.v, 'hrow': g.h_row, 'vrow': g.v_row,
         'hline': g.hline, 'vline': g.vline, 'vlines': g.vlines, 'boxed': g.boxed, 'left': g.left, 'above': g.above, 'span': g.span}[op](*a)

    def array(self, w, h, texts):
        for y in range(h):
            for x in range(w):
                self.g.add(texts[y * w + x])
            self.g.next_row()

    def show(self):
        return ', '.join('%s(%s)' % (o[0], ', '.join(map(repr, o[1:]))) for o in self.ops)


def free(g, sx, sy):
    return all(g.y + i >= len(g.rows) or not g.rows[g.y + i][g.x + j].set for i in range(sy) for j in range(sx))


def generate(r, level):
    """level 0: whole-row and -column settings, 1: single-cell borders, 2: spans, 3: spans that clash"""
    do = Script()
    g = do.g
    if r.random() < .6:
        do('ha', [r.randrange(3) for _ in range(r.randrange(1, 6))])
    if r.random() < .5:
        do('va', [r.randrange(3) for _ in range(r.randrange(1, 6))])
    rows, cols = r.randrange(1, 5), r.randrange(1, 5)
    if r.random() < .15:
        w, h = r.randrange(1, 4), r.randrange(1, 3)
        do('array', w, h, [r.choice(TEXTS) or '-' for _ in range(w * h)])
    for y in range(rows):
        for p, op in ((.2, 'hrow'), (.2, 'vrow'), (.4, 'hline')):
            if r.random() < p:
                do(op, r.randrange(3))
        for x in range(cols if r.random() < .7 else r.randrange(0, 6)):
            if g.x >= 6:
                break
            for p, op in ((.2, 'h'), (.2, 'v')) + (((.15, 'left'), (.15, 'above')) if level else ()):
                if r.random() < p:
                    do(op, r.randrange(3))
            if level > 1 and r.random() < .3:
                sx, sy = r.randrange(1, 4), r.randrange(1, 4)
                if level > 2 or free(g, sx, sy):
                    do('span', sx, sy)
            do('fmt' if r.random() < .3 else 'add', r.choice(TEXTS))
        if r.random() < .3:
            do('vline', r.randrange(0, 7), r.randrange(3))
        if y < rows - 1 or r.random() < .4:
            do('next')
    if r.random() < .3:
        do('pos', r.randrange(0, 4), r.randrange(0, 5))
    if not g.cur().set and r.random() < .5:
        do('add', 'pos')
    if r.random() < .4:
        do('vlines', r.randrange(3))
    if r.random() < .5:
        do('boxed', r.randrange(3))
    return do


def fixed():
    """every setting alone on a small table, and the widest and emptiest ones"""
    T = ['a', 'bb\nc', ' long cell ', '\x1b[1mred\x1b[0m', '', 'x\ny\nz']
    def base(do, n=3, m=2):
        for y in range(m):
            for x in range(n):
                do('add', T[(y * n + x) % 6])
            if y < m - 1:
                do('next')
    for op in ('h', 'v', 'hrow', 'vrow', 'hline', 'left', 'above'):
        for s in range(3):
            for x in range(3):
                for y in range(2):
                    do = Script()
                    base(do)
                    do('pos', x, y)
                    do(op, s)
                    yield 'setting %s' % op, do
    for s in range(3):
        for i in range(5):
            do = Script()
            base(do)
            do('vline', i, s)
            yield 'setting vline', do
        for t in range(3):
            for fin in (False, True):
                do = Script()
                base(do, 2 + t, 3)
                do('vlines', t)
                do('pos', 0, 1)
                do('hline', t)
                if fin:
                    do('next')
                    do('next')
                do('boxed', s)
                yield 'box', do
    do = Script()
    yield 'empty', do
    do = Script()
    do('next')
    do('next')
    yield 'empty rows', do
    do = Script()
    base(do, 11, 2)
    yield 'all columns', do
    do = Script()
    base(do, 10, 1)
    do('vlines', 1)
    do('boxed', 2)
    yield 'widest box', do
    for n in range(1, 10):
        do = Script()
        do('span', n, 1)
        do('add', 'first')
        do('span', 10 - n, 1)
        do('add', ' second, longer than the first ')
        do('next')
        do('hline', 1)
        for k in range(5):
            do('span', 2, 1)
            do('add', 'x' * k)
        do('next')
        do('vline', n, 1)
        do('boxed', 1)
        yield 'spans in columns', do
    for v in range(3):
        for sx in range(1, 4):
            for sy in range(1, 4):
                do = Script()
                do('v', v)
                do('h', v)
                do('span', sx, sy)
                do('add', '1\n22\n333')
                for k in range(sy):
                    do('add', 'side %d' % k)
                    if k % 2:
                        do('hline', 1 + k % 2)
                    do('next')
                do('vline', 1, 1)
                do('boxed', 2)
                yield 'area', do
    # an area that meets cells already there
    for sx in range(1, 4):
        for sy in range(1, 4):
            for x in range(0, 3):
                for y in range(0, 3):
                    if (x, y) != (0, 0):
                        do = Script()
                        do('pos', x, y)
                        do('add', 'there')
                        do('pos', 0, 0)
                        do('span', sx, sy)
                        do('add', 'area\nof cells')
                        do('add', 'next')
                        yield 'meeting', do


class Drawer(Session):
    def array(self, st, vals, size):
        p = self.P.local(st, 'arr', size=max(1, len(vals)) * size)
        for k, v in enumerate(vals):
            st.mem[p[1]][k * size] = (size, v)
        return p

    def perform(self, st, do, what):
        r = self.call(st, what, 'get_empty_table')
        if r is None:
            return None
        st, t = r
        I32 = lambda k: ci(k, 32)
        I64 = lambda k: ci(k, 64)
        for o in do.ops:
            op, a = o[0], o[1:]
            if op == 'pos' or op == 'span':
                c = ('set_position' if op == 'pos' else 'set_span', I64(a[0]), I64(a[1]))
            elif op == 'next':
                c = ('next_row',)
            elif op in ('add', 'fmt') and a[0] is None:
                c = ('add_empty_cell',)
            elif op == 'add':
                c = ('add_cell', self.P.lit(st, enc(a[0])))
            elif op == 'fmt':
                c = ('add_cell_fmt', self.P.lit(st, '%s'), self.P.lit(st, enc(a[0])))
            elif op == 'array':
                c = ('add_cells_from_array', I64(a[0]), I64(a[1]), self.array(st, [self.P.lit(st, enc(x)) for x in a[2]], 8))
            elif op == 'ha':
                c = ('set_default_alignments', I64(len(a[0])), self.array(st, [I32(x) for x in a[0]], 4), NULL)
            elif op == 'va':
                c = ('set_default_alignments', I64(len(a[0])), NULL, self.array(st, [I32(x) for x in a[0]], 4))
            elif op == 'vline':
                c = ('set_vline', I64(a[0]), I32(a[1]))
            else:
                c = ({'h': 'override_horizontal_alignment', 'v': 'override_vertical_alignment', 'hrow': 'override_horizontal_alignment_of_row', 'vrow': 'override_vertical_alignment_of_row', 'hline': 'set_hline',
                      'vlines': 'set_all_vlines', 'boxed': 'make_boxed', 'left': 'override_left_border', 'above': 'override_above_border'}[op], I32(a[0]))
            r = self.call(st, what, c[0], t, *c[1:])
            if r is None:
                return None
            st = r[0]
        return st, t

    def drawn(self, st, t, what):
        st = st.copy()
        st.ev = None
        r = self.call(st, what, 'print_table', t)
        if r is None:
            return None
        st = r[0]
        if self.streams(st) - {'stdout'}:
            self.ctx.violation('stream', self.where('print_table'), '%s: the table is not written to standard output only' % what)
            return None
        return st, decode(self.text(st, 'stdout'))


def enc(s):
    return s.encode('utf-8').decode('latin1')


def decode(s):
    try:
        return s.encode('latin1').decode('utf-8')
    except (UnicodeEncodeError, UnicodeDecodeError):
        return s


def values(ctx, items):
    """tables the calculator draws"""
    S = Session(ctx)
    if S.base is None:
        return
    base = S.cmds(S.base, ['f(x)=x+1', 'g(first, second, third)=first*second-third', 'averyveryverylongname(x)=x^2', 'k=5', '6*7'], 'earlier commands')
    if base is None:
        return
    for inter, text in items:
        what = '"%s"%s' % (text, ' (interactive)' if inter else '')
        r = S.cmd(S.interactive(base, inter), text, what)
        if r is None:
            continue
        out = decode(r[2])
        ctx.count('tables of the calculator')
        lines = plain(out.split('\n')[:-1])
        if text.startswith('table'):
            if lines and 'Fold result' in lines[-1]:
                lines.pop()
            ws = {len(l) for l in lines}
            if len(ws) > 1:
                ctx.violation('value table', S.where('fprint_table'), '%s: lines of %s columns' % (what, sorted(ws)))
                continue
            # every column right-aligned: the cells of all rows end at the same places, one blank behind the last
            ends = {tuple(m.end() for m in re.finditer(r'\S+', l)) for l in lines[1 if inter else 0:]}
            if len(ends) > 1:
                ctx.violation('value table', S.where('fprint_table'), '%s: the columns of the rows end at different places: %s' % (what, sorted(ends)))
            for l in lines:
                if not l.endswith(' ') or (l.rstrip() and not l[len(l.rstrip()):] == ' '):
                    ctx.violation('value table', S.where('fprint_table'), '%s: line %r does not end in its last cell' % (what, l))
                    break
        else:
            # a table is a block of two or more lines without a heading
            blocks = [x.split('\n') for x in (out if text.endswith('operators') else '\n\n'.join([out.split('\n\n')[0]] + out.split('User-defined functions and constants:\n')[1:])).split('\n\n')]
            for b in blocks:
                b = [l for l in plain(b) if l and not l.endswith(':')]
                ws = {len(l) for l in b}
                if len(ws) > 1:
                    n = max(ws)
                    ctx.violation('help:%s' % text, S.where('fprint_table'), '%s: a table has lines of %s columns: %r' % (what, sorted(ws), [l for l in b if len(l) != n][:1]))
                ctx.count('lines of help tables', len(b))
    ctx.fns |= S.I.visited_fns


def library(ctx, items):
    S = Drawer(ctx, init=False)
    for label, seed, level in items:
        if absint.late():
            ctx.undecide('out of time')
            return
        if seed is None:
            do = FIXED[level][1]
        else:
            do = generate(random.Random(seed), level)
        what = '%s: %s' % (label, do.show())
        what = what[:500]
        st = S.P.state()
        r = S.perform(st, do, what)
        if r is None:
            continue
        st, t = r
        d = S.drawn(st, t, what)
        if d is None:
            continue
        ctx.count('tables')
        bad = judge(do.g, d[1])
        if bad:
            ctx.violation('grid:%s' % label, S.where('fprint_table'), '%s: %s' % (what, bad))
            continue
        e = S.drawn(d[0], t, what + ', printed again')
        if e and e[1] != d[1]:
            ctx.violation('again:%s' % label, S.where('fprint_table'), '%s: the second printing differs from the first' % what)
        r = S.call(e[0] if e else d[0], what, 'free_table', t)
        if r and S.I.live(r[0]):
            ctx.violation('leak', S.where('free_table'), '%s: %d heap block(s) are not released with the table' % (what, len(S.I.live(r[0]))))
        ctx.count('lines', d[1].count('\n'))
        if len(ctx.samples) < 6 and seed is not None and seed % 41 == 0:
            ctx.sample('%s => %s' % (what[:300], d[1][:200]))
    ctx.fns |= S.I.visited_fns


FIXED = list(fixed())


def work(ctx, items):
    lib = [i[1:] for i in items if i[0] == 'lib']
    val = [i[1:] for i in items if i[0] == 'val']
    if lib:
        library(ctx, lib)
    if val:
        values(ctx, val)


def check(ctx):
    ctx.rule('the printed lines are a drawing of the grid the calls describe: equal display width, complete cells in place, alignments, lines and crossings')
    items = [('lib', l, None, k) for k, (l, _) in enumerate(FIXED)]
    n = 16000 if ctx.thorough else 2600
    items += [('lib', 'generated', s, (s * 7) % 4) for s in range(n)]
    exprs = ['x', '1/x', 'x*x*x*x*x*x', '0-x*x*x*x*x', 'averyveryverylongname(x)', 'f(x)+g(x,k,2)', '7', 'sqrt(x)', 'x*1000000000000', '0.0000001*x', 'foo_bar+1', 'x^2-x+averyveryverylongname(x)*averyveryverylongname(x)']
    rng = ['1;3;1', '1;101;1', '-2;2;1', '8;12;1', '95;105;5', '3;1;0.5', '0;0;1', '-1000;1000;500', '100000;300000;100000']
    for k, e in enumerate(exprs):
        for j, b in enumerate(rng):
            for inter in (False, True):
                if ctx.thorough or (k + j) % 3 == int(inter):
                    items.append(('val', inter, 'table %s;%s%s' % (e, b, ' fold x+y;0' if (k + j) % 4 == 0 else '')))
    for h in ('help', '?', 'help operators'):
        for inter in (False, True):
            items.append(('val', inter, h))
    random.Random(1).shuffle(items)
    parallel(ctx, work, items)
    ctx.need('tables', 300)
    ctx.need('tables of the calculator', 30)
