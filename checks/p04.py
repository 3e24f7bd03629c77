"""Operators group by precedence, associativity and placement."""
import itertools
from parsing import *

EXPLAIN = """The parser is abstractly interpreted on operator contexts covering every order type of two operators' precedences (below / equal / above) for every combination of placements and
associativities, on every token sequence up to the bound: all pairs of operands with every prefix/postfix/infix choice, all chains of three and four operands, chains of three with a prefix and a
postfix operator anywhere, juxtaposition (implicit operator), parentheses and function calls as operands. The resulting tree is compared, operator by operator and token index by token
index, with the grouping defined by the reference rule: an operator belongs to the right operand of a pending operator iff it has higher precedence, or equal precedence and associates
to the right. The parser compares precedences only pairwise between the incoming operator and the top of its stack, so all pairs of order types decide longer expressions."""

OPS = {('<', 'infix'): (2, 1, 'left'), ('+', 'infix'): (2, 3, 'left'), ('*', 'infix'): (2, 4, 'left'), ('^', 'infix'): (2, 5, 'right'),
       ('-', 'infix'): (2, 3, 'left'), ('-', 'prefix'): (1, 4, None), ('$', 'prefix'): (1, 0, None), ('@', 'prefix'): (1, 5, None), ('&', 'prefix'): (1, 6, None),
       ('%', 'postfix'): (1, 4, None), ('!', 'postfix'): (1, 5, None), ("'", 'postfix'): (1, 2, None), ('"', 'postfix'): (1, 7, None),
       ('f', 'function'): (1, None, None), ('g', 'function'): (2, None, None), ('h', 'function'): (None, None, None), ('k', 'function'): (0, None, None)}


def sequences(thorough):
    inf = ['<', '+', '*', '^', '']
    pre = ['', '-', '$', '@', '&']
    post = ['', '%', '!', "'", '"']
    xs = ['x', '2', 'y', '3', 'z']

    def build(parts):
        """parts: (prefixes, operand, postfixes, infix)"""
        out = []
        for p, o, q, i in parts:
            out += [t for t in p if t] + (o if isinstance(o, list) else [o]) + [t for t in q if t] + ([i] if i else [])
        return out
    # one operand with chains of prefix / postfix operators
    for a in pre:
        for b in pre:
            for c in post:
                for d in post:
                    yield build([((a, b), 'x', (c, d), '')])
    # two operands, everything
    for p1, q1, i, p2, q2 in itertools.product(pre, post, inf, pre, post):
        if i == '' and p2 == '-':
            continue      # reads as infix
        if not thorough and sum(1 for t in (p1, q1, p2, q2) if t) > 2:
            continue
        yield build([((p1,), 'x', (q1,), i), ((p2,), '2', (q2,), '')])
    # chains
    for n in (3, 4, 5) if thorough else (3, 4):
        for ch in itertools.product(inf, repeat=n - 1):
            yield build([((), xs[k], (), ch[k] if k < n - 1 else '') for k in range(n)])
    # three operands, one prefix and one postfix anywhere
    for i1, i2 in itertools.product(inf, repeat=2):
        for a, pa in [(None, '')] + [(k, p) for k in range(3) for p in pre[1:]]:
            for b, qb in [(None, '')] + [(k, q) for k in range(3) for q in post[1:]]:
                if pa and a and (i1, i2)[a - 1] == '' and pa == '-':
                    continue
                if not thorough and pa and qb and '' in (i1, i2):
                    continue
                yield build([((pa,) if a == k else (), xs[k], (qb,) if b == k else (), (i1, i2, '')[k]) for k in range(3)])
    # structured operands
    inner = [['x'], ['x', '+', '2'], ['-', 'x'], ['x', '!'], ['x', '^', '2']]
    opnd = []
    for e in inner:
        opnd += [['('] + e + [')'], ['f', '('] + e + [')'], ['g', '('] + e + [',', 'y', ')'], ['h', '(', 'y', ','] + e + [',', '3', ')'], ['{'] + e + ['}']]
    opnd += [['k'], ['h', '(', ')'], ['h', '(', 'x', ')'], ['f', '(', '(', 'x', '+', '2', ')', ')'], ['f', '(', 'g', '(', 'x', ',', 'f', '(', 'y', ')', ')', ')'], ['g', '(', 'f', '(', 'x', ')', ',', '(', 'y', ')', ')'],
             ['(', '(', '(', 'x', ')', ')', ')'], ['h', '(', 'h', '(', ')', ',', 'h', '(', 'k', ')', ')']]
    for o in opnd:
        yield o
        for i in inf:
            yield ['2'] + ([i] if i else []) + o
            yield o + ([i] if i else []) + ['y']
        for p in pre[1:]:
            yield [p] + o
            yield [p] + o + ['^', '2']
        for q in post[1:]:
            yield o + [q]
            yield ['2', '^'] + o + [q]
    for a in opnd[::3]:
        for b in opnd[::4]:
            yield a + ['*'] + b
            if b[0] != '-':
                yield a + b
    # operands: words are variables, digits are numbers
    for w in ['info', 'nanny', 'infx', 'infinit', 'infinityx', 'nano', 'nan_', 'Info', 'INFO', 'NaNa', '_inf', '[nan', 'e', 'E', 'i', 'n', 'xinf', 'd', 'fx', 'F', 'h_', '[f', 'ff', 'a]',
              '0', '00', '1.', '.5', '007', '1.50', '12345678901234567890', '0.0', '100000.25']:
        for q in ([], ['+', 'x'], ['!'], ['^', w], ['y']):
            yield [w] + q
            yield ['-', w] + q
            yield ['2', '*', w] + q
            yield ['f', '(', w] + q + [')']
            if w[0] not in '0123456789.':
                yield ['2', w] + q
    yield ['  ', 'x', ' ', '+', '  ', 'f', ' ', '(', 'y', ' ', ')', ' ']


def work(ctx, seqs):
    p = Parser(ctx, OPS, '*')
    w = p.S.where('parse_tokens')
    for toks in seqs:
        want = p.ref.parse(toks)
        r = p.run(toks)
        ctx.count('expressions')
        if r is None:
            continue
        s, err, tree, et = r
        src = ' '.join(toks)
        if err != 'SUCCESS':
            ctx.violation('rejected:%s' % err, w, 'the well-formed expression "%s" is rejected (%s)' % (src, err))
            continue
        got = p.read(s, tree)
        if not p.same(got, want, False):
            ctx.violation('grouping', w, '"%s" is grouped as %s, expected %s' % (src, text(got) if got[0] != '?' else got, text(want)))
        elif not p.same(got, want, True):
            ctx.violation('token', w, '"%s": a node does not carry the index of its token (%s instead of %s)' % (src, got, want))
        ctx.sample('%s => %s' % (src, text(want)))
    ctx.fns |= p.I.visited_fns


def check(ctx):
    ctx.rule('tree(parse(s)) = reference grouping of s, including token indices')
    seqs = list(dict.fromkeys(tuple(s) for s in sequences(ctx.thorough)))
    parallel(ctx, work, seqs)
    ctx.need('expressions', 500)
