"""A printed expression reads back as the same expression."""
import itertools, re
from parsing import *
import p04
from catalog_spec import OPS as CAT

EXPLAIN = """For every operator tree of depth up to three (every parent / child / grandchild choice at every operand position, both operands of binary operators, functions as barriers, leaves varied)
over (a) the calculator's own operators and (b) a context with every order type of precedences and associativities, (c) operators whose names run together, the printer is abstractly interpreted and the text it builds is read
back by abstract interpretation of tokenizer and parser: the tree must be the same (a negative constant reads back as a negated one). The coloured text must be the plain text plus colour codes. The
string buffer's capacity and the release of all intermediate memory are checked on the way."""


def arith_ops():
    use = [('+', 'infix'), ('-', 'infix'), ('*', 'infix'), ('/', 'infix'), ('^', 'infix'), ('C', 'infix'), ('mod', 'infix'), ('-', 'prefix'), ('+', 'prefix'), ('$', 'prefix'), ('@', 'prefix'),
           ('!', 'postfix'), ('%', 'postfix'), ("'", 'postfix'), ('sin', 'function'), ('root', 'function'), ('sum', 'function'), ('pi', 'function')]
    return {k: (CAT[k][0], CAT[k][1], CAT[k][2]) for k in use}


MERGE = {('-', 'infix'): (2, 3, 'left'), ('--', 'infix'): (2, 2, 'left'), ('-', 'prefix'): (1, 5, None), ('!', 'postfix'): (1, 6, None), ('=', 'infix'): (2, 1, 'left'), ('!=', 'infix'): (2, 1, 'left'),
         ('=', 'prefix'): (1, 4, None), ('^', 'infix'): (2, 4, 'right'), ('!-', 'infix'): (2, 3, 'left'), ('sum', 'function'): (None, None, None)}


def nargs(ops, k, j=0):
    a = ops[k][0]
    return a if a is not None else (0, 2, 3)[j % 3]


def trees(ops, thorough, neg):
    leaves = [('v', 'x'), ('c', '2'), ('v', 'ab'), ('c', '1.5'), ('c', '30')] + ([('c', '-3')] if neg else [])
    ks = list(ops)
    cnt = [0]

    def leaf():
        cnt[0] += 1
        return leaves[cnt[0] % len(leaves)]

    def node(k, sub=None, pos=0, j=1):
        n = nargs(ops, k, j)
        return ('o', k[0], k[1], [sub if i == pos and sub is not None else leaf() for i in range(n)])
    for l in leaves:
        yield l
    for k in ks:
        for j in range(3):
            yield node(k, None, 0, j)
    two = []
    for k in ks:
        for pos in range(nargs(ops, k, 1)):
            for c in ks:
                t = node(k, node(c), pos)
                two.append(t)
                yield t
    for k in ks:
        for pos in range(nargs(ops, k, 1)):
            for t in two:
                if (k[1] == 'function') + (t[2] == 'function') >= (2 if thorough else 1) and not (k[0] == 'root' and pos == 0):
                    continue
                yield node(k, t, pos)
    for k in ks:
        if nargs(ops, k, 1) == 2:
            for a in ks:
                for b in ks:
                    yield ('o', k[0], k[1], [node(a), node(b)])
    for neg_ in ([('c', '-3')] if neg else []):
        for k in ks:
            for pos in range(nargs(ops, k, 1)):
                t = node(k, neg_, pos)
                yield t
                for k2 in ks:
                    for p2 in range(nargs(ops, k2, 1)):
                        yield node(k2, t, p2)
    if thorough:
        for k in ks:
            if k[1] == 'function':
                continue
            for pos in range(nargs(ops, k, 1)):
                for t in two[::2]:
                    for k2 in ks:
                        if k2[1] != 'function':
                            yield node(k, node(k2, t, nargs(ops, k2, 1) - 1), pos)


def normal(t):
    """negative constants as negations"""
    if t[0] == 'c':
        v = float(t[1])
        return ('o', '-', 'prefix', [('c', -v)]) if v < 0 else ('c', v)
    if t[0] == 'v':
        return ('v', t[1])
    if t[0] == 'o':
        return ('o', t[1], t[2], [normal(x) for x in t[3]])
    return t


def show_tree(t):
    return t[1] if t[0] in 'cv' else '%s[%s](%s)' % (t[1], t[2], ', '.join(show_tree(x) for x in t[3]))


def work(ctx, items):
    ps = {}
    for which, t in items:
        if which not in ps:
            ps[which] = Parser(ctx, arith_ops(), '*', True) if which == 'a' else Parser(ctx, p04.OPS, '*') if which == 'b' else Parser(ctx, MERGE, None)
            ps[which].I.flat_numbers = True
            ps[which].vars = {n: ps[which].P.lit(ps[which].base, n) for n in ('x', 'ab')}
            ps[which].res = ps[which].P.local(ps[which].base, 'result', size=ctx.mod.sizeof('ParsingResult'))
        p = ps[which]
        S, P, I = p.S, p.P, p.I
        w = S.where('tree_to_str')
        st = p.base.copy()

        def build(st, t):
            if t[0] == 'c':
                return ('c', cf(float(t[1])))
            if t[0] == 'v':
                return ('v', p.vars[t[1]])
            return ('o', p.opptr[(t[1], t[2])], [build(st, x) for x in t[3]])

        def ops_of(t):
            return {(t[1], t[2])} | {k for x in t[3] for k in ops_of(x)} if t[0] == 'o' else set()
        if not ops_of(t) <= set(p.opptr):
            continue
        st, tree = P.tree(st, build(st, t))
        what = 'printing %s' % show_tree(t)
        r = S.call(st, what, 'tree_to_str', tree, FALSE)
        ctx.count('trees')
        if r is None:
            continue
        st, s = r
        txt = I.sid(st, s)
        if txt[0] != 'lit':
            ctx.undecide('%s: text is not determined (%s)' % (what, txt))
            continue
        txt = txt[1]
        r = S.call(st.copy(), 'reading "%s"' % txt, 'parse_input', p.C, s, p.res)
        if r is None:
            continue
        st2, ok = r
        if ok[0] != 'c':
            ctx.undecide('reading "%s": %s' % (txt, ok))
            continue
        if not ok[1] & 1:
            err = p.err.get(P.get(st2, 'ParsingResult', p.res, 'error', 'i32')[1], '?')
            ctx.violation('unreadable', w, '%s gives "%s", which is not read back (%s)' % (show_tree(t), txt, err))
            continue
        got = p.read(st2, P.get(st2, 'ParsingResult', p.res, 'tree', 'ptr'))

        def strip(g):
            return ('o', g[1], g[2], [strip(x) for x in g[3]]) if g[0] == 'o' else g[:2]
        if got[0] == '?' or normal(strip(got)) != normal(t):
            ctx.violation('differs:%s' % which, w, '%s is printed as "%s", which reads as %s' % (show_tree(t), txt, text(got)))
            continue
        ctx.sample('%s => %s' % (show_tree(t), txt))
        ctx.counts['seen'] = ctx.counts.get('seen', 0) + 1
        if ctx.counts['seen'] % 11 == 0:
            r = S.call(st.copy(), what + ' in colour', 'tree_to_str', tree, TRUE)
            if r:
                c = I.sid(r[0], r[1])
                if c[0] == 'lit' and re.sub('\x1b\\[[0-9;]*m', '', c[1]) != txt:
                    ctx.violation('colour', w, '%s: coloured text %r differs from the plain text "%s"' % (show_tree(t), c[1], txt))
            # memory: text and tree are all that is left
            q = S.call(st, what, 'free_tree', tree)
            if q and len(set(I.live(q[0])) - p.base_live()) > 1:
                ctx.violation('leak', w, '%s leaves more than the text allocated' % what)
    ctx.counts.pop('seen', None)
    for p in ps.values():
        ctx.fns |= p.I.visited_fns


def check(ctx):
    ctx.rule('parse(print(t)) = t')
    items = [('a', t) for t in trees(arith_ops(), ctx.thorough, True)]
    if ctx.thorough:
        items += [('b', t) for t in trees(p04.OPS, True, False)]
    else:
        sub = {k: v for k, v in p04.OPS.items() if k not in (('<', 'infix'), ('+', 'infix'), ('&', 'prefix'), ('"', 'postfix'), ('k', 'function'), ('g', 'function'))}
        items += [('b', t) for t in trees(sub, False, False)]
    items += [('c', t) for t in trees(MERGE, False, False)]
    uniq, seen = [], set()
    for i in items:
        k = repr(i)
        if k not in seen:
            seen.add(k)
            uniq.append(i)
    parallel(ctx, work, uniq)
    ctx.need('trees', 1000)
