"""An operator context is a map from (name, placement) to operators."""
import itertools
from model import *

EXPLAIN = """From the empty context every history of additions and deletions up to the length bound over a universe of operators covering every relation between two operators (same name and placement,
same name in another placement, one name prefix of the other, same / different precedence with same / different associativity, word names and symbol names), and longer histories that add the
whole universe, delete every subset pattern and add again, are abstractly interpreted. After each step acceptance, lookup of every (name, placement) - which operator, all its fields, and its
address, which must not change while the operator exists -, distinctness of identifiers, the number of registered operators, the keywords the tokenizer recognises and the implicit operator
are compared with a reference map. Rejected additions must change nothing. Destroying the context releases everything (heap typestate)."""

PLS = ['prefix', 'infix', 'postfix', 'function']
PLC = {'infix': 'OP_PLACE_INFIX', 'prefix': 'OP_PLACE_PREFIX', 'postfix': 'OP_PLACE_POSTFIX', 'function': 'OP_PLACE_FUNCTION'}
NAMES = ['<', '<<', 'f', 'fo', '']
ADD = [('<', 'infix', 1, 'left', 2), ('<', 'infix', 1, 'right', 2), ('<<', 'infix', 1, 'left', 2), ('<<', 'infix', 1, 'right', 2), ('<<', 'infix', 2, 'right', 2), ('<<', 'prefix', 1, 'right', 1),
       ('<<', 'postfix', 1, 'right', 1), ('<<', 'function', 255, 'left', 1), ('f', 'function', 255, 'left', 1), ('f', 'function', 255, 'left', 2), ('fo', 'function', 255, 'left', 0), ('f', 'prefix', 3, 'left', 1), ('f', 'infix', 3, 'left', 2)]
DEL = [('<', 'infix'), ('<<', 'infix'), ('<<', 'prefix'), ('<<', 'postfix'), ('<<', 'function'), ('f', 'function'), ('fo', 'function'), ('f', 'prefix'), ('f', 'infix')]


class H:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = S = Suite(ctx)
        self.P, self.I = P, I = S.P, S.I
        mod = ctx.mod
        st = P.state()
        self.C = P.local(st, 'context', size=mod.sizeof('ParsingContext'))
        self.V = P.local(st, 'tokens', size=mod.sizeof('Vector'))
        self.lit = {n: P.lit(st, n) for n in NAMES}
        self.src = P.lit(st, '<<<1<<f 2fo<+')
        self.opp = {}
        for a in ADD:
            n, pl, pr, assoc, ar = a
            self.opp[a] = P.op(st, self.lit[n], PLC[pl], ('sym', 'id'), ar, pr, 'OP_ASSOC_' + assoc.upper())
        self.before = set(I.live(st))
        r = S.call(st, 'create', 'ctx_create', self.C)
        self.base = r[0] if r else None
        self.koff = mod.field('ParsingContext', 'keywords_trie')[0]
        self.goff, self.gsz = mod.field('ParsingContext', 'glue_op')

    def step(self, st, ref, o, what):
        """ref: (name, placement) -> (op, address, id)"""
        S, P = self.S, self.P
        if o[0] == 'add':
            a = o[1]
            n, pl, pr, assoc, ar = a
            r = S.call(st, what, 'ctx_add_op', self.C, self.opp[a])
            if r is None:
                return None
            s, p = r
            ok = (n, pl) not in ref and not (pl == 'infix' and any(k[1] == 'infix' and v[0][2] == pr and v[0][3] != assoc for k, v in ref.items()))
            if not S.same('ctx_add_op', 'accepted', what, p != NULL, ok):
                return None
            if ok:
                ref = dict(ref)
                ref[(n, pl)] = (a, p, P.get(s, 'Operator', p, 'id'))
            return s, ref
        n, pl = o[1]
        r = S.call(st, what, 'ctx_delete_op', self.C, self.lit[n], ci(self.P.E[PLC[pl]], 32))
        if r is None:
            return None
        s, v = r
        v = v[1] & 1 if v[0] == 'c' else v
        if not S.same('ctx_delete_op', 'result', what, v, int((n, pl) in ref)):
            return None
        if (n, pl) in ref:
            ref = dict(ref)
            del ref[(n, pl)]
        return s, ref

    def observe(self, st, ref, what):
        S, P, I = self.S, self.P, self.I
        for n in NAMES:
            for pl in PLS:
                r = S.call(st.copy(), what, 'ctx_lookup_op', self.C, self.lit[n], ci(P.E[PLC[pl]], 32))
                if r is None:
                    return False
                s, p = r
                w = '%s; lookup of %s "%s"' % (what, pl, n)
                e = ref.get((n, pl))
                if not S.same('ctx_lookup_op', 'address' if e else 'present', w, p, e[1] if e else NULL):
                    return False
                if e:
                    a = e[0]
                    g = [I.sid(s, P.get(s, 'Operator', p, 'name', 'ptr')), P.get(s, 'Operator', p, 'arity'), P.get(s, 'Operator', p, 'precedence'), P.get(s, 'Operator', p, 'assoc'), P.get(s, 'Operator', p, 'placement'), P.get(s, 'Operator', p, 'id')]
                    x = [I.sid(s, self.lit[n]), ci(a[4], 64), ci(a[2], 8), ci(P.E['OP_ASSOC_' + a[3].upper()], 32), ci(P.E[PLC[pl]], 32), e[2]]
                    if not S.same('ctx_lookup_op', 'fields', w, g, x):
                        return False
        ids = [v[2] for v in ref.values()]
        if len(set(ids)) != len(ids):
            self.ctx.violation('ctx_add_op:ids', S.where('ctx_add_op'), '%s: two operators share an identifier (%s)' % (what, ', '.join('%s:%s' % (k[0], show(v[2])) for k, v in ref.items())))
            return False
        r = S.call(st.copy(), what, 'tokenize', self.V, self.src, self.P.I.ptradd(st, self.C, ci(self.koff, 64)))
        if r is None:
            return False
        s = r[0]
        n = S.call(s.copy(), what, 'vec_count', self.V)[1]
        got = []
        for k in range(n[1] if n[0] == 'c' else 0):
            q = S.call(s, what, 'vec_get', self.V, ci(k, 64))
            got.append(I.sid(q[0], I.load(q[0], q[1], 8, 'ptr'))[1])
        words = {k[0] for k in ref}
        want, src, k = [], '<<<1<<f 2fo<+', 0
        while k < len(src):
            m = max([w for w in words if w and src.startswith(w, k) and not w[0].isalpha()] + [''], key=len)
            e = k + max(1, len(m))
            if src[k].isalpha():
                while e < len(src) and src[e].isalpha():
                    e += 1
            want.append(src[k:e])
            k = e
        return S.same('tokenize', 'keywords', '%s; tokens of "%s"' % (what, src), got, want)

    def finish(self, st, what):
        r = self.S.call(st, what, 'ctx_destroy', self.C)
        if r is None:
            return
        left = set(self.I.live(r[0])) - self.before
        if left:
            self.ctx.violation('ctx_destroy:leak', self.S.where('ctx_destroy'), '%s: destroying the context leaves %d blocks allocated' % (what, len(left)))


def txt(o):
    return ('+' if o[0] == 'add' else '-') + ' '.join(str(x) for x in o[1][:4])


def work(ctx, items):
    h = H(ctx)
    if h.base is None:
        return
    cache = {(): (h.base, {})}
    for hist in items:
        for k in range(1, len(hist) + 1):
            pre = tuple(hist[:k])
            if pre in cache:
                continue
            par = cache[pre[:-1]]
            if par is None:
                cache[pre] = None
                continue
            what = 'history %s' % ', '.join(txt(o) for o in pre)
            st, ref = par
            r = h.step(st.copy(), ref, pre[-1], what)
            ctx.count('histories')
            if r is not None and not h.observe(r[0], r[1], what):
                r = None
            cache[pre] = r
            if r is not None and (len(pre) == len(hist)):
                h.finish(r[0].copy(), what)
                ctx.sample('%s => %s' % (what, ' '.join('%s/%s' % k for k in r[1])))
    ctx.fns |= h.I.visited_fns


def check(ctx):
    ctx.rule('lookup, identifiers, keywords and acceptance as in a map keyed by (name, placement); infix operators of equal precedence share their associativity')
    ops = [('add', a) for a in ADD] + [('del', d) for d in DEL]
    n = 4 if ctx.thorough else 3
    hist = []

    def useful(pre, o):
        # prune: deleting what was never added only matters once, as first effect of its kind
        if o[0] == 'del' and not any(x[0] == 'add' and x[1][:2] == o[1] for x in pre):
            return len(pre) <= 1
        return True

    def rec(pre):
        if len(pre) == n:
            hist.append(tuple(pre))
            return
        for o in ops:
            if useful(pre, o):
                rec(pre + [o])
    rec([])
    if ctx.thorough:
        hist = [h for k, h in enumerate(hist) if len({x for x in h}) == len(h) or k % 7 == 0]
    else:
        # third step: everything after a deletion, additions after two additions when they interact
        def keep(h):
            a, b, c = h
            if 'del' in (a[0], b[0]):
                return True
            names = {x[1][0] for x in h}
            return c[0] == 'del' or len(names) <= 2
        hist = [h for h in hist if keep(h)]
    long = []
    base = [('add', a) for k, a in enumerate(ADD) if k not in (1, 3, 9)]
    for stride in range(1, 6):
        for off in range(stride):
            d = [('del', x) for x in DEL[off::stride]]
            long.append(tuple(base + d + base[::-1] + [('del', DEL[off])] + base))
    hist.sort()
    # keep histories with common prefixes together
    groups = {}
    for h in hist:
        groups.setdefault(h[:2], []).append(h)
    items = list(groups.values()) + [[l] for l in long]
    items.sort(key=len)
    parallel(ctx, lambda c, part: work(c, [h for g in part for h in g]), items)
    glue(ctx)
    ctx.need('histories', 1000)


def glue(ctx):
    h = H(ctx)
    S, P, I = h.S, h.P, h.I
    for ar, ok in ((0, False), (1, False), (2, True), (3, False), ((1 << 64) - 1, True)):
        st = h.base.copy()
        o = P.op(st, h.lit['f'], 'OP_PLACE_FUNCTION', 0, ar, 255)
        r = S.call(st, 'add', 'ctx_add_op', h.C, o)
        if r is None:
            continue
        st, p = r
        r = S.call(st, 'implicit operator with %d operands' % ar, 'ctx_set_glue_op', h.C, p)
        ctx.count('histories')
        if r is None:
            continue
        v = r[1][1] & 1 if r[1][0] == 'c' else r[1]
        if S.same('ctx_set_glue_op', 'accepted', 'implicit operator with %d operands' % ar, v, int(ok)):
            S.same('ctx_set_glue_op', 'value', 'implicit operator with %d operands' % ar, P.get(r[0], 'ParsingContext', h.C, 'glue_op', 'ptr'), p if ok else NULL)
            r = S.call(r[0], 'no implicit operator', 'ctx_set_glue_op', h.C, NULL)
            if r:
                S.same('ctx_set_glue_op', 'value', 'implicit operator removed', [r[1][1] & 1, P.get(r[0], 'ParsingContext', h.C, 'glue_op', 'ptr')], [1, NULL])
    r = S.call(h.base.copy(), 'implicit operator without context', 'ctx_set_glue_op', NULL, NULL)
    if r:
        S.same('ctx_set_glue_op', 'accepted', 'no context', r[1][1] & 1, 0)
    # several at once: all up to the first that is not accepted
    for k in range(4):
        seq = [ADD[0], ADD[2], ADD[8], ADD[10]]
        if k:
            seq[k] = seq[k - 1]
        st = h.base.copy()
        I.top_at = [('ptr', '', 8), ('i64', '', 8)] + [('ptr', 'byval', ctx.mod.sizeof('Operator'))] * 4
        r = S.call(st, 'adding several operators', 'ctx_add_ops', h.C, ci(4, 64), *[h.opp[a] for a in seq])
        ctx.count('histories')
        if r is None:
            continue
        s, v = r
        if not S.same('ctx_add_ops', 'result', 'operators %s' % [a[:2] for a in seq], v[1] & 1 if v[0] == 'c' else v, int(not k)):
            continue
        for i, a in enumerate(seq):
            q = S.call(s.copy(), 'lookup', 'ctx_lookup_op', h.C, h.lit[a[0]], ci(P.E[PLC[a[1]]], 32))
            if q:
                S.same('ctx_add_ops', 'added', 'operator %s of %s' % (a[0], [x[:2] for x in seq]), q[1] != NULL, not k or seq.index(a) < k)
