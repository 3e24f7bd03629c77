"""Pattern matching and rewriting by rules."""
import itertools
from model import *

EXPLAIN = """Patterns and expressions are enumerated: variables, list variables, constants and operators of fixed, variable and zero arity, nested and mixed in every order up to the bound (operands equal to,
different from and containing each other; empty operand lists; the same variable and the same list several times, in one operand list, in nested ones and across them). get_pattern,
get_all_matchings, get_matching, find_matching, apply_rule and apply_ruleset are abstractly interpreted with a recording model of the condition checker. A reference matcher (declarative:
all assignments of trees / runs of consecutive operands under which the instantiated pattern equals the expression and every condition holds) gives the set of assignments; the chosen
subtree must be the first in preorder that has one, and the rewritten expression must be one of its substitutions with everything else, token positions included, unchanged.
Conditions are read as instantiated trees: each one is checked, fully instantiated, for every assignment returned. Heap typestate on every access; nothing but the result stays allocated."""

V = lambda n: ('v', n)
C = lambda x: ('c', x)
O = lambda n, *a: ('o', n, tuple(a))
ARITY = {'f': None, 'g': 2, 'h': 1, 'k': 0, 'T': 1, 'E': 2, 'N': None, 'm': None}
MAXV = 10


def subst(t, b):
    """list of trees standing for t"""
    if t[0] == 'v' and t[1] in b:
        return list(b[t[1]])
    if t[0] == 'o':
        return [('o', t[1], tuple(y for x in t[2] for y in subst(x, b)))]
    return [t]


def matches(p, t, b):
    if p[0] == 'v':
        if p[1] in b:
            if b[p[1]] == (t,):
                yield b
        else:
            yield dict(b, **{p[1]: (t,)})
    elif p[0] == 'c':
        if p == t:
            yield b
    elif t[0] == 'o' and t[1] == p[1]:
        yield from mlist(p[2], t[2], b)


def mlist(ps, ts, b):
    if not ps:
        if not ts:
            yield b
        return
    p = ps[0]
    if p[0] == 'v' and p[1][0] == '[':
        for n in range(len(ts) + 1):
            run = tuple(ts[:n])
            if p[1] in b:
                if b[p[1]] == run:
                    yield from mlist(ps[1:], ts[n:], b)
            else:
                yield from mlist(ps[1:], ts[n:], dict(b, **{p[1]: run}))
    elif ts:
        for c in matches(p, ts[0], b):
            yield from mlist(ps[1:], ts[1:], c)


def holds(c):
    """the conditions used here"""
    a = c[2]
    if c[1] == 'T':
        return len(a) == 1 and a[0][0] == 'c'
    if c[1] == 'E':
        return len(a) == 2 and a[0] == a[1]
    return len(a) <= 2


def solutions(p, cons, t):
    out = []
    for b in matches(p, t, {}):
        if all(holds(subst(c, b)[0]) for c in cons) and b not in out:
            out.append(b)
    return out


def preorder(t, path=()):
    yield path, t
    if t[0] == 'o':
        for k, c in enumerate(t[2]):
            yield from preorder(c, path + (k,))


def replace(t, path, new):
    if not path:
        return new
    a = list(t[2])
    a[path[0]] = replace(a[path[0]], path[1:], new)
    return ('o', t[1], tuple(a))


def rewrite(p, cons, after, t):
    """all admissible results, or None"""
    for path, s in preorder(t):
        sol = solutions(p, cons, s)
        if sol:
            return [replace(t, path, subst(after, b)[0]) for b in sol]
    return None


def show_t(t):
    return t[1] if t[0] == 'v' else str(t[1]) if t[0] == 'c' else '%s(%s)' % (t[1], ','.join(map(show_t, t[2])))


class M:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = S = Suite(ctx)
        self.P, self.I = P, I = S.P, S.I
        mod = ctx.mod
        I.models['@check'] = self.checker
        self.CHK = ('fn', '@check')
        st = P.state()
        self.ops = {n: P.op(st, P.lit(st, n), 'OP_PLACE_FUNCTION', k + 1, (1 << 64) - 1 if a is None else a) for k, (n, a) in enumerate(ARITY.items())}
        self.byptr = {p: n for n, p in self.ops.items()}
        self.names = {n: P.lit(st, n) for n in ['x', 'y', 'z', '[a', '[b', 'p', 'q'] + ['v%d' % k for k in range(12)]}
        self.PAT = P.local(st, 'pattern', size=mod.sizeof('Pattern'))
        self.RULE = P.local(st, 'rule', size=mod.sizeof('RewriteRule'))
        self.ROOT = P.local(st, 'root', size=8)
        self.OUT = P.local(st, 'out', size=8)
        self.MATCH = P.local(st, 'matching', size=mod.sizeof('Matching'))
        self.VEC = P.local(st, 'rules', size=mod.sizeof('Vector'))
        self.CONS = P.local(st, 'conditions', size=8 * 4)
        self.base = st
        self.soff = mod.field('NodeList', 'size')[0]
        self.noff = mod.field('NodeList', 'nodes')[0]
        self.lsz = mod.sizeof('NodeList')

    def checker(self, I, st, fr, inst, args):
        q = I.load(st, args[0], 8, 'ptr')
        t = self.read(st, q)
        self.seen.append(t)
        if t[0] != 'o' or t[1] not in ('T', 'E', 'N'):
            raise AnalysisBroken('condition read as %s' % (t,))
        return [(st, TRUE if holds(t) else FALSE)]

    def build(self, st, t, tok=None):
        """tok: list counter assigning a fresh token index to each node"""
        k = ci(0, 64)
        if tok is not None:
            tok[0] += 1
            k = ci(tok[0], 64)
        P = self.P
        if t[0] == 'c':
            return P.call(st, 'malloc_constant_node', cf(float(t[1])), k)
        if t[0] == 'v':
            return P.call(st, 'malloc_variable_node', self.names[t[1]], ci(0, 64), k)
        st, p = P.call(st, 'malloc_operator_node', self.ops[t[1]], ci(len(t[2]), 64), k)
        for i, c in enumerate(t[2]):
            st, q = self.build(st, c, tok)
            st, _ = P.call(st, 'set_child', p, ci(i, 64), q)
        return st, p

    def conv(self, t):
        if t is None or t[0] not in ('c', 'v', 'o'):
            return ('?', str(t)[:60])
        if t[0] == 'c':
            return ('c', fval(t[1])) if t[1][0] == 'f' else ('?', show(t[1]))
        if t[0] == 'v':
            return ('v', t[1][1]) if t[1][0] == 'lit' else ('?', str(t[1]))
        if not isinstance(t[2], list):
            return ('?', 'children %s' % (t[2],))
        return ('o', self.byptr.get(t[1], '?'), tuple(self.conv(c) for c in t[2]))

    def read(self, st, p):
        return self.conv(self.P.read(st, p))

    def toks(self, st, p):
        r = self.P.call(st.copy(), 'get_token_index', p)[1]
        if self.P.call(st.copy(), 'get_type', p)[1] != ci(self.P.E['NTYPE_OPERATOR'], 32):
            return (r,)
        n = self.P.call(st.copy(), 'get_num_children', p)[1][1]
        return (r,) + tuple(self.toks(st, self.P.call(st.copy(), 'get_child', p, ci(k, 64))[1]) for k in range(n))

    def pattern(self, st, p, cons, what):
        st, q = self.build(st, p)
        for i, c in enumerate(cons):
            st, cq = self.build(st, c)
            self.I.store(st, self.I.ptradd(st, self.CONS, ci(8 * i, 64)), cq, 8)
        r = self.S.call(st, what, 'get_pattern', q, ci(len(cons), 64), self.CONS, self.PAT)
        return r

    def assignment(self, st, m, ids):
        out = {}
        for n, k in ids.items():
            a = self.I.ptradd(st, m, ci(k * self.lsz, 64))
            sz = self.I.load(st, self.I.ptradd(st, a, ci(self.soff, 64)), 8, 'i64')
            nd = self.I.load(st, self.I.ptradd(st, a, ci(self.noff, 64)), 8, 'ptr')
            if sz[0] != 'c' or sz[1] > 40:
                return None
            out[n] = tuple(self.read(st, self.I.load(st, self.I.ptradd(st, nd, ci(8 * i, 64)), 8, 'ptr')) for i in range(sz[1]))
        return out

    def varids(self, st, p):
        """identifiers get_pattern gave to the pattern's variables"""
        out = {}
        for q in self.P.nodes(st, p):
            if self.P.call(st.copy(), 'get_type', q)[1] == ci(self.P.E['NTYPE_VARIABLE'], 32):
                n = self.I.sid(st, self.P.call(st.copy(), 'get_var_name', q)[1])[1]
                out[n] = self.P.call(st.copy(), 'get_id', q)[1]
        return out


def norm(t):
    return ('c', float(t[1])) if t[0] == 'c' else t if t[0] == 'v' else ('o', t[1], tuple(map(norm, t[2])))


def text_b(b):
    return '{%s}' % ', '.join('%s=[%s]' % (k, ' '.join(map(show_t, v))) for k, v in sorted(b.items()))


def case(m, p, cons, t):
    S, P, I = m.S, m.P, m.I
    ctx = m.ctx
    what = 'pattern %s%s, expression %s' % (show_t(p), ' where ' + ' ; '.join(map(show_t, cons)) if cons else '', show_t(t))
    r = m.pattern(m.base.copy(), p, cons, what)
    if r is None or not S.same('get_pattern', 'result', what, r[1], ci(0, 32)):
        return
    st = r[0]
    patp = P.get(st, 'Pattern', m.PAT, 'pattern', 'ptr')
    ids = {n: v[1] for n, v in m.varids(st, patp).items() if v[0] == 'c'}
    st, root = m.build(st, t, [0])
    I.store(st, m.ROOT, root, 8)
    live = set(I.live(st))
    m.seen = []
    p, t, cons = norm(p), norm(t), [norm(c) for c in cons]
    want = solutions(p, cons, t)
    r = S.call(st.copy(), what, 'get_all_matchings', m.ROOT, m.PAT, m.CHK, m.OUT)
    ctx.count('matchings')
    if r is None:
        return
    s, n = r
    if n[0] != 'c' or n[1] > 200:
        ctx.undecide(what + ': number of matchings %s' % (n,))
        return
    arr = I.load(s, m.OUT, 8, 'ptr')
    got = []
    for k in range(n[1]):
        b = m.assignment(s, I.ptradd(s, arr, ci(k * ctx.mod.sizeof('Matching'), 64)), ids)
        if b is None:
            ctx.undecide(what)
            return
        got.append(b)
    for b in want:
        if b not in got:
            ctx.violation('get_all_matchings:missing', S.where('get_all_matchings'), '%s: the matching %s is not found' % (what, text_b(b)))
            return
    for b in got:
        if b not in want:
            ctx.violation('get_all_matchings:wrong', S.where('get_all_matchings'), '%s: %s is returned as a matching' % (what, text_b(b)))
            return
        # every condition is put to the checker, instantiated by this assignment
        for c in cons:
            if subst(c, b)[0] not in m.seen:
                ctx.violation('get_all_matchings:condition', S.where('get_all_matchings'), '%s: condition %s is not checked for %s' % (what, show_t(c), text_b(b)))
                return
    left = set(I.live(s)) - live
    if len(left) > 1:
        ctx.violation('get_all_matchings:leak', S.where('get_all_matchings'), '%s: %d blocks besides the result remain allocated' % (what, len(left) - 1))
    r = S.call(st.copy(), what, 'get_matching', m.ROOT, m.PAT, m.CHK, m.MATCH)
    if r is None:
        return
    s, v = r
    if S.same('get_matching', 'result', what, v[1] & 1 if v[0] == 'c' else v, int(bool(want))) and want:
        b = m.assignment(s, m.MATCH, ids)
        if b is not None and b not in want:
            ctx.violation('get_matching:wrong', S.where('get_matching'), '%s: %s is returned' % (what, text_b(b)))
    if set(I.live(s)) - live:
        ctx.violation('get_matching:leak', S.where('get_matching'), '%s: memory remains allocated' % what)
    if len(ctx.samples) < 5 and want:
        ctx.sample('%s => %s' % (what, ' '.join(map(text_b, want))))


def rule_case(m, p, cons, after, t):
    S, P, I = m.S, m.P, m.I
    ctx = m.ctx
    what = 'rule %s -> %s%s, expression %s' % (show_t(p), show_t(after), ' where ' + ' ; '.join(map(show_t, cons)) if cons else '', show_t(t))
    r = m.pattern(m.base.copy(), p, cons, what)
    if r is None or r[1] != ci(0, 32):
        return
    st, a = m.build(r[0], after)
    r = S.call(st, what, 'get_rule', m.PAT, a, m.RULE)
    if r is None or not S.same('get_rule', 'result', what, r[1][1] & 1 if r[1][0] == 'c' else r[1], 1):
        return
    live0 = set(I.live(r[0]))
    st, root = m.build(r[0], t, [0])
    I.store(st, m.ROOT, root, 8)
    m.seen = []
    pn, tn, cn, an = norm(p), norm(t), [norm(c) for c in cons], norm(after)
    want = rewrite(pn, cn, an, tn)
    before = m.toks(st, root)
    # which subtree is found
    r = S.call(st.copy(), what, 'find_matching', m.ROOT, m.PAT, m.CHK, m.MATCH)
    ctx.count('rewrites')
    if r is None:
        return
    path = next((q for q, s in preorder(tn) if solutions(pn, cn, s)), None)
    addr = NULL
    if path is not None:
        addr, q = m.ROOT, root
        for k in path:
            addr = P.call(st.copy(), 'get_child_addr', q, ci(k, 64))[1]
            q = P.call(st.copy(), 'get_child', q, ci(k, 64))[1]
    if not S.same('find_matching', 'subtree', what, r[1], addr):
        return
    r = S.call(st.copy(), what, 'apply_rule', m.ROOT, m.RULE, m.CHK)
    if r is None:
        return
    s, v = r
    if not S.same('apply_rule', 'result', what, v[1] & 1 if v[0] == 'c' else v, int(want is not None)):
        return
    new = I.load(s, m.ROOT, 8, 'ptr')
    got = m.read(s, new)
    if want is None:
        S.same('apply_rule', 'unchanged', what, [got, m.toks(s, new)], [tn, before])
    elif got not in want:
        if '?' in str(got):
            ctx.violation('apply_rule:broken', S.where('apply_rule'), '%s: the result is not a complete tree: %s' % (what, show_t(got)))
        else:
            ctx.violation('apply_rule:rewritten', S.where('apply_rule'), '%s: rewritten to %s, expected %s' % (what, show_t(got), ' or '.join(map(show_t, want))))
        return
    else:
        sol = solutions(pn, cn, dict(preorder(tn))[path])
        exp = [tok_replace(tn, before, path, tok_subst(an, b, tok_at(before, path), tn, before, path)) for b in sol]
        tk = m.toks(s, new)
        if not any(tok_ok(tk, e) for e in exp):
            ctx.violation('apply_rule:positions', S.where('apply_rule'), '%s: the token positions of the result are %s' % (what, short(tk)))
            return
    # nothing lost
    r = S.call(s, what, 'free_tree', new)
    if r and set(I.live(r[0])) - live0:
        ctx.violation('apply_rule:leak', S.where('apply_rule'), '%s: %d blocks are neither part of the result nor released' % (what, len(set(I.live(r[0])) - live0)))
    if r and live0 - set(I.live(r[0])):
        ctx.violation('apply_rule:shared', S.where('apply_rule'), '%s: the result shares memory with the rule' % what)


ANY = ('any',)


def tok_at(tk, path):
    for k in path:
        tk = tk[1 + k]
    return tk[0]


def tok_replace(t, tk, path, new):
    if not path:
        return new
    return tk[:1 + path[0]] + (tok_replace(t[2][path[0]], tk[1 + path[0]], path[1:], new),) + tk[2 + path[0]:]


def tok_any(t):
    return (ANY,) + (tuple(tok_any(c) for c in t[2]) if t[0] == 'o' else ())


def tok_subst(after, b, tok, tn, before, path):
    """positions: nodes of the right-hand side get that of the replaced tree, copies keep theirs (any equal occurrence)"""
    if after[0] == 'v' and after[1] in b:
        return tok_any(b[after[1]][0]) if len(b[after[1]]) == 1 else None
    if after[0] == 'o':
        out = [tok]
        for c in after[2]:
            if c[0] == 'v' and c[1] in b:
                out += [tok_any(x) for x in b[c[1]]]
            else:
                out.append(tok_subst(c, b, tok, tn, before, path))
        return tuple(out)
    return (tok,)


def tok_ok(g, e):
    if len(g) != len(e):
        return False
    return (e[0] is ANY or g[0] == e[0]) and all(tok_ok(a, b) for a, b in zip(g[1:], e[1:]))


p_, q_ = V('p'), V('q')
x, y, z, LA, LB = V('x'), V('y'), V('z'), V('[a'), V('[b')


def trees(thorough):
    leaf = [p_, C(1), O('h', p_)]
    out = [p_, C(1), C(2), O('k'), O('h', p_), O('h', C(1)), O('h', O('k')), O('g', p_, p_), O('g', p_, q_), O('g', C(1), C(2)), O('g', O('h', p_), p_)]
    for n in range(4):
        for a in itertools.product(leaf[:3] if n < 3 else leaf[:2], repeat=n):
            out.append(O('f', *a))
    out += [O('f', p_, q_, p_, q_), O('f', p_, p_, p_, p_), O('f', q_, p_, p_, q_), O('f', C(1), p_, C(2), p_, C(1)), O('m', p_), O('m')]
    out += [O('f', O('f', p_, q_), O('f', p_, q_)), O('f', O('f', p_), p_), O('f', p_, O('f', p_)), O('g', O('f', p_, q_), O('f', p_, q_)), O('g', O('f', p_, q_), O('f', q_)), O('g', O('f'), O('f')),
            O('g', O('f', p_), O('f', p_, q_)), O('f', q_, O('f', p_, q_), p_), O('f', O('f'), O('f')), O('h', O('f', p_, q_)), O('h', O('h', O('h', p_))), O('f', O('g', p_, q_), O('g', p_, q_)),
            O('f', O('g', p_, C(1)), C(2), O('g', p_, C(2))), O('g', O('g', p_, q_), O('g', q_, p_)), O('f', O('h', p_), O('h', q_), O('h', p_))]
    return out


def patterns(thorough):
    out = [x, C(1), O('k'), O('h', x), O('h', C(1)), O('h', O('h', x)), O('g', x, y), O('g', x, x), O('g', C(1), x), O('g', O('h', x), x), O('g', x, O('h', x)), O('g', O('g', x, y), O('g', y, x)),
           O('f'), O('m', LA)]
    elems = [x, LA, C(1), y] if not thorough else [x, LA, C(1), y, O('h', x), LB]
    for n in (1, 2, 3):
        for a in itertools.product(elems, repeat=n):
            out.append(O('f', *a))
    out += [O('f', LA, x, LB), O('f', LA, LB), O('f', LA, LB, LA), O('f', LA, x, LB, x), O('f', LA, x, LA), O('f', x, LA, y, LB), O('f', LA, O('h', x), LB, O('h', x)), O('f', LA, O('h', x), O('h', y)),
            O('f', O('f', LA), O('f', LA)), O('f', O('f', LA), LA), O('f', LA, O('f', LA)), O('g', O('f', LA), O('f', LA)), O('g', O('f', LA), O('f', LB)), O('f', LA, O('f', LB), LA), O('f', O('f', LA), LB),
            O('f', LA, O('g', x, y), LB, O('g', x, z)), O('f', LA, O('f', x, LB)), O('g', O('f', x, LA), O('f', x, LA)), O('f', LA, x, x, LB), O('f', O('g', LA, x), LB)]
    return list(dict.fromkeys(out))


T = lambda a: O('T', a)
E = lambda a, b: O('E', a, b)
N = lambda *a: O('N', *a)
RULES = [(O('g', x, y), [], O('g', y, x)), (O('h', x), [], x), (O('f', LA, x, x, LB), [], O('f', LA, O('h', x), LB)), (O('f', LA, O('h', x)), [], O('g', O('f', LA), O('f', x, LA, x))), (O('f', LA), [], O('m', LA, LA)),
         (O('f', LA), [], O('k')), (C(1), [], C(2)), (x, [T(x)], O('h', x)), (O('f', LA, x, LB), [T(x)], O('f', x, LA, LB)), (O('g', x, y), [E(x, y)], O('m', x, O('m', x))), (O('f', x, LA), [N(x, LA)], O('m', LA, x)),
         (O('f', O('f', LA), LB), [], O('f', LA, LB)), (O('f', LA, x, LB), [E(O('h', p_), O('h', p_)), T(x)], O('m', x)), (O('k'), [], O('f')), (O('f', p_), [], O('h', O('h', O('h', p_)))), (O('g', x, y), [T(x), T(y), E(x, y)], x),
         (O('f', LA, x), [], O('f', O('g', x, C(1)), LA, O('f', LA), C(2)))]
CONS = [(O('g', x, y), [T(x)]), (O('g', x, y), [T(y)]), (O('g', x, y), [T(x), T(y)]), (O('g', x, y), [E(x, y)]), (O('g', x, y), [E(y, x), T(x)]), (O('f', LA, x, LB), [T(x)]), (O('f', LA, x, LB), [N(LA)]),
        (O('f', LA, x, LB), [N(LB)]), (O('f', LA, x, LB), [N(LA, LB)]), (O('f', LA, x, LB, y), [E(x, y)]), (O('f', LA, x, LB), [N(LA), T(x), N(LB)]), (O('f', LA, x), [N(LA, x), T(x), N(LA)]), (x, [T(x)]), (LA, [N(LA)]),
        (O('f', O('g', x, y), LA), [E(O('h', x), O('h', y))]), (O('f', LA, O('h', x), LB), [N(LA, LB), E(x, x)]), (O('f', x, LA), [N(x, O('h', x), LA)]), (O('g', y, x), [T(x), E(x, O('h', y))])]


def check(ctx):
    ctx.rule('matchings = assignments making pattern and expression equal under all conditions; rewriting = substitution at the first matching subtree')
    T_ = ctx.thorough
    items = [('m', p, (), t) for p in patterns(T_) for t in trees(T_)]
    items += [('m', p, tuple(c), t) for p, c in CONS for t in trees(T_)]
    extra = [O('h', O('f', p_, p_, q_)), O('f', O('h', O('g', p_, p_)), O('g', q_, q_)), O('g', O('k'), O('f', C(1), O('k'))), O('m', O('f', p_, O('h', q_)), O('f', O('h', q_), O('h', p_))), O('m', p_, O('m', O('m', O('g', p_, q_)), O('g', q_, p_)))]
    items += [('r', p, tuple(c), a, t) for p, c, a in RULES for t in trees(T_) + extra if T_ or not (t[0] == 'o' and len(t[2]) == 3 and hash_(t) % 2)]
    parallel(ctx, work, items)
    limits(ctx)
    rulesets(ctx)
    ctx.need('matchings', 3000)
    ctx.need('rewrites', 500)


def hash_(t):
    return sum(map(ord, str(t)))


def work(ctx, items):
    m = M(ctx)
    for it in items:
        (case if it[0] == 'm' else rule_case)(m, it[1], list(it[2]), *it[3:])
    ctx.fns |= m.I.visited_fns


def limits(ctx):
    """numbers of variables and conditions; unbound variables"""
    m = M(ctx)
    S, P, I = m.S, m.P, m.I
    for n in (9, 10, 11, 12):
        pat = O('f', *[V('v%d' % k) for k in range(n)])
        what = 'pattern with %d variables' % n
        r = m.pattern(m.base.copy(), pat, [], what)
        ctx.count('limits')
        if r is None:
            continue
        v = r[1]
        if not S.same('get_pattern', 'accepted', what, v == ci(0, 32) if v[0] == 'c' else v, n <= MAXV):
            continue
        if n <= MAXV:
            st, root = m.build(r[0], O('f', *[O('h', p_) if k % 2 else C(1) for k in range(n)]))
            I.store(st, m.ROOT, root, 8)
            m.seen = []
            q = S.call(st, what, 'get_all_matchings', m.ROOT, m.PAT, m.CHK, m.OUT)
            if q:
                S.same('get_all_matchings', 'count', what, q[1], ci(1, 64))
    for n in (3, 4):
        what = '%d conditions on the same variable' % n
        r = m.pattern(m.base.copy(), O('h', x), [T(x)] * n, what)
        ctx.count('limits')
        if r:
            S.same('get_pattern', 'accepted', what, r[1] == ci(0, 32) if r[1][0] == 'c' else r[1], n <= 3)
    for pat, after, ok in [(O('g', x, y), y, True), (O('g', x, y), z, False), (O('g', x, y), O('f', x, O('h', z)), False), (O('f', LA), O('f', LB), False), (O('k'), C(1), True), (O('k'), x, False),
                           (O('f', *[V('v%d' % k) for k in range(10)]), O('f', *[V('v%d' % (9 - k)) for k in range(10)]), True), (O('h', x), O('f', *[V('v%d' % k) for k in range(11)]), False)]:
        what = 'rule %s -> %s' % (show_t(pat), show_t(after))
        r = m.pattern(m.base.copy(), pat, [], what)
        ctx.count('limits')
        if r is None:
            continue
        st, a = m.build(r[0], after)
        r = S.call(st, what, 'get_rule', m.PAT, a, m.RULE)
        if r:
            S.same('get_rule', 'accepted', what, r[1][1] & 1 if r[1][0] == 'c' else r[1], int(ok))


SETS = [[(O('h', x), [], x)], [(O('g', x, y), [T(x)], y), (O('h', x), [], O('g', C(1), x))], [(O('h', O('h', x)), [], O('h', x)), (O('h', x), [], O('g', x, x)), (O('g', x, x), [], x)],
        [(O('f', O('h', x), LA), [], O('f', LA)), (O('f', p_, LA), [], O('f', C(2), LA))], [(C(1), [], C(2)), (C(2), [], O('k'))], [(O('g', x, y), [E(x, y)], O('h', x)), (O('g', x, y), [], O('f', x, y))], []]


def rulesets(ctx):
    m = M(ctx)
    S, P, I = m.S, m.P, m.I
    subj = [p_, C(1), O('h', O('h', O('h', p_))), O('g', O('h', p_), O('h', p_)), O('f', O('h', p_), O('h', q_), C(1)), O('g', C(1), O('g', C(1), p_)), O('f', O('g', p_, p_), O('g', p_, q_), C(1)), O('f', C(1), O('h', C(1)), C(1))]
    for rules in SETS:
        st = m.base.copy()
        live = set(I.live(st))
        r = S.call(st, 'rule set', 'get_empty_ruleset', m.VEC)
        if r is None:
            continue
        st = r[0]
        bad = False
        for p, c, a in rules:
            r = m.pattern(st, p, c, 'rule set')
            if r is None or r[1] != ci(0, 32):
                bad = True
                break
            st, q = m.build(r[0], a)
            r = S.call(st, 'rule set', 'get_rule', m.PAT, q, m.RULE)
            if r is None:
                bad = True
                break
            r = S.call(r[0], 'rule set', 'add_to_ruleset', m.VEC, m.RULE)
            if r is None:
                bad = True
                break
            st = r[0]
        if bad:
            continue
        for t in subj:
            for cap in (1, 2, 3, 50):
                what = 'rules {%s}, at most %d applications, expression %s' % ('; '.join('%s -> %s%s' % (show_t(p), show_t(a), ' where ' + ' ; '.join(map(show_t, c)) if c else '') for p, c, a in rules), cap, show_t(t))
                s, root = m.build(st.copy(), t)
                I.store(s, m.ROOT, root, 8)
                m.seen = []
                cur, cnt = norm(t), 0
                while cnt < cap:
                    for p, c, a in rules:
                        w = rewrite(norm(p), [norm(k) for k in c], norm(a), cur)
                        if w is not None:
                            cur = w[0]
                            cnt += 1
                            break
                    else:
                        break
                if cnt > 20:
                    continue
                r = S.call(s, what, 'apply_ruleset', m.ROOT, m.VEC, m.CHK, ci(cap, 64))
                ctx.count('ruleset_runs')
                if r is None:
                    continue
                got = m.read(r[0], I.load(r[0], m.ROOT, 8, 'ptr'))
                if not S.same('apply_ruleset', 'result', what, got, cur):
                    continue
                S.same('apply_ruleset', 'applications', what, r[1], ci(cnt, 64))
        r = S.call(st.copy(), 'releasing a rule set', 'free_ruleset', m.VEC)
        if r and set(I.live(r[0])) - live:
            ctx.violation('free_ruleset:leak', S.where('free_ruleset'), 'releasing a set of %d rules leaves %d blocks' % (len(rules), len(set(I.live(r[0])) - live)))
