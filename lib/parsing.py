"""Parser harness: contexts, token lists and reading of parsed trees."""
from model import *
from refparse import *

PL = {'infix': 'OP_PLACE_INFIX', 'prefix': 'OP_PLACE_PREFIX', 'postfix': 'OP_PLACE_POSTFIX', 'function': 'OP_PLACE_FUNCTION'}
DYN = (1 << 64) - 1


class Parser:
    def __init__(self, ctx, ops, glue, arith=False):
        """context with the given operators; arith: the calculator's own context"""
        self.ctx = ctx
        self.S = Suite(ctx)
        self.P, self.I = self.S.P, self.S.I
        self.ref = Ref(ops, glue)
        mod = ctx.mod
        st = self.P.state()
        if arith:
            self.arith_ctx(st, ops)
            return
        self.C = self.P.local(st, 'context', size=mod.sizeof('ParsingContext'))
        st, _ = self.P.call(st, 'ctx_create', self.C)
        self.opid = {}
        for (n, pl), (ar, pr, assoc) in ops.items():
            o = self.P.op(st, self.P.lit(st, n), PL[pl], 0, DYN if ar is None else ar, 255 if pl == 'function' else pr, 'OP_ASSOC_RIGHT' if assoc == 'right' else 'OP_ASSOC_LEFT')
            st, r = self.P.call(st, 'ctx_add_op', self.C, o)
            if r == NULL:
                raise AnalysisBroken('operator %s not accepted' % n)
            self.opid[r] = (n, pl)
        if glue:
            p = next(q for q, k in self.opid.items() if k == (glue, 'infix'))
            st, _ = self.P.call(st, 'ctx_set_glue_op', self.C, p)
        self.rest(st, ops)

    def arith_ctx(self, st, ops):
        ex = self.P.run(st, 'init_arith_ctx')
        if len(ex) != 1:
            raise AnalysisBroken('init_arith_ctx: %d paths' % len(ex))
        st = ex[0].state
        st.ev = None
        self.C = ('p', ('glob', '__g_ctx'), 0)
        self.opid = {}
        for n, pl in ops:
            st, r = self.P.call(st, 'ctx_lookup_op', self.C, self.P.lit(st, n), ci(self.ctx.mod.enumconst[PL[pl]], 32))
            if r != NULL:
                self.opid[r] = (n, pl)
        self.rest(st, ops)

    def rest(self, st, ops):
        mod = self.ctx.mod
        self.opptr = {k: p for p, k in self.opid.items()}
        self.lits = {}
        self.OUT = self.P.local(st, 'out', 'undef', 8)
        self.ERRT = self.P.local(st, 'errtok', 'undef', 8)
        for (n, pl) in ops:
            self.lits.setdefault(n, self.P.lit(st, n))
        for n in ('1', '2', '3', '4', '5', 'x', 'y', 'z', '(', ')', ',', '{', '}', '.', ' ', '  ', '1.5', '#'):
            self.lits.setdefault(n, self.P.lit(st, n))
        self.base = st
        self.err = {v: k for k, v in mod.enumconst.items() if k.startswith('PERR_')}

    def tokens(self, st, toks):
        p = self.P.local(st, 'tokens', size=max(8, 8 * len(toks)))
        for k, t in enumerate(toks):
            if t not in self.lits:
                self.lits[t] = self.P.lit(self.base, t)
                st.mem[self.lits[t][1]] = dict(self.base.mem[self.lits[t][1]])
            self.I.store(st, self.I.ptradd(st, p, ci(8 * k, 64)), self.lits[t], 8)
        return p

    def read(self, st, p, depth=0):
        t = self.P.read(st, p)
        return self.conv(st, p, t)

    def conv(self, st, p, t):
        if t is None or t[0] not in ('c', 'v', 'o'):
            return ('?', str(t), None)
        tok = self.P.call(st.copy(), 'get_token_index', p)[1]
        tok = tok[1] if tok[0] == 'c' else tok
        if t[0] == 'c':
            return ('c', fval(t[1]) if t[1][0] == 'f' else t[1], tok)
        if t[0] == 'v':
            return ('v', t[1][1], tok)
        n, pl = self.opid.get(t[1], ('?%s' % (t[1],), '?'))
        if not isinstance(t[2], list):
            return ('?', str(t), None)
        return ('o', n, pl, [self.conv(st, self.P.call(st.copy(), 'get_child', p, ci(k, 64))[1], c) for k, c in enumerate(t[2])], tok)

    @staticmethod
    def same(got, want, tok=True):
        if got[0] != want[0]:
            return False
        if tok and want[-1] is not None and got[-1] != want[-1]:
            return False
        if got[0] == 'c':
            return got[1] == float(want[1])
        if got[0] == 'v':
            return got[1] == want[1]
        return got[0] == 'o' and got[1:3] == want[1:3] and len(got[3]) == len(want[3]) and all(Parser.same(a, b, tok) for a, b in zip(got[3], want[3]))

    def run(self, toks, out=True):
        """(state, error name, tree pointer, error token) or None"""
        st = self.base.copy()
        tp = self.tokens(st, toks)
        what = 'tokens %s' % ' '.join(toks)
        r = self.S.call(st, what, 'parse_tokens', self.C, ci(len(toks), 64), tp, self.OUT if out else NULL, self.ERRT)
        if r is None:
            return None
        s, e = r
        if e[0] != 'c':
            self.ctx.undecide('%s: error code undetermined' % what)
            return None
        name = self.err.get(e[1], '?')
        return s, name.replace('PERR_', ''), self.I.load(s, self.OUT, 8, 'ptr') if out else NULL, self.I.load(s, self.ERRT, 8, 'i64')

    def base_live(self):
        return set(self.I.live(self.base))
