"""Building and reading the program's data through its own interface, inside the abstract interpreter."""
from heap import *
import ir
from ir import deep


class ProgFault(AnalysisBroken):
    """a call that must succeed ends in a memory fault on every path"""
    def __init__(self, fn, fault):
        AnalysisBroken.__init__(self, '%s(): %s' % (fn, fault[0]))
        self.fn, self.fault = fn, fault


class Prog:
    """one interpreter plus helpers; every helper works on a State"""

    def __init__(self, mod, models=None, **kw):
        self.mod = mod
        self.I = HInterp(mod, models, **kw)
        self.E = mod.enumconst
        self.k = 0
        self.level = 0      # a model may call back

    def state(self, globals_=True):
        st = State()
        if globals_:
            self.I.init_globals(st)
        return st

    # ---- calls
    def run(self, st, fn, *args):
        """all returning exits"""
        if not self.level:
            self.I.steps = 0
            self.I.nforks = 0
        self.level += 1
        try:
            return [e for e in self.I.run(fn, list(args), st) if e.kind == 'return']
        finally:
            self.level -= 1

    def call(self, st, fn, *args):
        """deterministic call: (state, value)"""
        ex = self.run(st, fn, *args)
        if not ex and self.I.faults:
            raise ProgFault(fn, self.I.faults[-1])
        if len(ex) != 1:
            raise AnalysisBroken('%s(): %d paths where one is expected%s' % (fn, len(ex), '; ' + self.fault_text() if self.I.faults else ''))
        return ex[0].state, ex[0].ret

    def fault_text(self):
        f = self.I.faults[-1]
        return '%s at %s' % (f[0], f[2].loc if f[2] is not None else '?')

    def local(self, st, name, init='undef', size=None):
        self.k += 1
        r = ('alloca', 'x%d' % self.k, 0, name)
        st.mem[r] = {'default': init}
        st.shared.discard(r)
        if size:
            self.I.alloca_size[r] = ci(size, 64)
        return ('p', r, 0)

    def lit(self, st, s):
        """a literal string in writable memory"""
        p = self.local(st, 'text', size=len(s) + 1)
        for k, c in enumerate(s + '\0'):
            st.mem[p[1]][k] = (1, ci(ord(c) & 255, 8))
        return p

    @staticmethod
    def name(n):
        """an abstract string"""
        return ('p', ('str', n), 0)

    # ---- field access by name
    def get(self, st, struct, p, member, ty=None):
        off, sz = self.mod.field(struct, member)
        return self.I.load(st, self.I.ptradd(st, p, ci(off, 64)), sz, ty or {8: 'i64', 4: 'i32', 2: 'i16', 1: 'i8'}.get(sz, 'ptr'))

    def put(self, st, struct, p, member, v):
        off, sz = self.mod.field(struct, member)
        self.I.store(st, self.I.ptradd(st, p, ci(off, 64)), v, sz)

    # ---- operators
    def op(self, st, name, placement, id=0, arity=None, prec=1, assoc='OP_ASSOC_LEFT'):
        """operator record in abstract memory"""
        p = self.local(st, 'op', 'zero')
        M = self.E
        ar = arity if arity is not None else (2 if placement == 'OP_PLACE_INFIX' else 1)
        self.put(st, 'Operator', p, 'name', name if isinstance(name, tuple) else self.lit(st, name))
        self.put(st, 'Operator', p, 'id', ci(id, 64) if isinstance(id, int) else id)
        self.put(st, 'Operator', p, 'arity', ci(ar, 64) if isinstance(ar, int) else ar)
        self.put(st, 'Operator', p, 'precedence', ci(prec, 8) if isinstance(prec, int) else prec)
        self.put(st, 'Operator', p, 'assoc', ci(M[assoc], 32))
        self.put(st, 'Operator', p, 'placement', ci(M[placement], 32))
        return p

    # ---- trees
    def tree(self, st, t, tok=0):
        """('c', term) | ('v', ptr-or-name[, id]) | ('o', op pointer, [children]) -> (state, pointer)"""
        if t is None:
            return st, NULL
        if t[0] == 'c':
            return self.call(st, 'malloc_constant_node', t[1] if t[1][0] != 'num' else cf(t[1][1]), ci(tok, 64))
        if t[0] == 'v':
            n = t[1] if isinstance(t[1], tuple) else self.name(t[1])
            return self.call(st, 'malloc_variable_node', n, ci(t[2] if len(t) > 2 else 0, 64), ci(tok, 64))
        st, p = self.call(st, 'malloc_operator_node', t[1], ci(len(t[2]), 64), ci(tok, 64))
        for k, c in enumerate(t[2]):
            if c is None:
                continue
            st, q = self.tree(st, c)
            st, _ = self.call(st, 'set_child', p, ci(k, 64), q)
        return st, p

    def read(self, st, p, depth=0):
        """structure of a tree, through the accessors"""
        if p == NULL:
            return None
        if p == UNDEF or p[0] != 'p':
            return ('?', p)
        if depth > 30:
            return ('deep',)
        n = len(self.I.faults)
        ex = self.run(st.copy(), 'get_type', p)
        if len(ex) != 1:
            del self.I.faults[n:]
            return ('dangling', p)
        ty = ex[0].ret
        if ty == ci(self.E['NTYPE_CONSTANT'], 32):
            return ('c', self.call(st.copy(), 'get_const_value', p)[1])
        if ty == ci(self.E['NTYPE_VARIABLE'], 32):
            return ('v', self.I.sid(st, self.call(st.copy(), 'get_var_name', p)[1]), self.call(st.copy(), 'get_id', p)[1])
        if ty == ci(self.E['NTYPE_OPERATOR'], 32):
            op = self.call(st.copy(), 'get_op', p)[1]
            n = self.call(st.copy(), 'get_num_children', p)[1]
            if n[0] != 'c':
                return ('o', op, ('?', n))
            return ('o', op, [self.read(st, self.call(st.copy(), 'get_child', p, ci(k, 64))[1], depth + 1) for k in range(n[1])])
        return ('?', ty)

    def nodes(self, st, p):
        """pointers of all nodes of a tree (preorder)"""
        if p == NULL:
            return []
        out = [p]
        t = self.call(st.copy(), 'get_type', p)[1]
        if t == ci(self.E['NTYPE_OPERATOR'], 32):
            n = self.call(st.copy(), 'get_num_children', p)[1][1]
            for k in range(n):
                out += self.nodes(st, self.call(st.copy(), 'get_child', p, ci(k, 64))[1])
        return out


def fmt(t):
    if t is None:
        return '-'
    if t[0] == 'c':
        return show(t[1])
    if t[0] == 'v':
        return str(t[1][1] if isinstance(t[1], tuple) and len(t[1]) > 1 else t[1])
    if t[0] == 'o' and isinstance(t[2], list):
        return '%s(%s)' % (t[1] if isinstance(t[1], str) else show(t[1]), ', '.join(fmt(x) for x in t[2]))
    return str(t)[:60]
