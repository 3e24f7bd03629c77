"""Path-sensitive abstract interpretation of the dumped IR.

Domain.  A value is a constant, a pointer (region, byte offset), a function, or a term (value number) built from
opaque inputs.  What is known about terms is kept in a finite ordering domain: for a pair of terms (or term and constant) the
set of relations {L,E,G,U} that is still possible (U = unordered, doubles only).  Memory maps region -> offset -> value.
Branches whose condition is not decided by the facts fork the abstract state; equal abstract states at a program
point are explored once.  Calls to functions of the program are analysed in place (so a helper extracted from or
folded into a function makes no difference) unless a model (a contract) is supplied for the callee.
No solver is involved and nothing of the program is executed.
"""
from fractions import Fraction
import struct
import time
from ir import AnalysisBroken

L, E, G, U = 1, 2, 4, 8
ORD = L | E | G
ALLF = L | E | G | U
SWAP = {}
for _m in range(16):
    SWAP[_m] = (_m & (E | U)) | (G if _m & L else 0) | (L if _m & G else 0)

FPRED = {'false': 0, 'oeq': E, 'ogt': G, 'oge': G | E, 'olt': L, 'ole': L | E, 'one': L | G, 'ord': ORD,
         'uno': U, 'ueq': E | U, 'ugt': G | U, 'uge': G | E | U, 'ult': L | U, 'ule': L | E | U, 'une': L | G | U, 'true': ALLF}
IPRED = {'eq': ('u', E), 'ne': ('u', L | G), 'ugt': ('u', G), 'uge': ('u', G | E), 'ult': ('u', L), 'ule': ('u', L | E),
         'sgt': ('s', G), 'sge': ('s', G | E), 'slt': ('s', L), 'sle': ('s', L | E)}

NULL = ('p', ('null',), 0)
UNDEF = ('undef',)


class PathLimit(Exception):
    pass


DEADLINE = [None]     # wall-clock end of the whole check; what is not decided by then stays undecided


def late():
    return DEADLINE[0] is not None and time.time() > DEADLINE[0]


class Split(Exception):
    """raised while an instruction is analysed: the state forks before it (nothing of the instruction has been done yet)"""
    def __init__(self, states):
        Exception.__init__(self)
        self.states = states


def piece(v, k, sz, width=8):
    """bytes k .. k+sz-1 of a value of the given width"""
    if v[0] == 'c':
        return ci(v[1] >> (8 * k), sz * 8)
    if v == UNDEF or v[0] == 'undef':
        return v
    if v[0] == 'ld' and isinstance(v[2], int):
        return ('ld', v[1], v[2] + k, sz, v[4])
    if v[0] == 'part':
        return ('part', v[1], v[2] + k, sz)
    if k == 0 and v[0] not in ('p', 'f', 'fn'):
        return ('trunc', 8 * sz, 8 * width, v)
    return ('part', v, k, sz)


def ci(v, bits):
    return ('c', v & ((1 << bits) - 1), bits)


def cf(x):
    return ('f', struct.pack('>d', x).hex())


def fval(v):
    return struct.unpack('>d', bytes.fromhex(v[1]))[0]


def sval(v):
    x, b = v[1], v[2]
    return x - (1 << b) if x >> (b - 1) else x


def is_const(v):
    return v[0] in ('c', 'f', 'p', 'fn')


TRUE = ci(1, 1)
FALSE = ci(0, 1)


def show(v, depth=0):
    """readable rendering of an abstract value for reports"""
    if depth > 6:
        return '...'
    k = v[0]
    if k == 'c':
        return str(sval(v)) if v[2] > 1 else ('true' if v[1] else 'false')
    if k == 'f':
        return repr(fval(v))
    if k == 'p':
        if v[1] == ('null',):
            return 'NULL'
        return '&%s%s' % (showr(v[1], depth + 1), '' if v[2] == 0 else '+%s' % (v[2] if isinstance(v[2], int) else show(v[2], depth + 1)))
    if k == 'fn':
        return v[1]
    if k == 'sym':
        return str(v[1])
    if k == 'ld':
        return '%s[%s]' % (showr(v[1], depth + 1), v[2] if isinstance(v[2], int) else show(v[2], depth + 1))
    if k == 'undef':
        return 'undef'
    return '%s(%s)' % (v[0] if v[0] != 'call' else v[1], ','.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v[1 if v[0] != 'call' else 2:]))


def showr(r, depth=0):
    if r[0] == 'sym':
        return '*' + show(r[1], depth + 1)
    if r[0] == 'alloca':
        return str(r[3]) if len(r) > 3 and r[3] else 'local%s' % r[2]
    if r[0] == 'glob':
        return r[1]
    return '_'.join(str(x) for x in r if not isinstance(x, tuple))


class Facts:
    """ordering facts; persistent by copy-on-write"""
    __slots__ = ('rel', 'crel', 'own')

    def __init__(self):
        self.rel = {}
        self.crel = {}
        self.own = True

    def copy(self):
        f = Facts.__new__(Facts)
        f.rel = self.rel
        f.crel = self.crel
        f.own = False
        self.own = False
        return f

    def _w(self):
        if not self.own:
            self.rel = dict(self.rel)
            self.crel = {k: dict(v) for k, v in self.crel.items()}
            self.own = True

    @staticmethod
    def cmpc(kind, a, b):
        if kind == 'f':
            x, y = fval(a), fval(b)
            if x != x or y != y:
                return U
        elif kind == 's':
            x, y = sval(a), sval(b)
        else:
            x, y = a[1], b[1]
        return L if x < y else E if x == y else G

    def get(self, kind, a, b):
        """possible relations of a to b"""
        full = ALLF if kind == 'f' else ORD
        if a == b:
            if a[0] == 'f' and kind == 'f':
                return self.cmpc('f', a, b)
            r = E | (U if kind == 'f' else 0)
            if kind == 'f':
                r &= self.rel.get(('f', a, a), ALLF)
                for c, rs in self.crel.get(('f', a), {}).items():
                    if not rs & U and fval(c) == fval(c):
                        r &= ~U
            return r
        ca, cb = a[0] in 'cf' and len(a[0]) == 1, b[0] in 'cf' and len(b[0]) == 1
        if ca and cb:
            return self.cmpc(kind, a, b)
        if ca:
            return SWAP[self.get(kind, b, a)]
        if cb:
            r = full
            if kind == 'f' and not self.get('f', a, a) & U:
                r &= ~U
            # bounds from the type
            if kind == 'u' and b[1] == 0:
                r &= ~L
            if kind == 'u' and b[1] == (1 << b[2]) - 1:
                r &= ~G
            if a[0] == 'zext':
                src_max = (1 << a[2]) - 1
                if kind == 'u' or (kind == 's' and a[1] > a[2]):
                    bv = b[1] if kind == 'u' else sval(b)
                    if bv > src_max:
                        r &= L
                    elif bv == src_max:
                        r &= ~G
                    if bv < 0:
                        r &= G
                    elif bv == 0:
                        r &= ~L
            if a[0] == 'sext' and kind == 's':
                bv = sval(b)
                hi = (1 << (a[2] - 1)) - 1
                if bv > hi:
                    r &= L
                if bv < -hi - 1:
                    r &= G
            for c, rs in self.crel.get((kind, a), {}).items():
                o = self.cmpc(kind, c, b)
                if o == E:
                    r &= rs
                elif o == L:   # c < b
                    if not rs & (G | (U if kind == 'f' else 0)):
                        r &= L
                    elif not rs & G:
                        r &= L | U
                elif o == G:   # c > b
                    if not rs & (L | (U if kind == 'f' else 0)):
                        r &= G
                    elif not rs & L:
                        r &= G | U
                if kind == 'f' and not rs & U and fval(c) == fval(c):
                    r &= ~U
            if kind in 'us':
                # equalities are shared between signed and unsigned views
                other = 's' if kind == 'u' else 'u'
                for c, rs in self.crel.get((other, a), {}).items():
                    if c == b and not rs & E:
                        r &= ~E
                    if rs == E:
                        r &= self.cmpc(kind, c, b)
                if kind == 's' and sval(b) <= 0:
                    # nothing
                    pass
            return r
        r = self.rel.get((kind, a, b))
        if r is None:
            r = full
        if kind in 'us':
            o = self.rel.get(('s' if kind == 'u' else 'u', a, b))
            if o is not None:
                if not o & E:
                    r &= ~E
                if o == E:
                    r &= E
        if kind == 'f' and r & U:
            if not self.get('f', a, a) & U and not self.get('f', b, b) & U:
                r &= ~U
        return r

    def add(self, kind, a, b, rs):
        """intersect; returns False when contradictory"""
        cur = self.get(kind, a, b)
        n = cur & rs
        if n == 0:
            return False
        if n == cur:
            return True
        if a == b and kind != 'f':
            return True
        self._w()
        if a[0] in ('c', 'f'):
            a, b, n = b, a, SWAP[n]
        if b[0] in ('c', 'f'):
            d = self.crel.setdefault((kind, a), {})
            d[b] = d.get(b, ALLF) & n
        else:
            self.rel[(kind, a, b)] = n
            self.rel[(kind, b, a)] = SWAP[n]
            if kind == 'f' and not n & U:
                for t in (a, b):
                    if t[0] != 'f':
                        self.rel[('f', t, t)] = E
        return True

    def constval(self, t):
        for kind in 'us':
            for c, rs in self.crel.get((kind, t), {}).items():
                if rs == E:
                    return c
        for c, rs in self.crel.get(('f', t), {}).items():
            # a plain input equal to zero is kept (its sign is unknown)
            if rs == E and (c[1].strip('0') and c[1] != '8' + '0' * 15 or t[0] == 'call'):
                return c
        return None

    def key(self):
        return (frozenset(self.rel.items()), frozenset((k, frozenset(v.items())) for k, v in self.crel.items()))


class State:
    __slots__ = ('mem', 'facts', 'ev', 'ver', 'info', 'shared', 'fresh')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.ev = None      # persistent linked list (prev, event)
        self.ver = {}
        self.info = {}      # client analysis data (immutable values)
        self.shared = set()
        self.fresh = 0

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        self.shared = s.shared = set(self.mem)
        s.shared = set(self.mem)
        s.facts = self.facts.copy()
        s.ev = self.ev
        s.ver = dict(self.ver)
        s.info = dict(self.info)
        s.fresh = self.fresh
        return s

    def cells(self, region, write=False):
        c = self.mem.get(region)
        if c is None:
            c = {}
            if write:
                self.mem[region] = c
            return c
        if write and region in self.shared:
            c = dict(c)
            self.mem[region] = c
            self.shared.discard(region)
        return c

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def havoc(self, region, lo=0):
        self.mem[region] = {}
        self.shared.discard(region)
        self.ver[region] = self.ver.get(region, 0) + 1


class Frame:
    __slots__ = ('fn', 'env', 'fid', 'args', 'visits', 'depth', 'stack', 'callinst')

    def __init__(self, fn, fid, args, depth, stack, callinst=None):
        self.fn = fn
        self.fid = fid
        self.args = args
        self.env = {}
        self.visits = {}
        self.depth = depth
        self.stack = stack
        self.callinst = callinst

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.fid, f.args, f.depth, f.stack, f.callinst = self.fn, self.fid, self.args, self.depth, self.stack, self.callinst
        f.env = dict(self.env)
        f.visits = dict(self.visits)
        return f


class Exit:
    __slots__ = ('kind', 'state', 'ret', 'inst', 'frame')

    def __init__(self, kind, state, ret, inst, frame=None):
        self.kind, self.state, self.ret, self.inst, self.frame = kind, state, ret, inst, frame


PURE_EXT = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'log', 'log2', 'log10',
            'pow', 'sqrt', 'fmod', 'tgamma', 'ceil', 'floor', 'round', 'trunc', 'fabs', 'labs', 'abs', 'lgamma', 'exp2', 'cbrt',
            'hypot', 'atan2', 'nearbyint', 'rint', 'fmin', 'fmax', 'copysign', 'isinf', 'isnan', 'log1p', 'expm1', 'remainder', 'llabs', 'fdim', 'logb', 'lround', 'llround', 'erf'}
# external functions that read memory only
READONLY_EXT = {'strlen', 'strcmp', 'strncmp', 'memcmp', 'strchr', 'strrchr', 'strtod', 'atof', 'isatty', 'feof', 'ferror', 'fileno', 'strstr', 'isspace', 'isdigit', 'isalpha'}


class Interp:
    def __init__(self, mod, models=None, opaque=(), loop_bound=3, max_states=60000, max_depth=12, on_mem=None, inline=None, max_steps=4000000,
                 const_loop_bound=400):
        self.mod = mod
        self.models = models or {}
        self.opaque = set(opaque)
        self.loop_bound = loop_bound
        self.const_loop_bound = const_loop_bound
        self.max_states = max_states
        self.max_depth = max_depth
        self.symregions = set()     # regions that were ever written at a symbolic offset
        self.on_mem = on_mem
        self.inline = inline
        self.nforks = 0
        self.steps = 0
        self.max_steps = max_steps
        self.cut = 0
        self.counter = 0
        self.visited_fns = set()
        self.visited_calls = set()
        self.global_init = True
        self.decided = {}

    rec_depth = 200

    def rec_ok(self, st, fn, args):
        """may a recursive call be analysed in place?  Only when its scalar arguments are decided"""
        return bool(args) and all(a[0] in ('c', 'f') for a in args)

    # ----- terms
    def fresh(self, st, tag):
        st.fresh += 1
        return ('sym', '%s#%d' % (tag, st.fresh))

    def simp(self, st, v):
        if v[0] not in ('c', 'f', 'p', 'fn', 'undef'):
            c = st.facts.constval(v)
            if c is not None:
                return c
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'v':
            v = fr.env.get(o[1], UNDEF)
            return self.simp(st, v)
        if k == 'a':
            return self.simp(st, fr.args[o[1]])
        if k == 'i':
            return ci(int(o[1]), o[2])
        if k == 'f':
            return ('f', o[1])
        if k == 'n':
            return NULL
        if k == 'F':
            return ('fn', o[1])
        if k == 'g':
            return ('p', ('glob', o[1]), 0)
        if k == '+':
            b = self.operand(st, fr, o[1])
            return self.ptradd(st, b, ci(o[2], 64))
        if k == 'z':
            return ('agg', ())
        return UNDEF

    @staticmethod
    def toptr(v):
        """view a term as pointer (region, off)"""
        if v[0] == 'p':
            return v
        if v[0] == 'c':
            return NULL if v[1] == 0 else ('p', ('abs', v[1]), 0)
        return ('p', ('sym', v), 0)

    @staticmethod
    def norm_ptr(v):
        if v[0] == 'p' and v[1][0] == 'sym' and v[2] == 0:
            return v[1][1]
        return v

    def ptradd(self, st, base, off):
        if base == UNDEF:
            return UNDEF
        p = self.toptr(base)
        o = p[2]
        oc = sval(off) if off[0] == 'c' else off
        if isinstance(o, int) and isinstance(oc, int):
            n = o + oc
        elif isinstance(oc, int) and oc == 0:
            n = o
        elif isinstance(o, int) and o == 0:
            n = oc
        else:
            n = self.binop('add', 64, ci(o, 64) if isinstance(o, int) else o, ci(oc, 64) if isinstance(oc, int) else oc)
            if n[0] == 'c':
                n = sval(n)
        return self.norm_ptr(('p', p[1], n))

    COMM = {'add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}

    def binop(self, op, bits, a, b):
        if a == UNDEF or b == UNDEF:
            return UNDEF
        if op[0] == 'f':
            if a[0] == 'f' and b[0] == 'f':
                x, y = fval(a), fval(b)
                try:
                    if op == 'fadd':
                        return cf(x + y)
                    if op == 'fsub':
                        return cf(x - y)
                    if op == 'fmul':
                        return cf(x * y)
                    if op == 'fdiv' and y != 0:
                        return cf(x / y)
                except OverflowError:
                    pass
            return (op, a, b)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            m = (1 << bits) - 1
            if op == 'add':
                return ci(x + y, bits)
            if op == 'sub':
                return ci(x - y, bits)
            if op == 'mul':
                return ci(x * y, bits)
            if op == 'and':
                return ci(x & y, bits)
            if op == 'or':
                return ci(x | y, bits)
            if op == 'xor':
                return ci(x ^ y, bits)
            if op == 'shl' and y < bits:
                return ci(x << y, bits)
            if op == 'lshr' and y < bits:
                return ci((x & m) >> y, bits)
            if op == 'ashr' and y < bits:
                return ci(sval(a) >> y, bits)
            if op == 'udiv' and y:
                return ci(x // y, bits)
            if op == 'urem' and y:
                return ci(x % y, bits)
            if op in ('sdiv', 'srem') and y:
                sx, sy = sval(a), sval(b)
                q = abs(sx) // abs(sy)
                if (sx < 0) != (sy < 0):
                    q = -q
                return ci(q if op == 'sdiv' else sx - q * sy, bits)
        if a[0] == 'c' and op in self.COMM:
            a, b = b, a
        if b[0] == 'c':
            y = b[1]
            if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if y == 0 and op in ('mul', 'and'):
                return b
            if y == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if op == 'sub':
                return self.binop('add', bits, a, ci(-y, bits))
            if op == 'add' and a[0] == 'add' and a[1] == bits and a[3][0] == 'c':
                return self.binop('add', bits, a[2], ci(a[3][1] + y, bits))
            if op == 'and' and bits == 1 and y == 1:
                return a
            if op == 'mul' and a[0] == 'add' and a[3][0] == 'c':
                return self.binop('add', bits, self.binop('mul', bits, a[2], b), ci(a[3][1] * y, bits))
        if op == 'sub':
            if a == b:
                return ci(0, bits)
            if a[0] == 'add' and a[1] == bits:
                if a[2] == b:
                    return a[3]
                if a[3] == b:
                    return a[2]
            if a[0] == 'add' and b[0] == 'add' and a[3][0] == 'c' and b[3][0] == 'c':
                return self.binop('add', bits, self.binop('sub', bits, a[2], b[2]), ci(a[3][1] - b[3][1], bits))
            if a[0] == 'add' and a[3][0] == 'c':
                return self.binop('add', bits, self.binop('sub', bits, a[2], b), a[3])
            if b[0] == 'add' and b[3][0] == 'c':
                return self.binop('add', bits, self.binop('sub', bits, a, b[2]), ci(-b[3][1], bits))
        if op == 'add' and b[0] != 'c':
            if a[0] == 'sub' and a[3] == b:
                return a[2]
            if b[0] == 'sub' and b[3] == a:
                return b[2]
            # normalise: constants outermost
            if a[0] == 'add' and a[3][0] == 'c':
                return self.binop('add', bits, self.binop('add', bits, a[2], b), a[3])
            if b[0] == 'add' and b[3][0] == 'c':
                return self.binop('add', bits, self.binop('add', bits, a, b[2]), b[3])
        if op in ('and', 'or') and a == b:
            return a
        if op in self.COMM and b[0] != 'c' and repr(a) > repr(b):
            a, b = b, a
        return (op, bits, a, b)

    def cast(self, op, st, v, fb, tb):
        if v == UNDEF:
            return UNDEF
        if op in ('zext', 'sext', 'trunc'):
            if v[0] == 'c':
                return ci(v[1] if op != 'sext' else sval(v), tb)
            if fb == tb:
                return v
            if op == 'trunc':
                if v[0] in ('zext', 'sext'):
                    if v[2] == tb:
                        return v[3]
                    if v[2] < tb:
                        return (v[0], tb, v[2], v[3])
                    return self.cast('trunc', st, v[3], v[2], tb)
                if v[0] == 'trunc':
                    return ('trunc', tb, v[2], v[3])
                if v[0] in ('add', 'mul', 'and', 'or', 'xor', 'sub') and isinstance(v[1], int):
                    pass
            if op in ('zext', 'sext') and v[0] == 'zext':
                return ('zext', tb, v[2], v[3])
            if op == 'sext' and v[0] == 'sext':
                return ('sext', tb, v[2], v[3])
            if op == 'zext' and v[0] == 'trunc' and v[2] == tb and fb == 8 and False:
                return v[3]
            return (op, tb, fb, v)
        if op in ('sitofp', 'uitofp') and v[0] == 'c':
            return cf(float(sval(v) if op == 'sitofp' else v[1]))
        if op in ('fptosi', 'fptoui') and v[0] == 'f':
            x = fval(v)
            if x == x and abs(x) < 2 ** 62:
                return ci(int(x), tb)
        if op == 'bitcast' and tb == fb == 64:
            if v[0] == 'f':
                return ci(int(v[1], 16), 64)
            if v[0] == 'c':
                return ('f', '%016x' % v[1])
            return v[3] if v[0] == 'bitcast' else (op, tb, fb, v)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return v
        return (op, tb, fb, v)

    # ----- conditions.  A condition is TRUE/FALSE, ('cmp',kind,a,b,rels), ('not',x), ('and1',a,b), ('or1',a,b) or a boolean term
    def icmp(self, st, pr, a, b, bits):
        if a == UNDEF or b == UNDEF:
            return UNDEF
        kind, rs = IPRED[pr]
        ptrish = a[0] in ('p', 'fn') or b[0] in ('p', 'fn')
        if ptrish:
            return self.pcmp(st, pr, kind, rs, a, b)
        # (zext i1 x) != 0  ->  x
        for x, y in ((a, b), (b, a)):
            if y[0] == 'c' and x[0] == 'zext' and pr in ('eq', 'ne') and y[1] < (1 << x[2]):
                if x[2] == 1:
                    t = x[3]
                    want = (y[1] == 1) == (pr == 'eq')
                    return t if want else self.neg(t)
                return self.icmp(st, pr, x[3], ci(y[1], x[2]), x[2])
            if y[0] == 'c' and bits == 1 and pr in ('eq', 'ne'):
                want = (y[1] == 1) == (pr == 'eq')
                return x if want else self.neg(x)
            if y[0] == 'c' and y[1] == 0 and x[0] == 'sub' and pr in ('eq', 'ne'):
                return self.icmp(st, pr, x[2], x[3], bits)
        if a[0] == 'add' and b[0] == 'c' and a[3][0] == 'c' and pr in ('eq', 'ne'):
            return self.icmp(st, pr, a[2], ci(b[1] - a[3][1], bits), bits)
        if a[0] == 'zext' and b[0] == 'zext' and a[2] == b[2]:
            return ('cmp', 'u', a[3], b[3], rs)
        if a[0] == 'cmp3':
            pass
        r = st.facts.get(kind, a, b)
        if not r & ~rs:
            return TRUE
        if not r & rs:
            return FALSE
        return ('cmp', kind, a, b, rs)

    REG_DISTINCT = ('alloca', 'glob', 'heap', 'null', 'str')

    def pcmp(self, st, pr, kind, rs, a, b):
        if a[0] == 'fn' or b[0] == 'fn':
            if a == b:
                return TRUE if rs & E else FALSE
            if a[0] == 'fn' and b[0] in ('fn', 'p'):
                return FALSE if rs == E else TRUE
            if b[0] == 'fn' and a[0] == 'p':
                return FALSE if rs == E else TRUE
            return ('cmp', kind, a, b, rs)
        pa, pb = self.toptr(a), self.toptr(b)
        if pa == pb:
            return TRUE if rs & E else FALSE
        if pa[1] == pb[1] and isinstance(pa[2], int) and isinstance(pb[2], int):
            o = L if pa[2] < pb[2] else G
            return TRUE if rs & o else FALSE
        if pa[1] == pb[1]:
            # same region: compare offsets
            x = ci(pa[2], 64) if isinstance(pa[2], int) else pa[2]
            y = ci(pb[2], 64) if isinstance(pb[2], int) else pb[2]
            return self.icmp(st, pr, x, y, 64)
        if pr in ('eq', 'ne') and pa[1][0] in self.REG_DISTINCT and pb[1][0] in self.REG_DISTINCT:
            return FALSE if pr == 'eq' else TRUE
        # interior pointer (non-zero constant offset of symbolic base) is never null
        for x, y in ((pa, pb), (pb, pa)):
            if y == NULL and pr in ('eq', 'ne'):
                if x[1][0] == 'sym' and not (isinstance(x[2], int) and x[2] == 0):
                    return FALSE if pr == 'eq' else TRUE
                if x[1][0] in ('sym',):
                    t = x[1][1]
                    z = ci(0, 64)
                    r = st.facts.get('u', t, z)
                    if not r & ~rs:
                        return TRUE
                    if not r & rs:
                        return FALSE
                    return ('cmp', 'u', t, z, rs)
            # locally allocated storage is distinct from anything reachable from inputs
            if pr in ('eq', 'ne') and x[1][0] in ('alloca', 'heap') and y[1][0] == 'sym' and not self.may_point(st, y[1][1]):
                return FALSE if pr == 'eq' else TRUE
        ka = a if a[0] != 'p' else ('ptrt', pa[1], pa[2] if not isinstance(pa[2], int) else ci(pa[2], 64))
        kb = b if b[0] != 'p' else ('ptrt', pb[1], pb[2] if not isinstance(pb[2], int) else ci(pb[2], 64))
        r = st.facts.get(kind, ka, kb)
        if not r & ~rs:
            return TRUE
        if not r & rs:
            return FALSE
        return ('cmp', kind, ka, kb, rs)

    def may_point(self, st, t):
        # results of opaque calls may point to anything that escaped; loads of inputs cannot point to fresh storage
        return not (t[0] in ('ld',) or (t[0] == 'sym' and str(t[1]).startswith('arg')))

    def fcmp(self, st, pr, a, b):
        if a == UNDEF or b == UNDEF:
            return UNDEF
        rs = FPRED[pr]
        r = st.facts.get('f', a, b)
        if not r & ~rs:
            return TRUE
        if not r & rs:
            return FALSE
        return ('cmp', 'f', a, b, rs)

    def neg(self, c):
        if c == TRUE:
            return FALSE
        if c == FALSE:
            return TRUE
        if c[0] == 'not':
            return c[1]
        if c[0] == 'cmp':
            full = ALLF if c[1] == 'f' else ORD
            return ('cmp', c[1], c[2], c[3], full & ~c[4])
        return ('not', c)

    def assume(self, st, c, val):
        """constrain st; False when contradictory.  Returns list of states (or-splitting)"""
        if c == UNDEF:
            return [st]
        if c[0] == 'c':
            return [st] if bool(c[1]) == val else []
        if c[0] == 'not':
            return self.assume(st, c[1], not val)
        if c[0] == 'cmp':
            full = ALLF if c[1] == 'f' else ORD
            rs = c[4] if val else full & ~c[4]
            return [st] if st.facts.add(c[1], c[2], c[3], rs) else []
        if c[0] in ('and', 'or') and c[1] == 1:
            isand = c[0] == 'and'
            if isand == val:
                out = []
                for s in self.assume(st, c[2], val):
                    out += self.assume(s, c[3], val)
                return out
            s2 = st.copy()
            out = self.assume(st, c[2], val)
            for s in self.assume(s2, c[2], not val):
                out += self.assume(s, c[3], val)
            return out
        if c[0] == 'xor' and c[1] == 1:
            out = []
            s2 = st.copy()
            for s in self.assume(st, c[2], True):
                out += self.assume(s, c[3], not val)
            for s in self.assume(s2, c[2], False):
                out += self.assume(s, c[3], val)
            return out
        if c[0] == 'sel':
            s2 = st.copy()
            out = []
            for s in self.assume(st, c[1], True):
                out += self.assume(s, c[2], val)
            for s in self.assume(s2, c[1], False):
                out += self.assume(s, c[3], val)
            return out
        if c[0] == 'call' and c[1] == 'isinf_b':
            pass
        return [st] if st.facts.add('u', c, ci(1 if val else 0, 1), E) else []

    def truth(self, st, c):
        """True/False/None"""
        if c == UNDEF:
            return None
        if c[0] == 'c':
            return bool(c[1])
        if c[0] == 'not':
            t = self.truth(st, c[1])
            return None if t is None else not t
        if c[0] == 'cmp':
            r = st.facts.get(c[1], c[2], c[3])
            if not r & ~c[4]:
                return True
            if not r & c[4]:
                return False
            return None
        if c[0] in ('and', 'or') and c[1] == 1:
            a, b = self.truth(st, c[2]), self.truth(st, c[3])
            if c[0] == 'and':
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        k = st.facts.get('u', c, ci(1, 1))
        if k == E:
            return True
        if not k & E:
            return False
        k = st.facts.get('u', c, ci(0, 1))
        if k == E:
            return False
        return None

    def resolve(self, st, t):
        """rewrite a term under the facts of a state: decided selections are taken, decided terms folded"""
        if not isinstance(t, tuple) or not t or t[0] in ('c', 'f', 'p', 'fn', 'sym', 'ld', 'undef', 'ver'):
            return self.simp(st, t) if isinstance(t, tuple) and t and t[0] in ('sym', 'ld') else t
        if t[0] == 'sel':
            c = self.resolve(st, t[1])
            k = self.truth(st, c)
            if k is not None:
                return self.resolve(st, t[2] if k else t[3])
            return ('sel', c, self.resolve(st, t[2]), self.resolve(st, t[3]))
        if t[0] in ('sitofp', 'uitofp', 'zext', 'sext', 'trunc', 'fptosi', 'fptoui'):
            return self.simp(st, self.cast(t[0], st, self.resolve(st, t[3]), t[2], t[1]))
        if t[0] in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.simp(st, self.binop(t[0], 64, self.resolve(st, t[1]), self.resolve(st, t[2])))
        if t[0] in ('add', 'sub', 'mul', 'and', 'or', 'xor') and isinstance(t[1], int):
            return self.simp(st, self.binop(t[0], t[1], self.resolve(st, t[2]), self.resolve(st, t[3])))
        if t[0] == 'call':
            return self.simp(st, ('call', t[1]) + tuple(self.resolve(st, x) for x in t[2:]))
        return self.simp(st, t)

    # ----- memory
    def load(self, st, ptr, sz, ty, inst=None):
        if ptr == UNDEF:
            return UNDEF
        if ty[0] == '{':
            cells = []
            for m in ty[1:ty.index('}')].split(','):
                o, t = m.split(':')
                z = 8 if t in ('ptr', 'f64', 'i64') else int(t[1:]) // 8
                cells.append((int(o), z, self.load(st, self.ptradd(st, ptr, ci(int(o), 64)), z, t)))
            return ('agg', tuple(cells))
        p = self.toptr(ptr)
        region, off = p[1], p[2]
        if region[0] == 'glob':
            g = self.mod.globals.get(region[1])
            if g is not None and (g['const'] or (self.global_init and region not in st.mem and False)):
                v = self.gload(region[1], g, off, sz, ty)
                if v is not None:
                    return v
        cells = st.mem.get(region)
        if cells:
            e = cells.get(off)
            if e is not None:
                if e[0] == sz:
                    return self.simp(st, e[1])
                if e[1][0] == 'c' and sz < e[0]:
                    return ci(e[1][1], sz * 8)
                if e[1][0] == 'zero':
                    pass
                if sz < e[0] and e[1][0] == 'ld' and isinstance(e[1][2], int):
                    return self.simp(st, e[1][:3] + (sz,) + e[1][4:])
                if sz < e[0] and e[1][0] not in ('f', 'p', 'fn', 'undef'):
                    return self.cast('trunc', st, e[1], e[0] * 8, sz * 8)
                if sz < e[0] and e[1][0] in ('f', 'p', 'fn', 'undef'):
                    return piece(e[1], 0, sz)
                if sz > e[0]:
                    # combine adjacent cells of constants
                    v = self.combine(cells, off, sz)
                    if v is None:
                        v = self.rejoin(cells, off, sz)
                    if v is not None:
                        return v
                    return ('cat', tuple(sorted((o - off, c[0], c[1]) for o, c in cells.items() if isinstance(o, int) and off <= o < off + sz)) if isinstance(off, int) else ())
            if isinstance(off, int):
                for o, c in cells.items():
                    if isinstance(o, int) and o < off and off + sz <= o + c[0]:
                        v = piece(c[1], off - o, sz, c[0])
                        return self.simp(st, v) if v[0] == 'ld' else v
            b = cells.get('default')
            if b is not None:
                if b == 'zero':
                    return NULL if ty == 'ptr' else ('f', '0' * 16) if ty == 'f64' else ci(0, sz * 8)
                if b == 'undef':
                    if isinstance(off, int) and region in self.symregions and any(isinstance(o, tuple) for o in cells):
                        return ('ld', region, off, sz, st.ver.get(region, 0))
                    if not isinstance(off, int):
                        return ('ld', region, off, sz, st.ver.get(region, 0))
                    return UNDEF
        t = ('ld', region, off, sz, st.ver.get(region, 0))
        return self.simp(st, t)

    def rejoin(self, cells, off, sz):
        """a value that was copied in pieces"""
        if not isinstance(off, int):
            return None
        e = cells.get(off)
        v = e[1]
        if v == UNDEF:
            o = off
            while o < off + sz:
                c = cells.get(o)
                if c is None or c[1] != UNDEF:
                    return None
                o += c[0]
            return UNDEF
        if v[0] == 'ld' and isinstance(v[2], int):
            o = off
            while o < off + sz:
                c = cells.get(o)
                if c is None or c[1] != ('ld', v[1], v[2] + o - off, c[0], v[4]):
                    return None
                o += c[0]
            return ('ld', v[1], v[2], sz, v[4]) if o == off + sz else None
        if v[0] == 'trunc' and v[1] == 8 * e[0]:
            x, full = v[3], v[2] // 8
        elif v[0] == 'part' and v[2] == 0:
            x, full = v[1], 8
        else:
            return None
        o = off + e[0]
        while o < off + sz:
            c = cells.get(o)
            if c is None or c[1] != ('part', x, o - off, c[0]):
                return None
            o += c[0]
        if o != off + sz:
            return None
        return x if sz == full else ('part', x, 0, sz)

    def combine(self, cells, off, sz):
        if not isinstance(off, int):
            return None
        v = 0
        o = off
        while o < off + sz:
            e = cells.get(o)
            if e is None:
                if cells.get('default') == 'zero':
                    o += 1
                    continue
                # padding inside a coerced struct is irrelevant: treat as zero only if another cell follows/precedes
                nxt = [k for k in cells if isinstance(k, int) and o < k < off + sz]
                if not nxt and o > off:
                    break
                if not nxt:
                    return None
                o = min(nxt)
                continue
            if e[1][0] != 'c':
                return None
            v |= e[1][1] << (8 * (o - off))
            o += e[0]
        return ci(v, sz * 8)

    def gload(self, name, g, off, sz, ty):
        if not isinstance(off, int):
            return None
        if 'str' in g:
            s = g['str']
            if 0 <= off and off + sz <= len(s):
                v = 0
                for k in range(sz):
                    v |= (ord(s[off + k]) & 255) << (8 * k)
                return ci(v, sz * 8)
            return None
        for o, s, c in g.get('init', []):
            if o == off and s == sz:
                return self.operand(None, None, c) if c[0] not in ('v', 'a') else None
            if o <= off and off + sz <= o + s and c[0] == 'i':
                return ci(int(c[1]) >> (8 * (off - o)), sz * 8)
        if 0 <= off and off + sz <= g['size']:
            return NULL if ty == 'ptr' else ('f', '0' * 16) if ty == 'f64' else ci(0, sz * 8)
        return None

    def store(self, st, ptr, val, sz):
        if ptr == UNDEF:
            return
        p = self.toptr(ptr)
        region, off = p[1], p[2]
        cells = st.cells(region, True)
        if isinstance(off, int):
            if len(cells) > 48 and sz <= 32:      # no cell is wider than 32 bytes
                dead = [o for o in range(off - 31, off + sz) if o != off and o in cells and o + cells[o][0] > off]
            else:
                dead = [o for o in cells if isinstance(o, int) and o != off and o < off + sz and o + cells[o][0] > off]
            for o in dead:
                c = cells.pop(o)
                if c[0] <= 32:       # keep the surviving bytes
                    for k in range(c[0]):
                        if not off <= o + k < off + sz:
                            cells[o + k] = (1, piece(c[1], k, 1, c[0]))
            old = cells.get(off)
            if old is not None and sz < old[0] <= 32:
                for k in range(sz, old[0]):
                    cells[off + k] = (1, piece(old[1], k, 1, old[0]))
            if region in self.symregions:
                for o in [o for o in cells if isinstance(o, tuple)]:
                    if not self.off_distinct(st, o, off):
                        del cells[o]
        else:
            self.symregions.add(region)
            for o in [o for o in cells if o != 'default' and o != off]:
                if not self.off_distinct(st, off, o):
                    del cells[o]
                    st.ver[region] = st.ver.get(region, 0) + 1
            if cells.get('default') == 'zero':
                del cells['default']
        cells[off] = (sz, val)

    def off_distinct(self, st, a, b):
        ta = ci(a, 64) if isinstance(a, int) else a
        tb = ci(b, 64) if isinstance(b, int) else b
        d = self.binop('sub', 64, ta, tb)
        if d[0] == 'c':
            return d[1] != 0
        return not st.facts.get('u', ta, tb) & E

    def memcpy(self, st, dst, src, n):
        d, s = self.toptr(dst), self.toptr(src)
        if n[0] != 'c' or not isinstance(d[2], int) or not isinstance(s[2], int):
            st.havoc(d[1])
            if isinstance(d[2], int) and isinstance(s[2], int):
                st.cells(d[1], True)[d[2]] = (1, ('ld', s[1], s[2], 1, st.ver.get(s[1], 0)))
            return
        n = n[1]
        src_cells = dict(st.cells(s[1]))
        dc = st.cells(d[1], True)
        for o in [o for o in dc if isinstance(o, int) and d[2] <= o < d[2] + n]:
            del dc[o]
        done = set()
        for o, c in src_cells.items():
            if isinstance(o, int) and s[2] <= o and o + c[0] <= s[2] + n:
                dc[o - s[2] + d[2]] = c
                done.update(range(o, o + c[0]))
        default = src_cells.get('default')
        if s[1][0] == 'glob':
            g = self.mod.globals.get(s[1][1])
            if g is not None and g['const']:
                if 'str' in g:
                    for k in range(n):
                        j = s[2] + k
                        dc[d[2] + k] = (1, ci(ord(g['str'][j]) if j < len(g['str']) else 0, 8))
                else:
                    for o, z, c in g.get('init', []):
                        if s[2] <= o and o + z <= s[2] + n:
                            dc[o - s[2] + d[2]] = (z, self.operand(None, None, c))
                            done.update(range(o, o + z))
                    for k in range(n):
                        if s[2] + k not in done:
                            dc[d[2] + k] = (1, ci(0, 8))
                return
        if default == 'zero':
            for k in range(0, n):
                if s[2] + k not in done:
                    dc[d[2] + k] = (1, ci(0, 8))
        elif default == 'undef' or default is None:
            if default is None:
                # unknown source content: forward reference lazily
                lay = self.layout_guess(n)
                for k, z in lay:
                    hole = [o for o in range(s[2] + k, s[2] + k + z) if o in done]
                    if not hole:
                        dc[d[2] + k] = (z, self.simp(st, ('ld', s[1], s[2] + k, z, st.ver.get(s[1], 0))))
                    else:
                        for o in range(k, k + z, 4):
                            if o + 4 <= k + z and not any(s[2] + o <= x < s[2] + o + 4 for x in hole):
                                dc[d[2] + o] = (4, self.simp(st, ('ld', s[1], s[2] + o, 4, st.ver.get(s[1], 0))))

    @staticmethod
    def layout_guess(n):
        out = [(k, 8) for k in range(0, n - n % 8, 8)]
        k = n - n % 8
        for z in (4, 2, 1):
            if n - k >= z:
                out.append((k, z))
                k += z
        return out

    # ----- running
    def run(self, fname, args, st=None, depth=0, stack=()):
        fn = self.mod.fn(fname)
        st = st or State()
        return self.run_fn(fn, args, st, depth, stack)

    def run_fn(self, fn, args, st, depth, stack, callinst=None):
        self.counter += 1
        self.visited_fns.add(fn.name)
        fr = Frame(fn, self.counter if depth else 0, args, depth, stack + (fn.name,), callinst)
        exits = []
        work = [(st, fr, 0, 0, -1)]
        seen = set()
        while work:
            st, fr, bi, ii, prev = work.pop()
            self.exec_block(st, fr, bi, ii, prev, work, exits)
        return exits

    def exec_block(self, st, fr, bi, ii, prev, work, exits):
        blk = fr.fn.blocks[bi]
        if ii < 0:      # resume at instruction -ii-1
            ii = -ii - 1
        elif ii == 0:
            # phis
            newvals = {}
            for inst in blk:
                if inst.op != 'phi':
                    break
                for o, pb in inst.d['in']:
                    if pb == prev:
                        newvals[inst.id] = self.operand(st, fr, o)
                        break
                ii += 1
            fr.env.update(newvals)
            v = fr.visits.get(bi, 0)
            fr.visits[bi] = v + 1
            # loops decided by constants may run longer than loops with unknown conditions
            if v >= self.const_loop_bound:
                self.cut += 1
                return
        n = len(blk)
        while ii < n:
            inst = blk[ii]
            ii += 1
            self.steps += 1
            if self.steps > self.max_steps:
                raise PathLimit('step limit in %s' % fr.fn.name)
            op = inst.op
            d = inst.d
            if op == 'br':
                s = d['s']
                if len(s) == 1:
                    return self.jump(st, fr, bi, s[0], work, True)
                c = self.operand(st, fr, d['c'])
                t = self.truth(st, c)
                if t is None and c == UNDEF:
                    st.event('undef-branch', inst)
                if t is not None:
                    return self.jump(st, fr, bi, s[0] if t else s[1], work, True)
                self.fork(len(fr.stack))
                key = ('unk', bi)
                k = fr.visits.get(key, 0)
                if k >= self.loop_bound:
                    # prefer leaving loops: keep both, but stop re-entering below
                    pass
                fr.visits[key] = k + 1
                st2, fr2 = st.copy(), fr.copy()
                hooks = self.models.get('@branch')
                for s_ in self.assume(st2, c, False):
                    if k < self.loop_bound or self.leaves(fr2.fn, bi, s[1]):
                        f_ = fr2.copy()
                        s_.event('br', inst, c, False)
                        self.jump(s_, f_, bi, s[1], work, False)
                    else:
                        self.cut += 1
                for s_ in self.assume(st, c, True):
                    if k < self.loop_bound or self.leaves(fr.fn, bi, s[0]):
                        f_ = fr.copy()
                        s_.event('br', inst, c, True)
                        self.jump(s_, f_, bi, s[0], work, False)
                    else:
                        self.cut += 1
                return
            if op == 'switch':
                c = self.operand(st, fr, d['c'])
                w = d['w']
                if c[0] == 'c':
                    for v, b in d['cases']:
                        if (int(v) & ((1 << w) - 1)) == c[1]:
                            return self.jump(st, fr, bi, b, work, True)
                    return self.jump(st, fr, bi, d['d'], work, True)
                self.fork(len(fr.stack))
                k = fr.visits.get(('unk', bi), 0)
                fr.visits[('unk', bi)] = k + 1
                if k >= self.loop_bound:
                    self.cut += 1
                    return
                rest = st.copy()
                ok = True
                for v, b in d['cases']:
                    s2 = st.copy()
                    if s2.facts.add('u', c, ci(int(v), w), E):
                        s2.event('br', inst, ('cmp', 'u', c, ci(int(v), w), E), True)
                        self.jump(s2, fr.copy(), bi, b, work, False)
                    if ok:
                        ok = rest.facts.add('u', c, ci(int(v), w), L | G)
                if ok:
                    rest.event('br', inst, ('switch-default', c), True)
                    self.jump(rest, fr.copy(), bi, d['d'], work, False)
                return
            if op == 'ret':
                v = self.operand(st, fr, d['o'][0]) if d.get('o') else None
                exits.append(Exit('return', st, v, inst, fr))
                return
            if op == 'unreachable':
                exits.append(Exit('noreturn', st, None, inst, fr))
                return
            if op == 'call':
                try:
                    res = self.call(st, fr, inst)
                except Split as sp:
                    for s2 in sp.states:
                        work.append((s2, fr.copy(), bi, -ii, prev))
                    return
                if res is None:
                    exits.append(Exit('noreturn', st, None, inst, fr))
                    return
                if len(res) == 1 and res[0][0] is st:
                    fr.env[inst.id] = res[0][1]
                    continue
                first = True
                for s2, v in res:
                    f2 = fr.copy()
                    f2.env[inst.id] = v
                    work.append((s2, f2, bi, ii, prev))
                if len(work) > self.max_states:
                    raise PathLimit('state limit in %s' % fr.fn.name)
                return
            try:
                self.simple(st, fr, inst, op, d)
            except Split as sp:
                for s2 in sp.states:
                    work.append((s2, fr.copy(), bi, -ii, prev))
                return

    def leaves(self, fn, bi, target):
        """does the edge bi->target leave every cycle through bi?"""
        key = (fn.name, bi, target)
        r = self.decided.get(key)
        if r is None:
            seen = {target}
            stack = [target]
            r = True
            while stack:
                x = stack.pop()
                if x == bi:
                    r = False
                    break
                for y in fn.succs(x):
                    if y not in seen:
                        seen.add(y)
                        stack.append(y)
            self.decided[key] = r
        return r

    def fork(self, n):
        self.nforks += 1
        if self.nforks > self.max_states:
            raise PathLimit('fork limit (%d)' % self.max_states)

    ticks = 0

    def jump(self, st, fr, bi, target, work, decided):
        self.ticks += 1
        if not self.ticks & 1023 and late():
            raise PathLimit('out of time')
        work.append((st, fr, target, 0, bi))

    def simple(self, st, fr, inst, op, d):
        env = fr.env
        if op == 'alloca':
            r = ('alloca', fr.fid, inst.id, inst.nm or fr.fn.name)
            cnt = self.operand(st, fr, d['n'])
            st.mem[r] = {'default': 'undef'}
            st.shared.discard(r)
            env[inst.id] = ('p', r, 0)
        elif op == 'load':
            p = self.operand(st, fr, d['p'])
            if self.on_mem:
                self.on_mem(self, st, fr, inst, p, inst.sz, False)
            env[inst.id] = self.load(st, p, inst.sz, inst.ty, inst)
        elif op == 'store':
            p = self.operand(st, fr, d['p'])
            v = self.operand(st, fr, d['v'])
            if self.on_mem:
                self.on_mem(self, st, fr, inst, p, d['vsz'], True)
            if v[0] == 'agg':
                tp = self.toptr(p)
                for o, z, x in v[1]:
                    self.store(st, self.ptradd(st, p, ci(o, 64)), x, z)
            elif v[0] == 'cat' and v[1]:
                for o, z, x in v[1]:
                    self.store(st, self.ptradd(st, p, ci(o, 64)), x, z)
            else:
                self.store(st, p, v, d['vsz'])
            if '@store' in self.models:
                self.models['@store'](self, st, fr, inst, p, v, d['vsz'])
        elif op == 'getelementptr':
            p = self.operand(st, fr, d['p'])
            off = ci(d['off'], 64)
            for o, sc, bits in d['idx']:
                x = self.operand(st, fr, o)
                if bits < 64:
                    x = self.cast('sext', st, x, bits, 64)
                off = self.binop('add', 64, off, self.binop('mul', 64, x, ci(sc, 64)))
            env[inst.id] = self.ptradd(st, p, off) if off != UNDEF else UNDEF
        elif op == 'icmp':
            a, b = self.operand(st, fr, d['o'][0]), self.operand(st, fr, d['o'][1])
            w = int(d['oty'][1:]) if d['oty'][0] == 'i' else 64
            env[inst.id] = self.icmp(st, d['pr'], a, b, w)
        elif op == 'fcmp':
            env[inst.id] = self.fcmp(st, d['pr'], self.operand(st, fr, d['o'][0]), self.operand(st, fr, d['o'][1]))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.operand(st, fr, d['o'][0]), self.operand(st, fr, d['o'][1])
            bits = int(inst.ty[1:])
            if bits == 1 and op == 'xor' and b == TRUE:
                env[inst.id] = self.neg(a) if a != UNDEF else UNDEF
            elif bits == 1 and op in ('and', 'or', 'xor'):
                ta, tb = self.truth(st, a), self.truth(st, b)
                a = a if ta is None else ci(int(ta), 1)
                b = b if tb is None else ci(int(tb), 1)
                if op == 'or' and (a == TRUE or b == TRUE):
                    env[inst.id] = TRUE
                elif op == 'or' and b == FALSE:
                    env[inst.id] = a
                elif op == 'or' and a == FALSE:
                    env[inst.id] = b
                elif op == 'and' and a == TRUE:
                    env[inst.id] = b
                else:
                    env[inst.id] = self.binop(op, 1, a, b)
            else:
                if a[0] == 'p' or b[0] == 'p':
                    if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                        x = ci(a[2], 64) if isinstance(a[2], int) else a[2]
                        y = ci(b[2], 64) if isinstance(b[2], int) else b[2]
                        env[inst.id] = self.binop('sub', 64, x, y)
                        return
                    pa, pb = self.toptr(a), self.toptr(b)
                    if op == 'sub' and pa[1] == pb[1]:
                        x = ci(pa[2], 64) if isinstance(pa[2], int) else pa[2]
                        y = ci(pb[2], 64) if isinstance(pb[2], int) else pb[2]
                        env[inst.id] = self.binop('sub', 64, x, y)
                        return
                env[inst.id] = self.binop(op, bits, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[inst.id] = self.binop(op, 64, self.operand(st, fr, d['o'][0]), self.operand(st, fr, d['o'][1]))
        elif op == 'fneg':
            a = self.operand(st, fr, d['o'][0])
            env[inst.id] = cf(-fval(a)) if a[0] == 'f' else ('fneg', a)
        elif op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'fpext', 'fptrunc'):
            a = self.operand(st, fr, d['o'][0])
            fb = int(d['oty'][1:]) if d['oty'][0] in 'if' else 64
            tb = int(inst.ty[1:]) if inst.ty[0] in 'if' else 64
            if op in ('fpext', 'fptrunc'):
                env[inst.id] = a if a[0] == 'f' else (op, a)
                return
            if fb == 1 and op == 'zext':
                t = self.truth(st, a)
                if t is not None:
                    env[inst.id] = ci(int(t), tb)
                    return
            env[inst.id] = self.cast(op, st, a, fb, tb)
        elif op == 'select':
            c = self.operand(st, fr, d['o'][0])
            a, b = self.operand(st, fr, d['o'][1]), self.operand(st, fr, d['o'][2])
            t = self.truth(st, c)
            env[inst.id] = a if t is True else b if t is False else a if a == b else ('sel', c, a, b)
        elif op == 'extractvalue':
            a = self.operand(st, fr, d['o'][0])
            env[inst.id] = self.extract(a, inst)
        elif op == 'insertvalue':
            a = self.operand(st, fr, d['o'][0])
            v = self.operand(st, fr, d['o'][1])
            off = self.agg_off(inst.ty, d['ix'])
            cells = [x for x in (a[1] if a[0] == 'agg' else ()) if x[0] != off]
            cells.append((off, 8, v))
            env[inst.id] = ('agg', tuple(sorted(cells, key=lambda x: x[0])))
        else:
            env[inst.id] = self.fresh(st, op)

    @staticmethod
    def agg_off(ty, ix):
        # only flat {off:ty,...} aggregates of 8-byte members occur (coerced small structs)
        body = ty[1:ty.index('}')]
        return int(body.split(',')[ix[0]].split(':')[0])

    def extract(self, a, inst):
        # aggregate types are of the shape {0:i64,8:ptr}
        k = inst.d['ix'][0]
        if a[0] == 'agg':
            for o, z, v in a[1]:
                if o == 8 * k:
                    return v
            return UNDEF
        if a == UNDEF:
            return UNDEF
        return ('ext', k, a)

    # ----- calls
    def call(self, st, fr, inst):
        d = inst.d
        f = self.operand(st, fr, d['f'])
        args = [self.operand(st, fr, a) for a in d['args']]
        if f[0] != 'fn':
            st.event('icall', inst, f, tuple(args))
            m = self.models.get('@icall')
            if m:
                r = m(self, st, fr, inst, f, args)
                if r is not None:
                    return r
            self.escape(st, args)
            return [(st, self.fresh(st, 'icall'))]
        name = f[1]
        self.visited_calls.add((fr.fn.name, inst.id))
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, fr, inst, args)
            if r is not NotImplemented:
                return r
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, inst, name, args)
        fn = self.mod.functions.get(name)
        if fn is not None and not fn.decl and name not in self.opaque:
            rec = name in fr.stack
            lim = self.rec_depth if rec else self.max_depth
            if (not rec or self.rec_ok(st, fn, args)) and fr.depth < lim and (self.inline is None or self.inline(name)):
                return self.inline_call(st, fr, inst, fn, args)
            return self.opaque_call(st, fr, inst, name, args)
        return self.external(st, fr, inst, name, args)

    def inline_call(self, st, fr, inst, fn, args):
        if fn.vararg:
            return self.opaque_call(st, fr, inst, fn.name, args)
        if args and all(a[0] in ('c', 'f') for a in args) and self.pure(fn.name):
            # pure function of decided scalars: one summary per argument tuple
            key = ('memo', fn.name, tuple(args))
            r = self.decided.get(key)
            if r is None:
                exits = self.run_fn(fn, args, State(), fr.depth + 1, fr.stack, inst)
                r = (exits[0].ret,) if len(exits) == 1 and exits[0].kind == 'return' and exits[0].ret is not None and exits[0].ret[0] in ('c', 'f') else ()
                self.decided[key] = r
            if r:
                return [(st, r[0])]
        args = list(args)
        # byval copies
        for k, (ty, kind, sz) in enumerate(inst.d['at']):
            if kind == 'byval' and args[k] != UNDEF:
                self.counter += 1
                r = ('alloca', self.counter, -1 - k, 'byval')
                st.mem[r] = {}
                st.shared.discard(r)
                self.memcpy(st, ('p', r, 0), args[k], ci(sz, 64))
                src = self.toptr(args[k])
                if src[1] in st.mem and 'default' in st.mem[src[1]]:
                    st.cells(r, True)['default'] = st.mem[src[1]]['default']
                args[k] = ('p', r, 0)
        st.event('enter', fn.name, inst, tuple(args))
        exits = self.run_fn(fn, args, st, fr.depth + 1, fr.stack, inst)
        out = []
        for e in exits:
            if e.kind == 'noreturn':
                h = self.models.get('@noreturn')
                if h:
                    h(self, e)
                continue
            e.state.event('leave', fn.name, inst, e.ret)
            out.append((e.state, e.ret if e.ret is not None else UNDEF))
        if not out:
            # never returns
            self.counter += 1
            return []
        return out

    def escape(self, st, args):
        for a in args:
            p = self.toptr(a) if a[0] == 'p' or a[0] in ('sym', 'ld', 'call') else None
            if p is None or p[1][0] == 'null':
                continue
            if p[1][0] in ('alloca', 'heap') and p[1] in st.mem:
                # callee may write through it
                st.havoc(p[1])
            elif p[1] in st.mem:
                st.havoc(p[1])

    def opaque_call(self, st, fr, inst, name, args):
        st.event('call', name, inst, tuple(args))
        pure = self.pure(name)
        if not pure:
            self.escape(st, args)
            v = self.fresh(st, name)
            return [(st, v)]
        return [(st, ('call', name) + tuple(args) + (self.memver(st, args),))]

    def memver(self, st, args):
        return ('ver',) + tuple(st.ver.get(self.toptr(a)[1], 0) for a in args if a != UNDEF and a[0] not in ('c', 'f', 'fn'))

    def pure(self, name):
        key = ('pure', name)
        r = self.decided.get(key)
        if r is None:
            self.decided[key] = True   # optimistic for recursion
            fn = self.mod.functions.get(name)
            r = True
            if fn is None or fn.decl:
                r = name in PURE_EXT or name in READONLY_EXT
            else:
                al = {i.id for i in fn if i.op == 'alloca'}
                for i in fn:
                    if i.op == 'store':
                        p = i.d['p']
                        if not (p[0] == 'v' and (p[1] in al or (fn.insts[p[1]].op == 'getelementptr' and fn.insts[p[1]].d['p'][0] == 'v' and fn.insts[p[1]].d['p'][1] in al))):
                            r = False
                    elif i.op == 'call':
                        c = i.callee()
                        if c is None or not (self.pure(c) or c.startswith('llvm.fabs') or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime')):
                            r = False
                    if not r:
                        break
            self.decided[key] = r
        return r

    def region_size(self, st, r):
        return None

    def intrinsic(self, st, fr, inst, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if self.on_mem:
                self.on_mem(self, st, fr, inst, args[1], args[2], False)
                self.on_mem(self, st, fr, inst, args[0], args[2], True)
            self.memcpy(st, args[0], args[1], args[2])
            return [(st, UNDEF)]
        if name.startswith('llvm.memset'):
            p = self.toptr(args[0])
            if args[1] == ci(0, 8) and p[2] == 0 and args[2][0] == 'c' and args[2][1] >= 32 and self.region_size(st, p[1]) == args[2]:
                cells = st.cells(p[1], True)
                cells.clear()
                cells['default'] = 'zero'
            elif args[2][0] == 'c' and isinstance(p[2], int) and args[1][0] == 'c' and args[2][1] <= 4096:
                for k in range(args[2][1]):
                    self.store(st, ('p', p[1], p[2] + k), ci(args[1][1], 8), 1)
            else:
                st.havoc(p[1])
            return [(st, UNDEF)]
        if name.startswith('llvm.fabs'):
            return [(st, self.ext_pure('fabs', args))]
        if name.startswith('llvm.abs.'):
            a = args[0]
            if a[0] == 'c':
                return [(st, ci(abs(sval(a)), a[2]))]
            w = int(inst.ty[1:])
            c = self.icmp(st, 'slt', a, ci(0, w), w)
            n = self.binop('sub', w, ci(0, w), a)
            return [(st, n if c == TRUE else a if c == FALSE else ('sel', c, n, a))]
        if name.startswith(('llvm.smax.', 'llvm.smin.', 'llvm.umax.', 'llvm.umin.')):
            w = int(inst.ty[1:])
            c = self.icmp(st, ('s' if name[5] == 's' else 'u') + ('gt' if 'max' in name else 'lt'), args[0], args[1], w)
            return [(st, args[0] if c == TRUE else args[1] if c == FALSE else ('sel', c, args[0], args[1]))]
        if name.startswith('llvm.is.fpclass'):
            m = args[1][1]
            if m == 0x204:
                return [(st, ('cmp', 'f', self.ext_pure('fabs', args[:1]), cf(float('inf')), E))]
            if m == 3:
                return [(st, ('cmp', 'f', args[0], args[0], U))]
            return [(st, ('call', 'fpclass', args[0], args[1]))]
        if name.startswith('llvm.stacksave') or name.startswith('llvm.stackrestore') or name.startswith('llvm.lifetime') or name.startswith('llvm.va_'):
            return [(st, UNDEF)]
        for m in ('trunc', 'floor', 'ceil', 'round', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow', 'log2', 'log10', 'rint', 'copysign', 'minnum', 'maxnum'):
            if name.startswith('llvm.%s.f' % m):
                return [(st, self.ext_pure(m, args))]
        if name == 'llvm.fmuladd.f64':
            return [(st, ('fadd', self.binop('fmul', 64, args[0], args[1]), args[2]))]
        return [(st, self.fresh(st, name))]

    fold_libm = False      # constant arguments: the value the C library computes

    def ext_pure(self, name, args):
        import math
        if all(a[0] == 'f' for a in args):
            try:
                x = [fval(a) for a in args]
                if name == 'fabs':
                    return cf(abs(x[0]))
                if name == 'trunc' and abs(x[0]) < 1e300:
                    return cf(float(math.trunc(x[0])))
                if name == 'sqrt' and x[0] >= 0:
                    return cf(math.sqrt(x[0]))
                if name in ('floor', 'ceil') and abs(x[0]) < 1e15:
                    return cf(math.copysign(float(getattr(math, name)(x[0])), x[0]))
                if name == 'pow' and all(v == int(v) and abs(v) < 1e6 for v in x) and 0 <= x[1] <= 40 and abs(int(x[0]) ** int(x[1])) < 1 << 53:
                    return cf(float(int(x[0]) ** int(x[1])))
                if name == 'pow' and x[1] == int(x[1]) and 0 <= x[1] <= 12 and abs(x[0]) < 1e6 and Fraction(x[0]) ** int(x[1]) == Fraction(x[0] ** int(x[1])):
                    return cf(x[0] ** int(x[1]))        # exactly representable
                if self.fold_libm:
                    from terms import EXT
                    if name in EXT:
                        return cf(float(EXT[name](*x)))
                if name == 'fmod' and math.isfinite(x[0]) and x[1] == x[1]:
                    return cf(math.fmod(x[0], x[1]) if x[1] != 0 else float('nan'))
            except Exception:
                pass
        return ('call', name) + tuple(args)

    def external(self, st, fr, inst, name, args):
        fn = self.mod.functions.get(name)
        if name in PURE_EXT:
            return [(st, self.ext_pure(name, args))]
        if name in ('exit', 'abort', '_exit', '__assert_fail') or (fn is not None and fn.noreturn) or inst.d.get('nr'):
            st.event('call', name, inst, tuple(args))
            return None
        if name in READONLY_EXT:
            s = self.strconst(st, args[0]) if args else None
            if name == 'strlen' and s is not None:
                return [(st, ci(len(s), 64))]
            if name == 'strcmp':
                t = self.strconst(st, args[1])
                if s is not None and t is not None:
                    return [(st, ci(0 if s == t else 1 if s > t else -1, 32))]
                if args[0] == args[1]:
                    return [(st, ci(0, 32))]
            st.event('call', name, inst, tuple(args))
            return [(st, ('call', name) + tuple(args) + (self.memver(st, args),))]
        st.event('call', name, inst, tuple(args))
        if name in ('malloc', 'calloc', 'realloc'):
            return [(st, self.fresh(st, name))]
        self.escape(st, args)
        return [(st, self.fresh(st, name))]

    def strconst(self, st, v):
        if v[0] == 'p' and v[1][0] == 'glob' and isinstance(v[2], int):
            return self.mod.gstr(v[1][1], v[2])
        return None


def sym(name):
    return ('sym', name)


def call_events(st, *names):
    return [e for e in st.events() if e[0] == 'call' and (not names or e[1] in names)]
