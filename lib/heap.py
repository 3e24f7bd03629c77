"""Heap, string and variadic-call layer of the abstract interpreter.

Every allocation is a region of its own with a size and a status (live / freed).  Memory safety is a typestate on regions:
dereferencing NULL, a freed region or beyond a known size, releasing twice, or branching on an uninitialised value ends the path
with a fault that names the instruction.  Strings are either byte-precise or abstract names (regions of kind 'str') whose only
observable attributes are their identity and what a client of the analysis declares about them.
"""
import libc
import re
from absint import *
from ir import AnalysisBroken

FMT = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L)?([diouxXcsfFgGeEp%n])')


STRTOD = re.compile(r'\s*[-+]?(0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][-+]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN](?:\([A-Za-z0-9_]*\))?)')


class Fault(Exception):
    def __init__(self, kind, detail, inst=None):
        Exception.__init__(self, kind)
        self.kind, self.detail, self.inst = kind, detail, inst


def lin(t):
    """linear form of an address/size term: (constant, {term: coefficient})"""
    if isinstance(t, int):
        return t, {}
    if t[0] == 'c':
        return sval(t), {}
    if t[0] == 'add' and isinstance(t[1], int):
        a, b = lin(t[2]), lin(t[3])
        m = dict(a[1])
        for k, v in b[1].items():
            m[k] = m.get(k, 0) + v
        return a[0] + b[0], {k: v for k, v in m.items() if v}
    if t[0] == 'sub' and isinstance(t[1], int):
        a, b = lin(t[2]), lin(t[3])
        m = dict(a[1])
        for k, v in b[1].items():
            m[k] = m.get(k, 0) - v
        return a[0] - b[0], {k: v for k, v in m.items() if v}
    if t[0] == 'mul' and isinstance(t[1], int):
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y[0] == 'c':
                a = lin(x)
                return a[0] * sval(y), {k: v * sval(y) for k, v in a[1].items()}
    return 0, {t: 1}


class HInterp(Interp):
    def __init__(self, mod, models=None, **kw):
        kw.setdefault('max_depth', 60)
        kw.setdefault('const_loop_bound', 100000)
        Interp.__init__(self, mod, models, **kw)
        self.faults = []
        self.exits = []       # states that end in exit()/abort()
        self.check_uninit = True
        self.alloca_size = {}

    rec_depth = 80

    def rec_ok(self, st, fn, args):
        return True

    def init_globals(self, st):
        """initial contents of the program's mutable globals"""
        for n, g in self.mod.globals.items():
            if g.get('decl') or g['const'] or n in self.STREAMS:
                continue
            r = ('glob', n)
            cells = {'default': 'zero'}
            if 'str' in g:
                for k, ch in enumerate(g['str']):
                    cells[k] = (1, ci(ord(ch) & 255, 8))
            for o, z, c in g.get('init', []):
                cells[o] = (z, self.operand(None, None, c))
            st.mem[r] = cells
            st.shared.discard(r)
        return st

    # ----- regions
    def new_region(self, st, kind, size, init, inst=None, tag=''):
        k = st.info.get('#heap', 0)
        st.info['#heap'] = k + 1
        r = ('heap', k, tag)
        st.mem[r] = {'default': init}
        st.shared.discard(r)
        st.info[r] = ('live', size, inst.loc if inst is not None else '')
        return r

    def status(self, st, r):
        x = st.info.get(r)
        return x[0] if x else None

    def region_size(self, st, r):
        if r[0] == 'heap':
            x = st.info.get(r)
            return x[1] if x else None
        if r[0] == 'alloca':
            return self.alloca_size.get(r)
        if r[0] == 'glob':
            g = self.mod.globals.get(r[1])
            if g is not None and g.get('size') and not g.get('decl'):
                return ci(g['size'], 64)
        return None

    def live(self, st):
        return [r for r, x in st.info.items() if isinstance(r, tuple) and r[0] == 'heap' and x[0] == 'live']

    def reach(self, st, roots):
        """regions reachable from the given values / regions"""
        seen = set()
        todo = []
        for v in roots:
            todo.append(v if v[0] in ('heap', 'alloca', 'glob', 'str') and v[0] != 'p' else self.toptr(v)[1])
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            for o, c in (st.mem.get(r) or {}).items():
                if o == 'default':
                    continue
                v = c[1]
                if v[0] == 'p':
                    todo.append(v[1])
        return seen

    def leaks(self, st, roots=()):
        glob = [r for r in st.mem if r[0] == 'glob']
        ok = self.reach(st, list(roots) + glob)
        return [r for r in self.live(st) if r not in ok]

    # ----- memory checks
    def access(self, st, fr, inst, p, n, write):
        if p == UNDEF:
            raise Fault('uninitialised pointer', 'dereference of an uninitialised pointer', inst)
        p = self.toptr(p)
        r, off = p[1], p[2]
        if r == ('null',) or r[0] == 'abs':
            raise Fault('null dereference', 'dereference of NULL', inst)
        if r[0] == 'sym':
            z = st.facts.get('u', r[1], ci(0, 64))
            if z == E:
                raise Fault('null dereference', 'dereference of NULL', inst)
            return
        if r[0] == 'heap' and self.status(st, r) == 'freed':
            raise Fault('use after free', 'access to released memory (allocated at %s)' % st.info[r][2], inst)
        sz = self.region_size(st, r)
        if sz is None or n[0] != 'c':
            return
        cs, ts = lin(sz)
        co, to = lin(off)
        d = dict(ts)
        for k, v in to.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if not d:
            if co + n[1] > cs or co < 0 and not to:
                raise Fault('out of bounds', 'access of %d byte(s) at offset %s of a %s-byte object (%s)' % (n[1], show(ci(off, 64)) if isinstance(off, int) else show(off), show(sz), showr(r)), inst)

    def simple(self, st, fr, inst, op, d):
        if op == 'load':
            self.access(st, fr, inst, self.operand(st, fr, d['p']), ci(inst.sz, 64), False)
        elif op == 'store':
            self.access(st, fr, inst, self.operand(st, fr, d['p']), ci(d['vsz'], 64), True)
        Interp.simple(self, st, fr, inst, op, d)
        if op == 'alloca':
            r = fr.env[inst.id][1]
            cnt = self.operand(st, fr, d['n'])
            es = d.get('asz')
            if es is not None and cnt[0] == 'c':
                self.alloca_size[r] = ci(es * cnt[1], 64)

    def exec_block(self, st, fr, bi, ii, prev, work, exits):
        try:
            Interp.exec_block(self, st, fr, bi, ii, prev, work, exits)
        except Fault as f:
            self.faults.append((f.kind, f.detail, f.inst, self.curstate or st, fr.stack))

    curstate = None

    def load(self, st, ptr, sz, ty, inst=None):
        if ptr == UNDEF:
            return UNDEF
        if ty[0] != '{':
            p = self.toptr(ptr)
            if p[1][0] == 'str' and sz == 1:
                return self.simp(st, ('strb', ('name', p[1][1]), p[2]))
            cells = st.mem.get(p[1])
            if cells and p[2] not in cells:
                # a symbolic offset may alias any other cell that is not known to be distinct
                d = cells.get('default')
                sy = p[1] in self.symregions and [o for o in cells if isinstance(o, tuple)]
                if sy or not isinstance(p[2], int):
                    for o in cells:
                        if o == 'default':
                            continue
                        if (isinstance(o, tuple) or not isinstance(p[2], int)) and not self.off_distinct(st, o, p[2]):
                            return self.simp(st, ('ld', p[1], p[2], sz, st.ver.get(p[1], 0)))
                    if d == 'zero':
                        return NULL if ty == 'ptr' else ('f', '0' * 16) if ty == 'f64' else ci(0, sz * 8)
        v = Interp.load(self, st, ptr, sz, ty, inst)
        return NULL if ty == 'ptr' and v == ci(0, 64) else v

    def memcpy(self, st, dst, src, n):
        s, d = self.toptr(src), self.toptr(dst)
        if s[1][0] == 'str' or (s[1] in st.mem and s[2] in st.mem[s[1]] and st.mem[s[1]][s[2]][1][0] == 'strb' and n[0] != 'c'):
            i = self.sid(st, src)
            self.set_alias(st, dst, i)
            return
        return Interp.memcpy(self, st, dst, src, n)

    def set_alias(self, st, dst, ident):
        d = self.toptr(dst)
        cells = st.cells(d[1], True)
        if ident[0] == 'lit':
            for k, ch in enumerate(ident[1] + '\0'):
                self.store(st, self.ptradd(st, dst, ci(k, 64)), ci(ord(ch), 8), 1)
            return
        if ident[0] == 'bytes':
            for k, b in enumerate(ident[1] + (ci(0, 8),)):
                self.store(st, self.ptradd(st, dst, ci(k, 64)), b, 1)
            return
        if isinstance(d[2], int):
            for o in [o for o in cells if isinstance(o, int) and o >= d[2]]:
                del cells[o]
        if not isinstance(d[2], int):
            self.symregions.add(d[1])
        cells[d[2]] = (1, ('strb', ident, 0))

    # ----- strings
    def sid(self, st, v, limit=20000):
        """identity of the string a pointer designates"""
        if v == UNDEF:
            return ('undef',)
        p = self.toptr(v)
        r, off = p[1], p[2]
        if r[0] == 'str':
            return ('name', r[1]) if off == 0 else ('tail', r[1], off)
        if r[0] == 'glob':
            s = self.mod.gstr(r[1], off) if isinstance(off, int) and self.mod.globals.get(r[1], {}).get('const') else None
            if s is not None:
                return ('lit', s)
        cells = st.mem.get(r)
        if cells is None or not isinstance(off, int):
            if cells is not None and off in cells and cells[off][1][0] == 'strb' and cells[off][1][2] == 0:
                return cells[off][1][1]
            return ('ptr', v)
        c = cells.get(off)
        if c is not None and c[1][0] == 'strb' and c[1][2] == 0:
            return c[1][1]
        out = []
        for k in range(limit):
            b = self.load(st, ('p', r, off + k), 1, 'i8')
            if b == UNDEF:
                return ('undef',) if k == 0 else ('unterminated', tuple(out))
            if b[0] == 'c' and b[1] == 0:
                break
            if b[0] == 'ld':
                return ('ptr', v)
            if st.facts.get('u', b, ci(0, 8)) == E:
                break
            out.append(b)
        else:
            return ('unterminated', tuple(out))
        if all(b[0] == 'c' for b in out):
            return ('lit', ''.join(chr(b[1]) for b in out))
        return ('bytes', tuple(out))

    def strlen(self, st, i):
        if i[0] in ('lit', 'bytes'):
            return ci(len(i[1]), 64)
        if i[0] == 'name':
            t = ('call', 'strlen', ('p', ('str', i[1]), 0))
        else:
            t = ('call', 'strlen', i)
        st.facts.add('u', t, ci(1 << 31, 64), L)
        return self.simp(st, t)

    def str_eq(self, st, a, b):
        """True / False / condition term; identities of abstract names decide equality"""
        if a == b and a[0] in ('lit', 'name', 'tail', 'bytes'):
            return True
        if a[0] == 'lit' and b[0] == 'lit':
            return False
        h = self.models.get('@streq')
        if h:
            r = h(self, st, a, b)
            if r is not None:
                return r
        if a[0] == 'name' and b[0] == 'name':
            return False       # distinct classes of the partition
        if {a[0], b[0]} <= {'lit', 'bytes'}:
            if len(a[1]) != len(b[1]):
                return False
        x, y = sorted((a, b), key=repr)
        return ('cmp', 'u', ('call', 'streq', x, y), ci(0, 32), E)

    def readstr(self, st, fr, inst, p):
        self.access(st, fr, inst, p, ci(1, 64), False)
        i = self.sid(st, p)
        if i[0] in ('undef', 'unterminated'):
            raise Fault('unterminated string', 'string function reads an uninitialised or unterminated buffer', inst)
        return i

    # ----- variadic functions and formats
    def inline_call(self, st, fr, inst, fn, args):
        if fn.vararg:
            return self.inline_vararg(st, fr, inst, fn, args)
        return Interp.inline_call(self, st, fr, inst, fn, args)

    def inline_vararg(self, st, fr, inst, fn, args):
        st.event('enter', fn.name, inst, tuple(args))
        exits = self.run_fn(fn, list(args), st, fr.depth + 1, fr.stack, inst)
        out = []
        for e in exits:
            if e.kind == 'return':
                e.state.event('leave', fn.name, inst, e.ret)
                out.append((e.state, e.ret if e.ret is not None else UNDEF))
            elif e.kind == 'noreturn':
                self.exits.append(e.state)
        return out

    def va_start(self, st, fr, p):
        self.counter += 1
        r = ('va', self.counter)
        st.mem[r] = {}
        off = 0
        n = len(fr.fn.args)
        at = fr.callinst.d['at'] if fr.callinst is not None else getattr(self, 'top_at', [])
        for k in range(n, len(fr.args)):
            a = fr.args[k]
            ty, kind, sz = at[k] if k < len(at) else ('i64', '', 8)
            if kind == 'byval':
                self.memcpy(st, ('p', r, off), a, ci(sz, 64))
                off += (sz + 7) // 8 * 8
            else:
                st.mem[r][off] = (8 if ty in ('ptr', 'f64', 'i64') else int(ty[1:]) // 8, a)
                off += 8
        self.store(st, p, ci(48, 32), 4)
        self.store(st, self.ptradd(st, p, ci(4, 64)), ci(176, 32), 4)
        self.store(st, self.ptradd(st, p, ci(8, 64)), ('p', r, 0), 8)
        st.info[('va', r)] = off

    def va_args(self, st, va):
        """remaining arguments of a va_list, as 8-byte slots"""
        p = self.load(st, self.ptradd(st, va, ci(8, 64)), 8, 'ptr')
        if p == ('undef-va',):
            raise Fault('argument list used twice', 'a va_list is indeterminate after a callee consumed it')
        if p[0] != 'p' or p[1][0] != 'va' or not isinstance(p[2], int):
            return None
        self.store(st, self.ptradd(st, va, ci(8, 64)), ('undef-va',), 8)
        out = []
        o = p[2]
        cells = st.mem.get(p[1], {})
        while o in cells:
            out.append(cells[o][1])
            o += 8
        return out

    def pieces(self, st, fr, inst, fmt, args, check=True):
        """pieces of a formatted string; args: values or None when not known"""
        i = self.readstr(st, fr, inst, fmt)
        if i[0] != 'lit':
            return (('s', i),)
        s, out, pos, k = i[1], [], 0, 0
        for m in FMT.finditer(s):
            if m.start() > pos:
                out.append(('t', s[pos:m.start()]))
            pos = m.end()
            if m.group(5) == '%':
                out.append(('t', '%'))
                continue
            extra = []
            for g in (m.group(2), m.group(3)):
                if g == '*':
                    extra.append(args[k] if args is not None and k < len(args) else UNDEF)
                    k += 1
            if args is None:
                v = ('sym', 'vararg%d' % k)
            elif k >= len(args):
                raise Fault('missing format argument', 'format "%s" reads more arguments than are passed' % s, inst)
            else:
                v = args[k]
            k += 1
            conv = m.group(5)
            if conv == 's':
                if v == NULL:
                    raise Fault('null string', 'NULL passed for %%s of "%s"' % s, inst)
                pi = self.readstr(st, fr, inst, v) if v[0] == 'p' else ('ptr', v)
                if m.group(0) == '%s':
                    out.append(('s', pi))
                else:
                    out.append(('S', m.group(0), tuple(extra), pi))
            elif conv == 'c':
                out.append(('c', v))
            else:
                out.append(('n', m.group(0), v) + tuple(extra))
        if pos < len(s):
            out.append(('t', s[pos:]))
        return tuple(out)

    flat_numbers = False      # render literal floating-point numbers as text

    def flat(self, pieces):
        """('lit', text) when every piece is literal"""
        out = ''
        for p in pieces:
            if p[0] == 't':
                out += p[1]
            elif p[0] == 's' and p[1][0] == 'lit':
                out += p[1][1]
            elif p[0] == 'c' and p[1][0] == 'c':
                out += chr(p[1][1] & 255)
            elif p[0] == 'n' and p[2][0] == 'c' and re.fullmatch(r'%(z|l|ll)?[du]', p[1]):
                out += str(sval(p[2]) if p[1][-1] == 'd' else p[2][1])
            elif self.flat_numbers and p[0] == 'n' and p[2][0] == 'f' and len(p) == 3 and re.fullmatch(r'%[-+ 0#]*\d*(\.\d+)?[eEfFgG]', p[1]):
                out += p[1] % fval(p[2])
            elif self.flat_numbers and (p[0] == 'S' and p[3][0] == 'lit' and all(x[0] == 'c' for x in p[2])
                                        or p[0] == 'n' and p[2][0] in ('f', 'c') and all(x[0] == 'c' for x in p[3:])):
                ex = [sval(ci(x[1], 32)) for x in (p[2] if p[0] == 'S' else p[3:])]
                f = re.sub('[zlhj]', '', p[1])
                for x in ex:
                    f = f.replace('*', str(x), 1) if x >= 0 or f.find('*') and f[f.find('*') - 1] != '.' else f.replace('.*', '', 1)
                f = f.replace('--', '-')
                v = p[3][1] if p[0] == 'S' else fval(p[2]) if p[2][0] == 'f' else p[2][1] if p[1][-1] in 'uxXo' else sval(p[2])
                try:
                    out += f.replace('u', 'd') % v
                except (ValueError, TypeError):
                    return None
            else:
                return None
        return out

    # ----- externals
    STREAMS = {'stdout', 'stderr', 'stdin'}

    def stream(self, v):
        if v[0] == 'ld' and v[1][0] == 'glob' and v[1][1] in self.STREAMS:
            return v[1][1]
        return v

    def out_event(self, st, inst, stream, pieces):
        st.event('out', stream, pieces, inst)

    def intrinsic(self, st, fr, inst, name, args):
        if name.startswith('llvm.va_start'):
            self.va_start(st, fr, args[0])
            return [(st, UNDEF)]
        if name.startswith('llvm.va_copy'):
            self.memcpy(st, args[0], args[1], ci(24, 64))
            return [(st, UNDEF)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            if not (args[2][0] == 'c' and args[2][1] == 0):
                self.access(st, fr, inst, args[1], args[2], False)
                self.access(st, fr, inst, args[0], args[2], True)
        if name.startswith('llvm.memset'):
            self.access(st, fr, inst, args[0], args[2], True)
        return Interp.intrinsic(self, st, fr, inst, name, args)

    def alloc(self, st, inst, size, init):
        # symbolic sizes stay symbolic; the tag is the function performing the allocation
        if size[0] != 'c' and size != UNDEF:
            st.facts.add('u', size, ci(0, 64), G)      # sizes do not wrap around
        return ('p', self.new_region(st, 'heap', size, init, inst), 0)

    def free(self, st, fr, inst, p):
        if p == UNDEF:
            raise Fault('invalid free', 'free of an uninitialised pointer', inst)
        q = self.toptr(p)
        if q == NULL:
            return
        if q[1][0] == 'heap':
            if self.status(st, q[1]) == 'freed':
                raise Fault('double free', 'memory allocated at %s released twice' % st.info[q[1]][2], inst)
            if q[2] != 0:
                raise Fault('invalid free', 'free of an interior pointer', inst)
            x = st.info[q[1]]
            st.info[q[1]] = ('freed', x[1], x[2])
            return
        if q[1][0] in ('alloca', 'glob', 'str'):
            raise Fault('invalid free', 'free of memory that was not allocated on the heap (%s)' % showr(q[1]), inst)

    CTYPE = {'isspace': lambda c: c in ' \t\n\v\f\r', 'isdigit': str.isdigit, 'isalpha': str.isalpha, 'isalnum': str.isalnum}

    def external(self, st, fr, inst, name, args):
        R = lambda v: [(st, v)]
        r = libc.call(self, st, fr, inst, name, args)
        if r is not None:
            return r
        if name in ('malloc',):
            return R(self.alloc(st, inst, args[0], 'undef'))
        if name == 'calloc':
            return R(self.alloc(st, inst, self.binop('mul', 64, args[0], args[1]), 'zero'))
        if name == 'realloc':
            if args[0] == NULL:
                return R(self.alloc(st, inst, args[1], 'undef'))
            q = self.toptr(args[0])
            self.access(st, fr, inst, args[0], ci(0, 64), False)
            if args[1] == ci(0, 64):
                self.free(st, fr, inst, args[0])      # C standard / glibc: releases the block, returns NULL
                return R(NULL)
            n = self.alloc(st, inst, args[1], 'undef')
            if q[1] in st.mem:
                cells = dict(st.mem[q[1]])
                if args[1][0] == 'c':
                    cells = {o: c for o, c in cells.items() if o == 'default' or not isinstance(o, int) or o < args[1][1]}
                cells['default'] = 'undef'
                st.mem[n[1]] = cells
                st.shared.discard(n[1])
            self.free(st, fr, inst, args[0])
            return R(n)
        if name == 'free':
            self.free(st, fr, inst, args[0])
            return R(UNDEF)
        if name == 'strlen':
            return R(self.strlen(st, self.readstr(st, fr, inst, args[0])))
        if name in ('strcmp', 'strncmp'):
            a, b = self.readstr(st, fr, inst, args[0]), self.readstr(st, fr, inst, args[1])
            if name == 'strncmp':
                n = args[2]
                if n[0] == 'c' and n[1] == 0:
                    return R(ci(0, 32))
                if a[0] == b[0] == 'lit' and n[0] == 'c':
                    a, b = ('lit', a[1][:n[1]]), ('lit', b[1][:n[1]])
                elif n[0] == 'c' and a[0] in ('lit', 'bytes') and b[0] in ('lit', 'bytes'):
                    return self.cmp_bytes(st, a, b, n[1])
                else:
                    return R(('call', 'strncmp', a, b, n))
            if 'bytes' in (a[0], b[0]) and a[0] in ('lit', 'bytes') and b[0] in ('lit', 'bytes'):
                return self.cmp_bytes(st, a, b, None)
            t = self.str_eq(st, a, b)
            if t is True:
                return R(ci(0, 32))
            if t is False:
                return R(ci(1, 32))
            out = []
            for val in (True, False):
                for s in self.assume(st.copy(), t, val):
                    out.append((s, ci(0 if val else 1, 32)))
            return out
        if name == 'strcpy':
            i = self.readstr(st, fr, inst, args[1])
            n = self.binop('add', 64, self.strlen(st, i), ci(1, 64))
            self.access_n(st, fr, inst, args[0], n)
            self.set_alias(st, args[0], i)
            return R(args[0])
        if name in ('strstr', 'strchr'):
            a = self.readstr(st, fr, inst, args[0])
            b = self.readstr(st, fr, inst, args[1]) if name == 'strstr' else ('lit', chr(args[1][1] & 255)) if args[1][0] == 'c' else None
            if a[0] == 'lit' and b and b[0] == 'lit':
                k = a[1].find(b[1])
                return R(NULL if k < 0 else self.ptradd(st, args[0], ci(k, 64)))
            return R(self.simp(st, ('call', name, a, b)))
        if name == 'strcspn':
            a, b = self.readstr(st, fr, inst, args[0]), self.readstr(st, fr, inst, args[1])
            if a[0] == 'lit' and b[0] == 'lit':
                k = 0
                while k < len(a[1]) and a[1][k] not in b[1]:
                    k += 1
                return R(ci(k, 64))
            return R(('call', 'strcspn', a, b))
        if name in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'putc', 'perror', 'vprintf', 'vfprintf', 'fwrite'):
            return self.output(st, fr, inst, name, args)
        if name in ('vsnprintf', 'snprintf', 'sprintf', 'vsprintf'):
            return self.sprintf(st, fr, inst, name, args)
        if name in self.CTYPE and args[0][0] == 'c':
            return R(ci(int(self.CTYPE[name](chr(args[0][1] & 255))), 32))
        if name == 'memcmp':
            st.event('call', name, inst, tuple(args))
            return R(('call', 'memcmp') + tuple(args))
        if name == 'strtod':
            a = self.readstr(st, fr, inst, args[0])
            if a[0] == 'lit':
                m = STRTOD.match(a[1])
                n = m.end() if m else 0
                v = self.strtod_val(m.group(0)) if m else cf(0.0)
                if args[1] != NULL:
                    self.store(st, args[1], self.ptradd(st, args[0], ci(n, 64)), 8)
                return R(v)
            if args[1] != NULL:
                self.store(st, args[1], ('call', 'strtod_end', a), 8)
            return R(('call', 'strtod', a))
        if name in ('exit', 'abort', '_exit', '__assert_fail'):
            st.event('call', name, inst, tuple(args))
            st.info['exit'] = (inst, fr.stack)
            st.info['exit_code'] = args[0] if name in ('exit', '_exit') and args else ci(134, 32)
            self.exits.append(st)
            return []
        return Interp.external(self, st, fr, inst, name, args)

    @staticmethod
    def strtod_val(t):
        t = t.strip().lower()
        if t.lstrip('+-').startswith('0x'):
            return cf(float.fromhex(t))
        if 'nan' in t:
            return cf(float('nan'))
        return cf(float(t))

    def cmp_bytes(self, st, a, b, n):
        x = [ci(ord(c), 8) if isinstance(c, str) else c for c in a[1]] + [ci(0, 8)]
        y = [ci(ord(c), 8) if isinstance(c, str) else c for c in b[1]] + [ci(0, 8)]
        out, cur = [], [st]
        m = min(len(x), len(y))
        for k in range(m if n is None else min(m, n)):
            nxt = []
            for s in cur:
                r = s.facts.get('u', x[k], y[k])
                if r & ~E:
                    s2 = s.copy()
                    if s2.facts.add('u', x[k], y[k], L | G):
                        out.append((s2, ci(1, 32)))
                if r & E:
                    if s.facts.add('u', x[k], y[k], E):
                        nxt.append(s)
            cur = nxt
        out += [(s, ci(0, 32)) for s in cur]
        return out

    def access_n(self, st, fr, inst, p, n):
        """write of n (symbolic) bytes: bounds decided on linear forms"""
        self.access(st, fr, inst, p, ci(1, 64), True)
        q = self.toptr(p)
        sz = self.region_size(st, q[1])
        if sz is None:
            return
        cs, ts = lin(sz)
        co, to = lin(q[2])
        cn, tn = lin(n)
        d = dict(ts)
        for t in (to, tn):
            for k, v in t.items():
                d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if not d and co + cn > cs:
            raise Fault('out of bounds', 'write of %s byte(s) at offset %s of an object of %s byte(s)' % (show(n), q[2] if isinstance(q[2], int) else show(q[2]), show(sz)), inst)

    def output(self, st, fr, inst, name, args):
        if name in ('printf',):
            p, stream = self.pieces(st, fr, inst, args[0], args[1:]), 'stdout'
        elif name == 'fprintf':
            p, stream = self.pieces(st, fr, inst, args[1], args[2:]), self.stream(args[0])
        elif name == 'vprintf':
            p, stream = self.pieces(st, fr, inst, args[0], self.va_args(st, args[1])), 'stdout'
        elif name == 'vfprintf':
            p, stream = self.pieces(st, fr, inst, args[1], self.va_args(st, args[2])), self.stream(args[0])
        elif name == 'puts':
            p, stream = (('s', self.readstr(st, fr, inst, args[0])), ('t', '\n')), 'stdout'
        elif name == 'perror':
            p, stream = (('t', 'perror'),), 'stderr'
        elif name == 'fputs':
            p, stream = (('s', self.readstr(st, fr, inst, args[0])),), self.stream(args[1])
        elif name == 'putchar':
            p, stream = (('c', args[0]),), 'stdout'
        elif name in ('fputc', 'putc'):
            p, stream = (('c', args[0]),), self.stream(args[1])
        else:
            i = self.readstr(st, fr, inst, args[0]) if args[1][0] == args[2][0] == 'c' else ('?',)
            p, stream = (('t', i[1][:args[1][1] * args[2][1]] if i[0] == 'lit' else '<fwrite>'),), self.stream(args[3])
        f = self.flat(p)
        if f is not None:
            p = (('t', f),) if f else ()
        self.out_event(st, inst, stream, p)
        if f is not None:
            return [(st, ci(len(f), 32))]
        return [(st, ('call', 'outlen', ('pieces',) + p))]

    def sprintf(self, st, fr, inst, name, args):
        if name == 'vsnprintf':
            dst, n, fmt, a = args[0], args[1], args[2], self.va_args(st, args[3])
        elif name == 'snprintf':
            dst, n, fmt, a = args[0], args[1], args[2], args[3:]
        elif name == 'sprintf':
            dst, n, fmt, a = args[0], None, args[1], args[2:]
        else:
            dst, n, fmt, a = args[0], None, args[1], self.va_args(st, args[2])
        p = self.pieces(st, fr, inst, fmt, a)
        f = self.flat(p)
        st.event('fmt', p, inst)
        if f is not None:
            ln = ci(len(f), 32)
            if n is None:
                w = f
            elif n[0] == 'c':
                w = f[:max(n[1] - 1, 0)] if n[1] else None
            else:
                w = f
            if w is not None and dst != NULL:
                self.access(st, fr, inst, dst, ci(len(w) + 1, 64), True)
                self.set_alias(st, dst, ('lit', w))
            return [(st, ln)]
        ident = ('fmt', p)
        ln = ('call', 'fmtlen', ident)
        st.facts.add('u', ln, ci(1 << 30, 32), L)
        if n is not None and n[0] == 'c' and n[1] == 0 or dst == NULL:
            return [(st, ln)]
        self.access(st, fr, inst, dst, ci(1, 64), True)
        self.set_alias(st, dst, ident)
        return [(st, ln)]
