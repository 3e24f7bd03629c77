"""Typed text is data: formats are fixed texts that agree with their arguments."""
import re
from ir import *

EXPLAIN = """Whole-program dataflow over the IR of both build variants (with and without readline). Every call that reaches a printf-like function - directly, or through any wrapper, found as a fixpoint over parameters that flow into a format position - is
an obligation: each value that can flow into the format must be a constant text (or the format parameter of a wrapper, whose callers are then obligations); each directive of each such text must have an argument of the matching type and width, with no
argument left over. Argument lists (va_list) follow a typestate: started before use, consumed at most once between start/copy and end on every path. Calls of functions that take a count and that many further arguments must pass exactly that many."""

FMT = {'printf': (0, 1), 'fprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'dprintf': (1, 2), 'asprintf': (1, 2), 'vprintf': (0, None), 'vfprintf': (1, None), 'vsprintf': (1, None), 'vsnprintf': (2, None), 'vdprintf': (1, None), 'vasprintf': (1, None),
       '__printf_chk': (1, 2), '__fprintf_chk': (2, 3), 'syslog': (1, 2), 'err': (1, 2), 'warn': (0, 1), 'errx': (1, 2), 'warnx': (0, 1)}
DIR = re.compile(r'%(?P<flags>[-+ #0\']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d*))?(?P<len>hh|h|ll|l|j|z|t|L)?(?P<conv>.)', re.S)
VL = {'vprintf': 1, 'vfprintf': 2, 'vsprintf': 2, 'vsnprintf': 3, 'vdprintf': 2, 'vasprintf': 2}


def directives(text):
    """expected argument types of a format, None when it is malformed"""
    out, i = [], 0
    while True:
        k = text.find('%', i)
        if k < 0:
            return out
        m = DIR.match(text, k)
        if not m:
            return None
        i = m.end()
        c, ln = m.group('conv'), m.group('len') or ''
        if c == '%':
            continue
        if m.group('width') == '*':
            out.append(('i32', '*'))
        if m.group('prec') == '*':
            out.append(('i32', '.*'))
        if c in 'diouxX':
            out.append(({'': 'i32', 'hh': 'i32', 'h': 'i32'}.get(ln, 'i64'), m.group()))
        elif c == 'c':
            out.append(('i32', m.group()))
        elif c in 'fFeEgGaA':
            out.append(('f80' if ln == 'L' else 'f64', m.group()))
        elif c in 'spn':
            out.append(('ptr', m.group()))
        elif c == 'm':
            pass
        else:
            return None


def norm(t):
    return {'double': 'f64', 'float': 'f32', 'x86_fp80': 'f80'}.get(t, t)


class Flow:
    def __init__(self, mod):
        self.mod = mod
        self.param = {}       # (function, parameter) in format position -> index of the first variadic argument or None
        self.text = {}        # (function, parameter) in a %s position of an unescaped use: not needed

    def origins(self, fn, v, seen=None):
        """values that can flow into operand v of function fn: ('text', string) / ('param', k) / ('null',) / ('other', what)"""
        seen = seen if seen is not None else set()
        key = (fn.name, tuple(v) if isinstance(v, list) else v)
        if key in seen:
            return
        seen.add(key)
        k = v[0]
        if k == 'g':
            s = self.mod.gstr(v[1], v[2] if len(v) > 2 else 0)
            g = self.mod.globals.get(v[1], {})
            if s is not None and g.get('const'):
                yield ('text', s)
            else:
                yield ('other', 'the variable %s' % v[1])
        elif k == 'a':
            yield ('param', v[1])
        elif k in ('n', 'null', 'z'):
            yield ('null',)
        elif k == 'v':
            i = fn.insts[v[1]]
            if i.op == 'phi':
                for x in i.d['in']:
                    yield from self.origins(fn, x[0] if isinstance(x[0], list) else x[1], seen)
            elif i.op == 'select':
                for x in i.d['o'][-2:]:
                    yield from self.origins(fn, x, seen)
            elif i.op in ('bitcast',):
                yield from self.origins(fn, i.d['o'][0], seen)
            elif i.op == 'getelementptr' and not i.d.get('idx'):
                for o in self.origins(fn, i.d['p'], seen):
                    yield ('text', o[1][i.d['off']:]) if o[0] == 'text' and i.d.get('ok') and 0 <= i.d['off'] <= len(o[1]) else ('unknown', 'a part of a text') if o[0] == 'text' else o
            elif i.op == 'call' and i.callee() and i.callee() in self.mod.functions and not self.mod.functions[i.callee()].decl:
                g = self.mod.functions[i.callee()]
                for r in g:
                    if r.op == 'ret' and r.d['o']:
                        for o in self.origins(g, r.d['o'][0], seen):
                            if o[0] == 'param':
                                yield from self.origins(fn, i.d['args'][o[1]], seen)
                            else:
                                yield o
            elif i.op == 'load' and i.d['p'][0] == 'g' and self.mod.globals.get(i.d['p'][1], {}).get('const'):
                yield ('unknown', 'a constant table')
            elif i.op == 'load' and i.d['p'][0] == 'v' and fn.insts[i.d['p'][1]].op == 'alloca':
                a = i.d['p'][1]
                yield from self.filled(fn, ['v', a], seen)
            elif i.op == 'getelementptr':
                for o in self.origins(fn, i.d['p'], seen):
                    yield ('unknown', 'a part of a text') if o[0] == 'text' else o
            elif i.op == 'load':
                yield ('other', 'a value read from memory')
            else:
                yield ('other', 'the result of %s' % (i.callee() or i.op))
        else:
            yield ('unknown', str(v))

    def filled(self, fn, p, seen):
        """origins of what is stored to a local variable (or through a parameter), here and in functions its address is passed to"""
        for x in fn:
            if x.op == 'store' and x.d['p'] == p:
                yield from self.origins(fn, x.d['v'], seen)
            elif x.op == 'call' and p in x.d.get('args', []):
                c = x.callee()
                g = self.mod.functions.get(c)
                if g is None or c is None:
                    yield ('unknown', 'a value set by an indirect call')
                elif not g.decl:
                    for k, y in enumerate(x.d['args']):
                        if y == p and (c, k) not in seen:
                            for o in self.filled(g, ['a', k], seen | {(c, k)} if isinstance(seen, (set, frozenset)) else seen):
                                yield ('unknown', 'a value set by %s()' % c) if o[0] == 'param' else o
                elif c in ('getline', 'getdelim', 'asprintf', 'vasprintf'):
                    yield ('other', 'text filled in by %s()' % c)

    def sinks(self):
        """fixpoint of format parameters"""
        work = True
        while work:
            work = False
            for f in self.mod.defined():
                for i in f:
                    s = self.sink(i)
                    if s is None or s[0] >= len(i.d['args']):
                        continue
                    for o in self.origins(f, i.d['args'][s[0]]):
                        if o[0] == 'param':
                            va = len(f.args) if f.vararg else None
                            if (f.name, o[1]) not in self.param:
                                self.param[(f.name, o[1])] = va
                                work = True

    def sink(self, i):
        if i.op != 'call':
            return None
        c = i.callee()
        if c in FMT and (c not in self.mod.functions or self.mod.functions[c].decl):
            return FMT[c]
        for (fn, k), va in self.param.items():
            if fn == c:
                return k, va
        return None


def addresses(mod):
    """functions whose address is taken"""
    out = set()

    def scan(v):
        if isinstance(v, list):
            if len(v) >= 2 and v[0] == 'F' and isinstance(v[1], str):
                out.add(v[1])
            for x in v:
                scan(x)
        elif isinstance(v, dict):
            for x in v.values():
                scan(x)
    for g in mod.globals.values():
        scan(g.get('init'))
    for f in mod.defined():
        for i in f:
            for k, v in i.d.items():
                if k != 'f':
                    scan(v)
    return out


def formats(ctx, mod, variant):
    F = Flow(mod)
    F.sinks()
    taken = addresses(mod)
    for (fn, k), va in F.param.items():
        ctx.count('wrappers')
        ctx.fns.add(fn)
        if fn in taken and k < len(mod.functions[fn].args) and (va is None or k != va - 1):
            f = mod.functions[fn]
            ctx.violation('indirect:%s:%s' % (fn, f.args[k][0]), '%s:%s (%s)' % (f.file, f.line, fn), '%s() is called through a pointer and uses its parameter "%s" as a format: text that is not fixed would be interpreted' % (fn, f.args[k][0]))
    for f in mod.defined():
        for i in f:
            s = F.sink(i)
            if s is None or s[0] >= len(i.d['args']):
                continue
            ctx.count('call sites')
            k, va = s
            for o in F.origins(f, i.d['args'][k]):
                if o[0] == 'other':
                    ctx.violation('format:%s:%s' % (f.name, i.callee()), i.loc, '%s() passes %s as format of %s(): text that is not fixed would be interpreted' % (f.name, o[1], i.callee()))
                elif o[0] == 'unknown':
                    ctx.undecide('%s: format is %s' % (i.loc, o[1]))
                elif o[0] == 'text':
                    ctx.count('formats')
                    want = directives(o[1])
                    if want is None:
                        ctx.violation('directive:%s:%s' % (f.name, o[1]), i.loc, '%s() uses the malformed format %r' % (f.name, o[1]))
                        continue
                    if any(d[1].endswith('n') and d[0] == 'ptr' for d in want):
                        ctx.violation('percent-n:%s' % f.name, i.loc, '%s() uses a format that writes to memory: %r' % (f.name, o[1]))
                    if va is None:
                        # argument list passed on: checked at the calls that supply the arguments, when the format is a parameter there
                        ctx.count('formats without own arguments')
                        continue
                    got = [norm(a[0]) for a in i.d['at'][va:]]
                    exp = [w for w, _ in want]
                    ctx.count('directives', len(want))
                    if len(ctx.samples) < 8 and want:
                        ctx.sample('%s: %r with %s' % (i.loc, o[1][:60], got))
                    if got != exp:
                        j = next((j for j in range(max(len(got), len(exp))) if got[j:j + 1] != exp[j:j + 1]), 0)
                        ctx.violation('arguments:%s:%s' % (f.name, o[1][:40]), i.loc, '%s() passes %s for the format %r, which needs %s (argument %d)' % (f.name, got or 'no arguments', o[1], exp or 'none', j + 1))


def base(fn, v):
    """alloca or argument an operand points to (offset 0)"""
    while v[0] == 'v':
        i = fn.insts[v[1]]
        if i.op == 'alloca':
            return ('alloca', i.id)
        if i.op == 'getelementptr' and i.d['off'] == 0 and not i.d.get('idx'):
            v = i.d['p']
        elif i.op == 'bitcast':
            v = i.d['o'][0]
        else:
            return None
    return ('arg', v[1]) if v[0] == 'a' else None


def valists(ctx, mod):
    """typestate of argument lists; returns nothing, reports"""
    consuming = dict(VL)      # function -> index of a va_list parameter it consumes
    todo = True
    while todo:
        todo = False
        for f in mod.defined():
            for i in f:
                if i.op == 'call' and i.callee() in consuming and f.name not in consuming and consuming[i.callee()] < len(i.d['args']):
                    b = base(f, i.d['args'][consuming[i.callee()]])
                    if b and b[0] == 'arg':
                        consuming[f.name] = b[1]
                        todo = True
    for f in mod.defined():
        objs = set()
        for i in f:
            if i.op == 'call' and i.callee() in ('llvm.va_start', 'llvm.va_copy', 'llvm.va_end'):
                b = base(f, i.d['args'][0])
                if b:
                    objs.add(b)
        if f.name in consuming and not f.decl:
            objs.add(('arg', consuming[f.name]))
        for o in objs:
            ctx.count('argument lists')
            ctx.fns.add(f.name)
            start = 'live' if o[0] == 'arg' else 'none'
            seen = {}
            work = [(0, start)]
            while work:
                bi, st = work.pop()
                if st in seen.setdefault(bi, set()):
                    continue
                seen[bi].add(st)
                for i in f.blocks[bi]:
                    if i.op == 'ret' and o[0] == 'alloca' and st in ('live', 'used'):
                        ctx.violation('va_end:%s' % f.name, i.loc, '%s() returns on a path without ending the argument list it started' % f.name)
                    if i.op != 'call':
                        continue
                    c = i.callee()
                    if c == 'llvm.va_start' and base(f, i.d['args'][0]) == o:
                        if st in ('live', 'used') and o[0] == 'alloca':
                            ctx.violation('va_start:%s' % f.name, i.loc, '%s() starts an argument list again without ending it' % f.name)
                        st = 'live'
                    elif c == 'llvm.va_copy':
                        if base(f, i.d['args'][1]) == o and st != 'live':
                            ctx.violation('va_copy:%s' % f.name, i.loc, '%s() copies an argument list that was %s' % (f.name, 'already consumed' if st == 'used' else 'not started'))
                        if base(f, i.d['args'][0]) == o:
                            st = 'live'
                    elif c == 'llvm.va_end' and base(f, i.d['args'][0]) == o:
                        if st in ('none', 'ended'):
                            ctx.violation('va_end:%s' % f.name, i.loc, '%s() ends an argument list that is not open' % f.name)
                        st = 'ended'
                    elif c in consuming and consuming[c] < len(i.d['args']) and base(f, i.d['args'][consuming[c]]) == o:
                        ctx.count('uses of argument lists')
                        if st != 'live':
                            ctx.violation('va_use:%s' % f.name, i.loc, '%s() passes an argument list to %s() that was %s' % (f.name, c, {'used': 'already consumed', 'none': 'not started', 'ended': 'ended'}[st]))
                        st = 'used'
                for y in f.succs(bi):
                    work.append((y, st))


def counted(ctx, mod):
    fmt = {fn for fn, _ in _params(mod)}
    for f in mod.defined():
        for i in f:
            g = mod.functions.get(i.callee() or '')
            if g is None or not g.vararg or g.decl or g.name in fmt or not g.args or g.args[-1][1][0] != 'i':
                continue
            n = i.d['args'][len(g.args) - 1]
            if n[0] != 'i':
                ctx.undecide('%s: number of further arguments is computed' % i.loc)
                continue
            got = i.d['at'][len(g.args):]
            ctx.count('counted calls')
            # structures passed by value count once each
            if len(got) != n[1]:
                ctx.violation('count:%s:%s' % (f.name, g.name), i.loc, '%s() passes %d further arguments to %s(), but announces %d' % (f.name, len(got), g.name, n[1]))


def _params(mod):
    F = Flow(mod)
    F.sinks()
    return set(F.param)


def check(ctx):
    ctx.rule('every format is a constant text whose directives match the arguments; argument lists are used once per start; counted calls pass as many arguments as they announce')
    for defs in ([('USE_READLINE',), ()]):
        mod = ctx.module(defines=defs) if defs != ('USE_READLINE',) else ctx.mod
        formats(ctx, mod, defs)
        valists(ctx, mod)
        counted(ctx, mod)
    ctx.need('call sites', 150)
    ctx.need('formats', 150)
    ctx.need('argument lists', 10)
    ctx.need('counted calls', 6)
