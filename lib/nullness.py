"""Typestate of results that may be absent: followed along every path of the control-flow graph, with callers of functions that hand such a result on."""

STD = {'unchecked': 'was never compared with NULL on this path', 'null': 'is NULL on this path'}


def noreturn(mod):
    """functions that never return, and the exit statuses they can end with"""
    out = {'exit': None, '_exit': None, 'abort': None, '__assert_fail': None, '_Exit': None, 'quick_exit': None}
    changed = True
    while changed:
        changed = False
        for f in mod.defined():
            if f.name in out:
                continue
            seen, work, ret = set(), [0], False
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                stop = False
                for i in f.blocks[b]:
                    if i.op == 'call' and (i.callee() in out or i.d.get('nr')):
                        stop = True
                        break
                    if i.op == 'ret':
                        ret = True
                if not stop:
                    work += f.succs(b)
            if not ret:
                out[f.name] = None
                changed = True
    return out


def failing_exits(mod, name, ends):
    """constant exit statuses reachable in a function that does not return, and whether something is written to stderr"""
    st, wrote, seen, work = set(), False, set(), [name]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        f = mod.functions.get(n)
        if n in ('abort', '__assert_fail'):
            st.add(134)
            wrote = wrote or n == '__assert_fail'
        if f is None or f.decl:
            continue
        for i in f:
            if i.op == 'call':
                c = i.callee()
                if c in ('exit', '_exit', '_Exit', 'quick_exit'):
                    st.add(i.d['args'][0][1] if i.d['args'][0][0] == 'i' else None)
                elif c:
                    work.append(c)
            if i.op == 'load' and i.d['p'][:2] == ['g', 'stderr']:
                wrote = True
    return st, wrote


class Track:
    def __init__(self, mod, fn, src, size_args=()):
        self.mod, self.fn, self.src = mod, fn, src
        self.sizes = [src.d['args'][k] for k in size_args if k < len(src.d['args'])]

    def deriv(self, v, al):
        """does operand v denote the tracked pointer (alias) or an address derived from it"""
        while True:
            t = tuple(v) if not isinstance(v[-1], (list, dict)) else None
            if t in al:
                return True
            if v[0] != 'v':
                return False
            i = self.fn.insts[v[1]]
            if i.op == 'getelementptr':
                v = i.d['p']
            elif i.op == 'bitcast':
                v = i.d['o'][0]
            else:
                return False

    def cond(self, c, env):
        """the comparison or constant a branch condition stands for on this path, and whether it is negated"""
        neg = False
        while c[0] == 'v':
            i = self.fn.insts[c[1]]
            if i.id in env:
                c = list(env[i.id])
            elif i.op in ('zext', 'trunc', 'sext'):
                c = i.d['o'][0]
            elif i.op == 'xor' and i.d['o'][1][0] == 'i' and i.d['o'][1][1] in (1, -1):
                c, neg = i.d['o'][0], not neg
            elif i.op == 'icmp' and i.d['pr'] in ('eq', 'ne') and i.d['o'][1][0] == 'i' and i.d['o'][1][1] == 0 and i.d['o'][0][0] == 'v' and self.fn.insts[i.d['o'][0][1]].op in ('zext', 'phi') and (self.fn.insts[i.d['o'][0][1]].op == 'zext' or i.d['o'][0][1] in env):
                c, neg = i.d['o'][0], neg != (i.d['pr'] == 'eq')
            else:
                break
        return c, neg

    def run(self, use, ret, ends, is_free):
        """use(inst, state): the pointer is used in that state; ret(inst, state, returned)"""
        fn = self.fn
        start = next(k for k, i in enumerate(fn.blocks[self.src.blk]) if i is self.src)
        me = ('v', self.src.id)
        seen = set()
        work = [(self.src.blk, start + 1, 'unchecked', frozenset([me]), frozenset(), None, frozenset())]
        n = 0
        while work:
            bi, k, st, al, cells, frm, env = work.pop()
            key = (bi, k, st, al, cells, env)
            if key in seen or n > 20000:
                continue
            seen.add(key)
            n += 1
            al, cells, env = set(al), set(cells), dict(env)
            dead = False
            blk = fn.blocks[bi]
            for i in blk[k:]:
                if i is self.src:
                    dead = True      # the next result of a loop
                    break
                if i.op == 'phi':
                    for x in i.d['in']:
                        if isinstance(x[0], list) and x[1] == frm or not isinstance(x[0], list) and x[0] == frm:
                            o = x[0] if isinstance(x[0], list) else x[1]
                            if i.ty in ('i1', 'i8', 'i32'):
                                env[i.id] = env.get(o[1], tuple(o)) if o[0] == 'v' else tuple(o)
                            if tuple(o) in al:
                                al.add(('v', i.id))
                            else:
                                al.discard(('v', i.id))
                elif i.op == 'bitcast' and tuple(i.d['o'][0]) in al:
                    al.add(('v', i.id))
                elif i.op == 'load':
                    if self.deriv(i.d['p'], al):
                        if st != 'ok' and not use(i, st):
                            dead = True
                            break
                    elif tuple(i.d['p']) in cells:
                        al.add(('v', i.id))
                elif i.op == 'store':
                    if self.deriv(i.d['p'], al):
                        if st != 'ok' and not use(i, st):
                            dead = True
                            break
                    else:
                        t = tuple(i.d['p'])
                        if tuple(i.d['v']) in al:
                            cells.add(t)
                        else:
                            cells.discard(t)
                elif i.op == 'call':
                    c = i.callee()
                    if c in ends or i.d.get('nr'):
                        if st == 'null':
                            ret(i, 'ends', c)
                        dead = True
                        break
                    for a in i.d['args']:
                        if self.deriv(a, al) and st != 'ok' and not is_free(c) and not (c or '').startswith('llvm.lifetime'):
                            if not use(i, st):
                                dead = True
                                break
                    if dead:
                        break
                elif i.op == 'ret':
                    ret(i, st, bool(i.d['o']) and tuple(i.d['o'][0]) in al or ('kept' if cells else False))
                    dead = True
                    break
            if dead or st == 'ok':
                continue
            t = blk[-1]
            succ = [(s, st) for s in fn.succs(bi)]
            if t.op == 'br' and len(t.d['s']) == 2:
                c, neg = self.cond(t.d['c'], env)
                ci = fn.insts.get(c[1]) if c[0] == 'v' else None
                if c[0] == 'i':
                    succ = [(t.d['s'][0 if bool(c[1]) != neg else 1], st)]
                elif ci is not None and ci.op == 'icmp':
                    o = ci.d['o']
                    pr = ci.d['pr']
                    if pr in ('ugt', 'ule') and o[1][:2] == ['i', 0]:
                        pr = 'ne' if pr == 'ugt' else 'eq'
                    elif pr in ('uge', 'ult') and o[1][:2] == ['i', 1]:
                        pr = 'ne' if pr == 'uge' else 'eq'
                        o = [o[0], ['i', 0, 64]]
                    if pr not in ('eq', 'ne'):
                        o = []
                    eq = (pr == 'eq') != neg
                    if any(x[0] == 'n' for x in o) and any(self.deriv(x, al) for x in o):
                        a, b = ('null', 'ok') if eq else ('ok', 'null')
                        succ = [(t.d['s'][0], a), (t.d['s'][1], b)]
                        if st == 'null':
                            succ = [x for x in succ if x[1] == 'null']
                    elif any(x[0] == 'i' and x[1] == 0 for x in o) and any(x in self.sizes for x in o):
                        z = t.d['s'][0 if eq else 1]
                        succ = [(s, 'ok' if s == z and s != t.d['s'][1 if eq else 0] else st) for s in t.d['s']]
            for s, x in succ:
                if x != 'ok':
                    work.append((s, 0, x, frozenset(al), frozenset(cells), bi, frozenset(env.items())))
