"""Vectors and linked lists are sequences."""
from model import *

EXPLAIN = """From every abstract state of a vector / linked list reached by all operation sequences up to the bound (start capacities, element sizes and lengths enumerated, element contents symbolic)
each public operation is abstractly interpreted; the resulting state is observed through the public interface (count, element access by index from both ends, peek, full iteration
twice, reset) and compared with a reference sequence. Every memory access is checked against the block sizes, every block must be released by destroy."""


def val(k):
    return ('sym', 'e%s' % (k,))


def vec_suite(ctx):
    S = Suite(ctx)
    P, I = S.P, S.I

    def elem(st, k, size):
        p = P.local(st, 'elem', size=size)
        for o in range(0, size, 8):
            I.store(st, I.ptradd(st, p, ci(o, 64)), val((k, o)) if size > 8 else val(k), min(8, size - o))
        return p

    def rd(st, p, size):
        if p == NULL or p == UNDEF or p[0] != 'p':
            return p
        if size > 8:
            return [I.load(st, I.ptradd(st, p, ci(o, 64)), 8, 'i64') for o in range(0, size, 8)]
        return I.load(st, p, size, 'i%d' % (8 * size))

    def want(k, size):
        return [val((k, o)) for o in range(0, size, 8)] if size > 8 else val(k)

    def observe(st, v, ref, size, what):
        r = S.call(st.copy(), what, 'vec_count', v)
        if r is None or not S.same('vec_count', 'count', what, r[1], ci(len(ref), 64)):
            return False
        for i, k in enumerate(ref):
            r = S.call(st.copy(), what, 'vec_get', v, ci(i, 64))
            if r is None or not S.same('vec_get', 'element', '%s, index %d' % (what, i), rd(r[0], r[1], size), want(k, size)):
                return False
        r = S.call(st.copy(), what, 'vec_peek', v)
        if r is None or not S.same('vec_peek', 'top', what, rd(r[0], r[1], size) if r[1] != NULL else NULL, want(ref[-1], size) if ref else NULL):
            return False
        it = P.local(st, 'it', size=ctx.mod.sizeof('VectorIterator'))
        r = S.call(st, what, 'vec_get_iterator', it, v)
        if r is None:
            return False
        s = r[0]
        for rnd in range(2):
            for i, k in enumerate(ref + [None]):
                r = S.call(s, what, 'iterator_get_next', it)
                if r is None:
                    return False
                s = r[0]
                g = rd(s, r[1], size) if r[1] != NULL else NULL
                if not S.same('vec_get_iterator', 'iteration', '%s, step %d' % (what, i), g, want(k, size) if k is not None else NULL):
                    return False
            r = S.call(s, what, 'iterator_reset', it)
            if r is None:
                return False
            s = r[0]
        return True

    OPS = ('push', 'empty', 'many2', 'many0', 'pop', 'clear', 'trim', 'ensure')

    def step(st, v, ref, size, op, k, what):
        ref = list(ref)
        if op == 'push':
            r = S.call(st, what, 'vec_push', v, elem(st, k, size))
            if r and not S.same('vec_push', 'result', what, rd(r[0], r[1], size), want(k, size)):
                return None
            ref.append(k)
        elif op == 'empty':
            r = S.call(st, what, 'vec_push_empty', v)
            if r:
                s, p = r
                for o in range(0, size, 8):
                    q = I.ptradd(s, p, ci(o, 64))
                    I.store(s, q, val((k, o)) if size > 8 else val(k), min(8, size - o))
            ref.append(k)
        elif op[:4] == 'many':
            n = int(op[4:])
            p = P.local(st, 'elems', size=max(1, n * size))
            for j in range(n):
                for o in range(0, size, 8):
                    I.store(st, I.ptradd(st, p, ci(j * size + o, 64)), val(((k, j), o)) if size > 8 else val((k, j)), min(8, size - o))
            r = S.call(st, what, 'vec_push_many', v, ci(n, 64), p)
            if r and n and not S.same('vec_push_many', 'result', what, rd(r[0], r[1], size), want((k, 0), size)):
                return None
            ref += [(k, j) for j in range(n)]
        elif op == 'pop':
            r = S.call(st, what, 'vec_pop', v)
            if r and not S.same('vec_pop', 'result', what, rd(r[0], r[1], size) if r[1] != NULL else NULL, want(ref[-1], size) if ref else NULL):
                return None
            ref = ref[:-1]
        elif op == 'clear':
            r = S.call(st, what, 'vec_clear', v)
            ref = []
        elif op == 'trim':
            r = S.call(st, what, 'vec_trim', v)
        else:
            r = S.call(st, what, 'vec_ensure_size', v, ci(len(ref) + 3, 64))
        return (r[0], ref) if r else None

    def destroy(st, v, what):
        r = S.call(st.copy(), what, 'vec_destroy', v)
        if r:
            lk = I.leaks(r[0])
            if lk:
                ctx.violation('vec_destroy:leak', S.where('vec_destroy'), '%s: vec_destroy leaves %s allocated' % (what, lk))
    val2 = {}

    def explore(st, v, ref, size, hist, depth):
        what = 'vector(%d-byte elements): %s' % (size, ', '.join(hist))
        ctx.count('vector_states')
        if not observe(st.copy(), v, ref, size, what):
            return
        destroy(st, v, what)
        if depth == 0:
            return
        for op in OPS:
            r = step(st.copy(), v, ref, size, op, len(hist), what + ', ' + op)
            if r:
                explore(r[0], v, r[1], size, hist + (op,), depth - 1)
    for size in (8, 1, 24):
        for cap in (0, 1, 2, 5) if size == 8 or ctx.thorough else (1,):
            st = P.state()
            v = P.local(st, 'vec', size=ctx.mod.sizeof('Vector'))
            r = S.call(st, 'create(%d)' % cap, 'vec_create', v, ci(size, 64), ci(cap, 64))
            if r:
                explore(r[0], v, [], size, ('create(%d)' % cap,), (4 if ctx.thorough and size == 8 else 3))
    # growth
    for cap in (0, 1, 3):
        st = P.state()
        v = P.local(st, 'vec', size=ctx.mod.sizeof('Vector'))
        r = S.call(st, 'create(%d)' % cap, 'vec_create', v, ci(8, 64), ci(cap, 64))
        ref = []
        s = r[0] if r else None
        for k in range(40):
            r = s and step(s, v, ref, 8, ('push', 'empty', 'many3')[k % 3], k, 'vector: %d insertions' % k)
            if not r:
                break
            s, ref = r
        else:
            observe(s, v, ref, 8, 'vector: %d insertions' % len(ref))
            destroy(s, v, 'vector: %d insertions' % len(ref))
    ctx.fns |= I.visited_fns


def list_suite(ctx):
    S = Suite(ctx)
    P, I = S.P, S.I
    rd = lambda st, p: I.load(st, p, 8, 'i64') if p not in (NULL, UNDEF) and p[0] == 'p' else p

    def data(st, k):
        p = P.local(st, 'elem', size=8)
        I.store(st, p, val(k), 8)
        return p

    def nodes(st, l, n, what):
        out = []
        for i in range(n):
            r = S.call(st.copy(), what, 'list_get_node', l, ci(i, 64))
            if r is None:
                return None
            out.append(r[1])
        return out

    def observe(st, l, ref, what):
        r = S.call(st.copy(), what, 'list_count', l)
        if r is None or not S.same('list_count', 'count', what, r[1], ci(len(ref), 64)):
            return False
        for i, k in enumerate(ref):
            r = S.call(st.copy(), what, 'list_get_at', l, ci(i, 64))
            if r is None or not S.same('list_get_at', 'element', '%s, index %d' % (what, i), rd(r[0], r[1]), val(k)):
                return False
        # forward chain and backward chain agree
        ns = nodes(st, l, len(ref), what)
        if ns is None:
            return False
        for i, n in enumerate(ns):
            r = S.call(st.copy(), what, 'listnode_get_next', n)
            if r is None or not S.same('listnode_get_next', 'next', '%s, node %d' % (what, i), r[1], ns[i + 1] if i + 1 < len(ns) else NULL):
                return False
        it = P.local(st, 'it', size=ctx.mod.sizeof('LinkedListIterator'))
        r = S.call(st, what, 'list_get_iterator', it, l)
        if r is None:
            return False
        s = r[0]
        for rnd in range(3):
            cut = len(ref) // 2 if rnd == 1 else len(ref) + 1
            for i, k in enumerate((ref + [None])[:cut]):
                r = S.call(s, what, 'iterator_get_next', it)
                if r is None:
                    return False
                s = r[0]
                if not S.same('list_get_iterator', 'iteration', '%s, step %d' % (what, i), rd(s, r[1]) if r[1] != NULL else NULL, val(k) if k is not None else NULL):
                    return False
            r = S.call(s, what, 'iterator_reset', it)
            if r is None:
                return False
            s = r[0]
        r = S.call(st.copy(), what, 'list_destroy', l)
        if r:
            lk = I.leaks(r[0])
            if lk:
                ctx.violation('list_destroy:leak', S.where('list_destroy'), '%s: list_destroy leaves %s allocated' % (what, lk))
        return True

    def explore(st, l, ref, hist, depth):
        what = 'list: ' + ', '.join(hist)
        ctx.count('list_states')
        if not observe(st.copy(), l, ref, what) or depth == 0:
            return
        n = len(ref)
        k = len(hist)
        ops = []
        ops.append(('append', lambda s: S.call(s, what + ', append', 'list_append', l, data(s, k)), ref + [k], k))
        ns = nodes(st, l, n, what)
        if ns is None:
            return
        for i in range(n + 1):
            ops.append(('insert at %d' % i, lambda s, i=i: S.call(s, what + ', insert at %d' % i, 'list_insert_at', l, ci(i, 64), data(s, k)), ref[:i] + [k] + ref[i:], k))
            ops.append(('insert after node %d' % (i - 1), lambda s, i=i: S.call(s, what + ', insert after node %d' % (i - 1), 'list_insert_after', l, ns[i - 1] if i else NULL, data(s, k)), ref[:i] + [k] + ref[i:], k))
        for i in range(n):
            ops.append(('delete at %d' % i, lambda s, i=i: S.call(s, what + ', delete at %d' % i, 'list_delete_at', l, ci(i, 64)), ref[:i] + ref[i + 1:], None))
            ops.append(('delete node %d' % i, lambda s, i=i: S.call(s, what + ', delete node %d' % i, 'list_delete_node', l, ns[i]), ref[:i] + ref[i + 1:], None))
        for name, f, ref2, new in ops:
            r = f(st.copy())
            if r is None:
                continue
            s, ret = r
            if new is not None:
                g = S.call(s.copy(), what + ', ' + name, 'listnode_get_data', ret)
                if g is None or not S.same('list_' + name.split()[0], 'result', what + ', ' + name, rd(g[0], g[1]), val(new)):
                    continue
            explore(s, l, ref2, hist + (name,), depth - 1)
    for n0 in range(0, 6 if ctx.thorough else 5):
        st = P.state()
        l = P.local(st, 'list', size=ctx.mod.sizeof('LinkedList'))
        r = S.call(st, 'create', 'list_create', l, ci(8, 64))
        if r is None:
            return
        st = r[0]
        ref = []
        for k in range(n0):
            r = S.call(st, 'append', 'list_append', l, data(st, 'i%d' % k))
            if r is None:
                return
            st = r[0]
            ref.append('i%d' % k)
        explore(st, l, ref, ('%d elements' % n0,), (3 if n0 < 2 else 2) if ctx.thorough else 2)
    ctx.fns |= I.visited_fns


def check(ctx):
    ctx.rule('observed sequence = reference sequence after every operation; no access outside a live block; nothing allocated after destroy')
    vec_suite(ctx)
    list_suite(ctx)
    ctx.need('vector_states', 20)
    ctx.need('list_states', 20)
