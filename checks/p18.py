"""Expression-tree operations keep their meaning (copy, comparison, substitution, variable listing, folding, release)."""
import itertools
from prog import *

EXPLAIN = """The tree functions are abstractly interpreted on trees of enumerated shape whose constants are symbolic terms (so one analysis stands for every constant)
and whose variable names are abstract identities (every partition of equal/different names over the leaves); operators are records with symbolic
names. Trees are built and read back only through the node interface. Each result is compared with the mathematical definition on terms; the heap typestate
(live/released) of every node is checked after every operation. Recursive descent treats every child alike, so shapes up to depth 3 with 0..3 children cover
the cases the recursion distinguishes (leaf kinds, no/one/several children, nested operators, NULL)."""

NAMES = ('A', 'B')


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = Prog(ctx.mod)
        st = self.P.state(False)
        self.ops = {n: self.P.op(st, self.P.name('op_' + n), 'OP_PLACE_FUNCTION', id=k, arity=0) for k, n in enumerate('fgh')}
        self.ops['F'] = self.P.op(st, self.P.name('op_f'), 'OP_PLACE_PREFIX', id=3, arity=1)     # shares its name with f
        self.base = st
        self.num = {n: ('sym', n) for n in ('x', 'y', 'z')}

    def ids(self, t, k=None):
        """assign distinct ids / numbers"""
        k = k if k is not None else [0]
        if t[0] == 'v':
            k[0] += 1
            return ('v', t[1], k[0])
        if t[0] == 'o':
            return ('o', t[1], [self.ids(c, k) for c in t[2]])
        return t

    def build(self, st, t):
        def conv(t):
            if t is None:
                return None
            if t[0] == 'c':
                return ('c', self.num.get(t[1], t[1]))
            if t[0] == 'v':
                return t
            return ('o', self.ops[t[1]], [conv(c) for c in t[2]])
        return self.P.tree(st, conv(t))

    def norm(self, t):
        """expected reading of a description"""
        if t is None:
            return None
        if t[0] == 'c':
            return ('c', self.num.get(t[1], t[1]))
        if t[0] == 'v':
            return ('v', ('name', t[1]), ci(t[2] if len(t) > 2 else 0, 64))
        return ('o', self.ops[t[1]], [self.norm(c) for c in t[2]])

    def noid(self, t):
        if t is None or t[0] == 'c':
            return t
        if t[0] == 'v':
            return t[:2]
        return ('o', t[1], [self.noid(c) for c in t[2]] if isinstance(t[2], list) else t[2])


def deep_tree(n):
    t = ('v', 'B')
    for k in range(n):
        t = ('o', 'fg'[k % 2], [('c', 'x'), t] if k % 3 else [t])
    return t


def shapes(deep, mid=False):
    leaves = [('c', 'x'), ('c', 'y'), ('v', 'A'), ('v', 'B')]
    out = list(leaves) + [('o', 'f', [])]
    out += [('o', 'f', [a]) for a in leaves] + [('o', 'g', [('c', 'x')])]
    out += [('o', 'f', [a, b]) for a in leaves for b in leaves]
    out += [('o', 'g', [('v', 'A'), ('c', 'x')]), ('o', 'f', [('v', 'A'), ('c', 'x'), ('v', 'B')]), ('o', 'f', [('o', 'g', [('v', 'A')]), ('v', 'A'), ('c', 'y')]),
            ('o', 'f', [('o', 'g', []), ('v', 'B')]), ('o', 'g', [('o', 'f', [('c', 'x'), ('o', 'g', [('v', 'B'), ('c', 'x')])]), ('o', 'f', [('v', 'A'), ('v', 'B')])]),
            ('o', 'g', [('o', 'f', [('c', 'x'), ('c', 'y')]), ('o', 'f', [('v', 'A'), ('c', 'z')])]), ('o', 'f', [('o', 'f', [('o', 'f', [('v', 'B')])])]),
            ('o', 'f', [('v', 'B'), ('v', 'A'), ('v', 'B'), ('o', 'h', [('v', 'A')])]), ('o', 'h', [('v', 'A'), ('o', 'f', [('v', 'A'), ('c', 'x')]), ('o', 'f', [('v', 'A'), ('c', 'x')])]),
            ('o', 'F', [('v', 'A')]), ('o', 'f', [('o', 'F', [('c', 'x')])]), ('o', 'f', [('v', 'A'), ('c', 'x')] * 6), deep_tree(12)]
    a, b, x = ('v', 'A'), ('v', 'B'), ('c', 'x')
    if mid:
        two = [('o', 'g', [a, a]), ('o', 'g', [a, b]), ('o', 'g', [b, a]), ('o', 'g', [x, a])]
        out += [('o', 'f', [t, u]) for t in two for u in two + [a, b]] + [('o', 'f', [u, t]) for t in two for u in [a, b]]
        out += [('o', 'f', [('o', 'g', [t, a]), u, b]) for t in two[:3] for u in (a, b, two[0])] + [('o', 'f', [a, a, t, a]) for t in two]
    if deep:
        sub = [('c', 'x'), ('v', 'A'), ('o', 'g', []), ('o', 'g', [('v', 'B')]), ('o', 'f', [('c', 'x'), ('v', 'A')])]
        out += [('o', 'f', [a, b, c]) for a in sub for b in sub for c in sub]
        out += [('o', 'g', [('o', 'f', [a, b]), c]) for a in sub for b in sub for c in sub]
    return out


def subst(t, name, r):
    if t[0] == 'v':
        return (r, 1) if t[1] == name else (t, 0)
    if t[0] == 'o':
        cs = [subst(c, name, r) for c in t[2]]
        return ('o', t[1], [c for c, _ in cs]), sum(n for _, n in cs)
    return t, 0


def varlist(t, out):
    if t[0] == 'v':
        if t[1] not in out:
            out.append(t[1])
    elif t[0] == 'o':
        for c in t[2]:
            varlist(c, out)
    return out


def occ(t, name=None):
    if t[0] == 'v':
        return int(name is None or t[1] == name)
    return sum(occ(c, name) for c in t[2]) if t[0] == 'o' else 0


def check(ctx):
    V = Env(ctx)
    P, I = V.P, V.P.I
    fnloc = lambda f: '%s:%s (%s)' % (ctx.mod.fn(f).file, ctx.mod.fn(f).line, f)

    def bad(f, key, msg):
        ctx.violation('%s:%s' % (f, key), fnloc(f), msg)

    def faults(f, what):
        for k, d, inst, st, stack in I.faults:
            ctx.violation('%s:%s' % (f, k), inst.loc if inst is not None else fnloc(f), '%s while %s: %s (call path %s)' % (k, what, d, ' > '.join(stack)))
        n = len(I.faults)
        I.faults.clear()
        return n

    def one(f, exits, what):
        ctx.count('obligations')
        if faults(f, what):
            return None
        if len(exits) != 1:
            ctx.undecide('%s on %s: %d paths' % (f, what, len(exits)))
            return None
        return exits[0]

    S = [V.ids(s) for s in shapes(ctx.thorough, True)]
    ctx.count('tree_shapes', len(S))

    # --- copy / release
    for t in S:
        st, p = V.build(V.base.copy(), t)
        what = fmt(t)
        nodes = P.nodes(st, p)
        for k, n in enumerate(nodes):
            st, _ = P.call(st, 'set_token_index', n, ci(100 + k, 64))
        e = one('tree_copy', P.run(st, 'tree_copy', p), 'copying ' + what)
        if e:
            q, s = e.ret, e.state
            if P.read(s, q) != V.norm(t):
                bad('tree_copy', 'structure', 'the copy of %s is %s' % (what, fmt(P.read(s, q))))
            elif P.read(s, p) != V.norm(t):
                bad('tree_copy', 'source', 'copying %s changes the source to %s' % (what, fmt(P.read(s, p))))
            else:
                n2 = P.nodes(s, q)
                if {I.toptr(x)[1] for x in nodes} & {I.toptr(x)[1] for x in n2}:
                    bad('tree_copy', 'shared', 'the copy of %s shares nodes with its source' % what)
                tok = [P.call(s.copy(), 'get_token_index', n)[1] for n in n2]
                if tok != [ci(100 + k, 64) for k in range(len(n2))]:
                    bad('tree_copy', 'position', 'the copy of %s has other source positions' % what)
                f = one('free_tree', P.run(s.copy(), 'free_tree', p), 'releasing ' + what)
                if f:
                    s2 = f.state
                    if P.read(s2, q) != V.norm(t):
                        bad('tree_copy', 'dependent', 'releasing the source of a copy of %s damages the copy' % what)
                    freed = {r for r in (I.toptr(x)[1] for x in nodes) if I.status(s2, r) != 'freed'}
                    if freed:
                        bad('free_tree', 'leak', 'releasing %s leaves %d node(s) allocated' % (what, len(freed)))
                    f = one('free_tree', P.run(s2, 'free_tree', q), 'releasing the copy of ' + what)
                    if f and I.leaks(f.state):
                        bad('free_tree', 'leak', 'releasing %s and its copy leaves memory allocated' % what)
        faults('tree_copy', 'reading back')
    for f, args in (('tree_copy', [NULL]), ('free_tree', [NULL])):
        e = one(f, P.run(V.base.copy(), f, *args), 'NULL')
        if e and f == 'tree_copy' and e.ret != NULL:
            bad(f, 'null', 'copy of an absent tree is not absent')

    # --- equality
    def eq_cond(a, b, st):
        """True/False under the facts of a path, None when not decided"""
        if a[0] != b[0]:
            return False
        if a[0] == 'c':
            r = st.facts.get('f', V.num[a[1]], V.num[b[1]])
            return True if r == E else False if not r & E else None
        if a[0] == 'v':
            return a[1] == b[1] and a[2:] == b[2:]
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return False
        rs = [eq_cond(x, y, st) for x, y in zip(a[2], b[2])]
        return False if False in rs else None if None in rs else True
    raw = shapes(False)
    pool = raw + [('v', 'A', 7), ('o', 'f', [('c', 'z')]), ('o', 'f', [('c', 'x'), ('v', 'A', 7)])]
    pool = [V.ids(t) if False else t for t in pool]
    for a in pool:
        st0, p = V.build(V.base.copy(), a)
        for b in pool:
            st, q = V.build(st0.copy(), b)
            ex = P.run(st, 'tree_equals', p, q)
            ctx.count('obligations')
            if faults('tree_equals', 'comparing %s with %s' % (fmt(a), fmt(b))):
                continue
            for e in ex:
                want = eq_cond(norm_id(a), norm_id(b), e.state)
                if e.ret[0] != 'c':
                    # the result is the condition itself
                    for val in (True, False):
                        for s in I.assume(e.state.copy(), e.ret, val):
                            w = eq_cond(norm_id(a), norm_id(b), s)
                            if w is not None and w != val:
                                bad('tree_equals', 'value', 'comparing %s with %s yields %s' % (fmt(a), fmt(b), val))
                    continue
                got = bool(e.ret[1] & 1)
                if want is not None and got != want:
                    bad('tree_equals', 'value', 'comparing %s with %s yields %s' % (fmt(a), fmt(b), got))
                elif want is None and got:
                    bad('tree_equals', 'value', 'comparing %s with %s yields true without establishing that the constants agree' % (fmt(a), fmt(b)))
                elif want is None and not got and decidable(I, e.state, V, a, b, eq_cond):
                    bad('tree_equals', 'value', 'comparing %s with %s yields false although the constants may agree' % (fmt(a), fmt(b)))
    for a, b in ((NULL, NULL),):
        one('tree_equals', P.run(V.base.copy(), 'tree_equals', a, b), 'absent trees')

    # --- variables
    for t in S:
        what = fmt(t)
        st0, p = V.build(V.base.copy(), t)
        e = one('count_all_variable_nodes', P.run(st0.copy(), 'count_all_variable_nodes', p), what)
        if e and e.ret != ci(occ(t), 64):
            bad('count_all_variable_nodes', 'value', '%s has %d variable occurrences, counted %s' % (what, occ(t), show(e.ret)))
        want = varlist(t, [])
        for size in range(0, 4):
            st = st0.copy()
            buf = P.local(st, 'vars', size=8 * size)
            flag = P.local(st, 'ok', size=1)
            e = one('list_variables', P.run(st, 'list_variables', p, ci(size, 64), buf, flag), '%s, room for %d' % (what, size))
            if not e:
                continue
            s = e.state
            ok = I.load(s, flag, 1, 'i8')
            if ok not in (ci(1, 8), ci(0, 8)):
                bad('list_variables', 'flag', '%s: sufficiency flag is not set' % what)
                continue
            if (ok == ci(1, 8)) != (len(want) <= size):
                bad('list_variables', 'flag', '%s has %d distinct variables; with room for %d the buffer is reported %s' % (what, len(want), size, 'sufficient' if ok == ci(1, 8) else 'insufficient'))
            if len(want) <= size:
                got = [I.sid(s, I.load(s, I.ptradd(s, buf, ci(8 * k, 64)), 8, 'ptr')) for k in range(len(want))]
                if e.ret != ci(len(want), 64) or sorted(got, key=repr) != sorted([('name', w) for w in want], key=repr):
                    bad('list_variables', 'value', '%s: variables listed as %s (count %s)' % (what, got, show(e.ret)))
                else:
                    # identifiers index the list
                    for n in P.nodes(s, p):
                        r = P.read(s, n)
                        if r and r[0] == 'v' and (r[2][0] != 'c' or r[2][1] >= len(got) or got[r[2][1]] != r[1]):
                            bad('list_variables', 'id', '%s: variable %s gets id %s, listed as %s' % (what, r[1][1], show(r[2]), got))
        # ids from a given list
        st = st0.copy()
        arr = P.local(st, 'vars')
        for k, n in enumerate(('C', 'B', 'A')):
            I.store(st, I.ptradd(st, arr, ci(8 * k, 64)), P.name(n), 8)
        e = one('tree_copy_IDs', P.run(st, 'tree_copy_IDs', p, ci(3, 64), arr), what)
        if e:
            for n in P.nodes(e.state, p):
                r = P.read(e.state, n)
                if r and r[0] == 'v' and r[2] != ci(('C', 'B', 'A').index(r[1][1]), 64):
                    bad('tree_copy_IDs', 'id', '%s: variable %s gets id %s' % (what, r[1][1], show(r[2])))
        for name in NAMES + ('C',):
            # occurrences
            for size in range(0, occ(t, name) + 1 + (occ(t, name) > 1)):
                st = st0.copy()
                slot = P.local(st, 'root', size=8)
                I.store(st, slot, p, 8)
                n = occ(t, name)
                size_ = min(size, n)
                buf = P.local(st, 'inst', size=8 * size_)
                e = one('get_variable_nodes', P.run(st, 'get_variable_nodes', slot, P.name(name), ci(size_, 64), buf if size_ else NULL), '%s, variable %s' % (what, name))
                if not e:
                    continue
                if e.ret != ci(n, 64):
                    bad('get_variable_nodes', 'count', '%s has %d occurrence(s) of %s, found %s' % (what, n, name, show(e.ret)))
                elif size_ == n:
                    addrs = [I.load(e.state, I.ptradd(e.state, buf, ci(8 * k, 64)), 8, 'ptr') for k in range(n)]
                    names = [P.read(e.state, I.load(e.state, a, 8, 'ptr'))[:2] if a != UNDEF and a[0] == 'p' else None for a in addrs]
                    if len(set(addrs)) != n or any(x != ('v', ('name', name)) for x in names):
                        bad('get_variable_nodes', 'value', '%s: occurrences of %s listed wrongly' % (what, name))
            # substitution
            for r in (('c', 'z'), ('o', 'h', [('v', name, 9), ('v', 'D', 8)]), ('v', 'B', 9)):
                st = st0.copy()
                slot = P.local(st, 'root', size=8)
                I.store(st, slot, p, 8)
                st, rp = V.build(st, r)
                e = one('replace_variable_nodes', P.run(st, 'replace_variable_nodes', slot, rp, P.name(name)), 'substituting %s for %s in %s' % (fmt(r), name, what))
                if not e:
                    continue
                s = e.state
                exp, n = subst(t, name, r)
                got = P.read(s, I.load(s, slot, 8, 'ptr'))
                if V.noid(got) != V.noid(V.norm(exp)):
                    bad('replace_variable_nodes', 'value', 'substituting %s for %s in %s gives %s' % (fmt(r), name, what, fmt(got)))
                elif e.ret != ci(n, 64):
                    bad('replace_variable_nodes', 'count', 'substituting %s in %s reports %s replacements instead of %d' % (name, what, show(e.ret), n))
                elif V.noid(P.read(s, rp)) != V.noid(V.norm(r)):
                    bad('replace_variable_nodes', 'source', 'substitution changes the inserted tree')
                else:
                    s2 = s
                    new = I.load(s2, slot, 8, 'ptr')
                    for x in (new, rp):
                        f = one('replace_variable_nodes', P.run(s2, 'free_tree', x), 'releasing the trees after substituting in ' + what)
                        if not f:
                            break
                        s2 = f.state
                    else:
                        if I.leaks(s2):
                            bad('replace_variable_nodes', 'leak', 'substituting %s for %s in %s loses memory' % (fmt(r), name, what))
        # first operator
        for on in 'fgh':
            st = st0.copy()
            slot = P.local(st, 'root', size=8)
            I.store(st, slot, p, 8)
            e = one('find_op', P.run(st, 'find_op', slot, V.ops[on]), '%s, operator %s' % (what, on))
            if not e:
                continue
            has = contains_op(t, on)
            if (e.ret == NULL) == has:
                bad('find_op', 'value', '%s: operator %s %s' % (what, on, 'not found' if has else 'found'))
            elif has:
                r = P.read(e.state, I.load(e.state, e.ret, 8, 'ptr'))
                if r is None or r[0] != 'o' or r[1] != V.ops[on]:
                    bad('find_op', 'value', '%s: found node is not operator %s' % (what, on))

    # --- splicing of a parameter list
    for t in S:
        if t[0] != 'o' or not t[2]:
            continue
        for k in range(len(t[2])):
            for ins in ([], [('v', 'C', 3)], [('c', 'z'), ('o', 'h', [('v', 'C', 3)])], [('c', 'z'), ('v', 'D', 4), ('c', 'y')]):
                st, p = V.build(V.base.copy(), t)
                slot = P.local(st, 'root', size=8)
                I.store(st, slot, p, 8)
                arr = P.local(st, 'nodes', size=8 * max(len(ins), 1))
                ptrs = []
                for j, x in enumerate(ins):
                    st, q = V.build(st, x)
                    ptrs.append(q)
                    I.store(st, I.ptradd(st, arr, ci(8 * j, 64)), q, 8)
                e = one('tree_replace_by_list', P.run(st, 'tree_replace_by_list', slot, ci(k, 64), ci(len(ins), 64), arr), 'splicing %d trees into %s' % (len(ins), fmt(t)))
                if not e:
                    continue
                s = e.state
                exp = ('o', t[1], t[2][:k] + ins + t[2][k + 1:])
                new = I.load(s, slot, 8, 'ptr')
                if P.read(s, new) != V.norm(exp):
                    bad('tree_replace_by_list', 'value', 'splicing %s for operand %d of %s gives %s' % ([fmt(x) for x in ins], k, fmt(t), fmt(P.read(s, new))))
                    continue
                for x in [new] + ptrs:
                    f = one('tree_replace_by_list', P.run(s, 'free_tree', x), 'releasing the trees after splicing into ' + fmt(t))
                    if not f:
                        break
                    s = f.state
                else:
                    if I.leaks(s):
                        bad('tree_replace_by_list', 'leak', 'splicing into %s loses memory' % fmt(t))
    ctx.fns |= I.visited_fns
    ctx.need('obligations', 500)
    ctx.sample('shapes: ' + '; '.join(fmt(t) for t in S[:12]))


def decidable(I, st, V, a, b, f):
    """can the path be completed to one on which the trees are equal?"""
    s = st.copy()

    def force(a, b):
        if a[0] == 'c':
            return a == b or s.facts.add('f', V.num[a[1]], V.num[b[1]], E)
        if a[0] == 'o':
            return all([force(x, y) for x, y in zip(a[2], b[2])])
        return True
    return force(a, b) and f(norm_id(a), norm_id(b), s) is True


def norm_id(t):
    if t[0] == 'v':
        return ('v', t[1], t[2] if len(t) > 2 else 0)
    if t[0] == 'o':
        return ('o', t[1], [norm_id(c) for c in t[2]])
    return t


def contains_op(t, n):
    return t[0] == 'o' and (t[1] == n or any(contains_op(c, n) for c in t[2]))
