"""Undefined operations are errors, and errors are never turned into numbers."""
import itertools
import p01
from prog import *
import arith

EXPLAIN = """(1) The evaluator's path summaries per operator are compared with the documented domain of each operator (ordering cells of the operands): a path of an undefined cell
must end with the documented error, a path of a defined cell must not. (2) Ids outside the registry and operators without evaluation end with an error on every path.
(3) Evaluation of a tree is abstractly interpreted with an unconstrained operator evaluator (every call forks into success with a fresh value and failure with a fresh
non-zero code): a tree evaluates successfully only when every call succeeded, the result is the value of the root call, the first failure is returned unchanged and its node is
reported; folding of constant subtrees replaces exactly the maximal variable-free subtrees."""


def listener_model(I, st, fr, inst, args):
    """abstract operator evaluator: success with a fresh value, or a fresh non-zero code"""
    n = args[1]
    if n[0] != 'c':
        raise AnalysisBroken('evaluator called with an undetermined operand count')
    xs = []
    for k in range(n[1]):
        I.access(st, fr, inst, I.ptradd(st, args[2], ci(8 * k, 64)), ci(8, 64), False)
        xs.append(I.load(st, I.ptradd(st, args[2], ci(8 * k, 64)), 8, 'f64'))
    k = st.info.get('calls', 0)
    out = []
    for ok in (True, False):
        s = st.copy()
        s.info['calls'] = k + 1
        s.event('eval', args[0], tuple(xs), ok, k)
        if ok:
            I.store(s, args[3], ('call', 'VAL', args[0]) + tuple(xs), 8)
            out.append((s, ci(0, 32)))
        else:
            c = ('sym', 'err%d' % k)
            s.facts.add('u', c, ci(0, 32), L | G)
            out.append((s, c))
    return out


def shapes(V):
    f, g, h = V['f'], V['g'], V['h']
    c = lambda n: ('c', ('sym', n))
    return [c('x'), ('v', 'A'), ('o', f, []), ('o', f, [c('x')]), ('o', f, [('v', 'A')]), ('o', f, [c('x'), c('y')]), ('o', f, [c('x'), ('v', 'A')]), ('o', f, [('v', 'A'), c('x')]),
            ('o', f, [('o', g, [c('x')]), ('o', h, [c('y')])]), ('o', f, [('o', g, [c('x')]), c('z'), ('o', h, [])]), ('o', f, [('o', g, [c('x'), c('y')]), ('v', 'A')]),
            ('o', f, [('o', g, [('o', h, [c('x')])])]), ('o', f, [('v', 'A'), ('o', g, [c('x')]), ('o', g, [c('y')])]), ('o', f, [c('x'), c('y'), c('z'), ('o', g, [c('w')])]),
            ('o', f, [('o', g, [('v', 'A'), ('o', h, [c('x')])]), ('o', h, [c('y')])])]


def value(t):
    if t[0] == 'c':
        return t[1]
    return ('call', 'VAL', t[1]) + tuple(value(x) for x in t[2])


def has_var(t):
    return t[0] == 'v' or t[0] == 'o' and any(has_var(x) for x in t[2])


def fold(t):
    if not has_var(t):
        return ('c', value(t))
    if t[0] == 'o':
        return ('o', t[1], [fold(x) for x in t[2]])
    return t


def noid(t):
    if t and t[0] == 'v':
        return ('v', t[1] if isinstance(t[1], tuple) else ('name', t[1]))
    if t and t[0] == 'o' and isinstance(t[2], list):
        return ('o', t[1], [noid(x) for x in t[2]])
    return t


def check(ctx):
    mod = ctx.mod
    p01.run(ctx, False, True)
    codes = arith.err_codes()
    fn = mod.fn('arith_op_evaluate')
    ops, _ = arith.registry(mod)
    pl = arith.placements(mod)
    # ids outside the registry
    for opid in (len(ops), len(ops) + 1, len(ops) + 7, 1 << 20):
        for n in range(0, 3):
            paths, I = arith.eval_paths(mod, opid, n)
            ctx.count('unknown_operator_paths', len(paths))
            for st, code, out in paths:
                if code != codes['LISTENERERR_UNKNOWN_OP']:
                    ctx.violation('unknown:%d' % opid, fn.file + ' (arith_op_evaluate)', 'an operator that is not built in (id %d) evaluates to status %s' % (opid, code))
    # every operator returns a known status on every path; success paths store a result
    for i, o in enumerate(ops):
        for n in ([o['arity']] if o['arity'] < 10 else [1, 2]):
            try:
                paths, I = arith.eval_paths(mod, i, n)
            except PathLimit:
                continue
            for st, code, out in paths:
                ctx.count('status_paths')
                if code == 0 and out is not None and out[0] == 'ld' and out[1] == arith.OUT:
                    ctx.violation('noresult:%s' % o['name'], fn.file + ' (arith_op_evaluate)', 'operator %s succeeds without producing a result' % o['name'])
    # propagation
    P = Prog(mod, models={'@listener': listener_model})
    I = P.I
    base = P.state(False)
    V = {n: P.op(base, P.name('op_' + n), 'OP_PLACE_FUNCTION', id=k + 100, arity=0) for k, n in enumerate('fgh')}
    LST = ('fn', '@listener')
    where = lambda f: '%s:%s (%s)' % (mod.fn(f).file, mod.fn(f).line, f)

    def faulted(f, what):
        for k, d, inst, st, stack in I.faults:
            ctx.violation('%s:%s' % (f, k), inst.loc, '%s while evaluating %s: %s' % (k, what, d))
        n = len(I.faults)
        I.faults.clear()
        return n
    for t in shapes(V):
        what = fmt(t)
        st0, p = P.tree(base.copy(), t)
        for witherr in (True, False):
            st = st0.copy()
            out = P.local(st, 'out', size=8)
            err = P.local(st, 'errnode', size=8)
            I.store(st, err, NULL, 8)
            ex = P.run(st, 'tree_reduce', p, LST, out, err if witherr else NULL)
            faulted('tree_reduce', what)
            for e in ex:
                ctx.count('propagation_paths')
                s = e.state
                evs = [x for x in s.events() if x[0] == 'eval']
                failed = [x for x in evs if not x[3]]
                ret = I.simp(s, e.ret)
                en = I.load(s, err, 8, 'ptr')
                if failed:
                    want = ('sym', 'err%d' % failed[0][4])
                    if ret != want:
                        ctx.violation('tree_reduce:status', where('tree_reduce'), 'evaluating %s: the evaluator failed with %s but status %s is returned' % (what, show(want), show(ret)))
                    elif witherr:
                        r = P.read(s, en) if en != UNDEF else None
                        if r is None or r[0] != 'o' or r[1] != failed[0][1]:
                            ctx.violation('tree_reduce:errnode', where('tree_reduce'), 'evaluating %s: the failing subexpression is reported as %s' % (what, fmt(r)))
                elif has_var(t):
                    if ret != ci(codes['LISTENERERR_VARIABLE_ENCOUNTERED'], 32):
                        ctx.violation('tree_reduce:variable', where('tree_reduce'), 'evaluating %s, which contains a variable, returns status %s' % (what, show(ret)))
                    elif witherr and (en == UNDEF or (P.read(s, en) or ('?',))[0] != 'v'):
                        ctx.violation('tree_reduce:errnode', where('tree_reduce'), 'evaluating %s: the variable is not reported as failing subexpression' % what)
                else:
                    v = I.load(s, out, 8, 'f64')
                    if ret != ci(0, 32):
                        ctx.violation('tree_reduce:status', where('tree_reduce'), 'evaluating %s: every operator succeeded but status is %s' % (what, show(ret)))
                    elif v != value(t):
                        ctx.violation('tree_reduce:value', where('tree_reduce'), 'evaluating %s yields %s' % (what, show(v)))
                if I.leaks(s, [p]):
                    ctx.violation('tree_reduce:leak', where('tree_reduce'), 'evaluating %s loses memory (status %s)' % (what, show(ret)))
        # folding
        st = st0.copy()
        slot, err = P.local(st, 'root', size=8), P.local(st, 'errnode', size=8)
        I.store(st, slot, p, 8)
        I.store(st, err, NULL, 8)
        ex = P.run(st, 'tree_reduce_constant_subtrees', slot, LST, err)
        faulted('tree_reduce_constant_subtrees', what)
        for e in ex:
            ctx.count('folding_paths')
            s = e.state
            failed = [x for x in s.events() if x[0] == 'eval' and not x[3]]
            ret = I.simp(s, e.ret)
            new = I.load(s, slot, 8, 'ptr')
            if failed:
                if ret != ('sym', 'err%d' % failed[0][4]):
                    ctx.violation('fold:status', where('tree_reduce_constant_subtrees'), 'folding %s: the evaluator failed with err%d but status %s is returned' % (what, failed[0][4], show(ret)))
                elif (P.read(s, I.load(s, err, 8, 'ptr')) or ('?', 0))[:2] != ('o', failed[0][1]):
                    ctx.violation('fold:errnode', where('tree_reduce_constant_subtrees'), 'folding %s: failing subexpression not reported' % what)
            else:
                if ret != ci(0, 32):
                    ctx.violation('fold:status', where('tree_reduce_constant_subtrees'), 'folding %s: every operator succeeded but status is %s' % (what, show(ret)))
                elif noid(P.read(s, new)) != noid(fold(t)):
                    ctx.violation('fold:value', where('tree_reduce_constant_subtrees'), 'folding %s gives %s' % (what, fmt(P.read(s, new))))
            f = P.run(s, 'free_tree', new)
            if not faulted('tree_reduce_constant_subtrees', what) and len(f) == 1 and I.leaks(f[0].state):
                ctx.violation('fold:leak', where('tree_reduce_constant_subtrees'), 'folding %s loses memory' % what)
    ctx.fns |= I.visited_fns
    ctx.need('propagation_paths', 30)
