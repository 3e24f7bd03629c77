"""Built-in operators compute the documented function."""
import itertools, math
from absint import *
from terms import *
import arith, arithspec as S
from arithspec import Cell
from ir import AnalysisBroken

EXPLAIN = """For every registered operator the evaluator is specialised to that operator's id and abstractly interpreted over all operands (disjunctive
abstract interpretation; ordering domain {<,=,>,unordered} for comparisons). Each path summary (condition, result term) is compared with the documented
formula on every documented cell: equal normal form decides the cell for all its operands. Operators over truncated integers are analysed per partition
cell {x : trunc(x)=n} (each cell is an infinite set; every rounding of x is decided on it). Selection operators (max, min) are decided from the ordering facts
of each path. A difference is reported only with a point of the path at which the two formulas differ."""


def outcome_ok(I, st, code, out, cell, codes):
    if cell.out[0] == 'err':
        return code == codes[cell.out[1]]
    return code == 0 and out is not None and (same(out, cell.out[1]) or same(I.resolve(st, out), cell.out[1]))


def cell_state(st, facts):
    s = st.copy()
    for f in facts:
        if not s.facts.add(*f):
            return None
    return s


def run(ctx, values, errors):
    """compare every operator; report value differences and / or error differences"""
    mod = ctx.mod
    ops, _ = arith.registry(mod)
    codes = arith.err_codes()
    pl = arith.placements(mod)
    fixed = S.fixed()
    ints = S.integer_ops(ctx.thorough)
    fn = mod.fn('arith_op_evaluate')
    ctx.fns.add('arith_op_evaluate')
    for i, o in enumerate(ops):
        key = (o['name'], pl[o['placement']])
        label = '%s (%s)' % key
        if key in fixed:
            ctx.count('operators')
            cells = fixed[key]
            n = o['arity']
            paths, I = arith.eval_paths(mod, i, n)
            ctx.fns |= I.visited_fns
            if not paths:
                raise AnalysisBroken('no path through the evaluator for %s' % label)
            for st, code, out in paths:
                for c in cells:
                    cs = cell_state(st, c.facts)
                    if cs is None:
                        continue
                    ctx.count('path_cells')
                    if outcome_ok(I, cs, code, out, c, codes):
                        ctx.count('decided_by_normal_form')
                        continue
                    is_err = c.out[0] == 'err'
                    diff_kind = 'err' if is_err or code != 0 else 'val'
                    if diff_kind == 'val' and not values or diff_kind == 'err' and not errors:
                        continue
                    w = S.witness(st, code, out, n, c.pred, None if is_err else c.out[1], c.out[1] if is_err else None, codes)
                    if w:
                        ctx.violation('%s:%s' % (label, c.text), fn.file + ' (arith_op_evaluate, operator %s)' % label,
                                      'operator %s, cell %s: path ending with status %s computes %s; documented: %s. At operands %s: %s instead of %s' % (
                                          label, c.text, code, show(out) if code == 0 else '-', c.out[1] if is_err else show(c.out[1]), w[0], w[1], w[2]))
                    else:
                        ctx.count('undecided_cells')
                        ctx.undecide('%s cell %s: forms differ, no separating point found: %s' % (label, c.text, show(out)))
            ctx.sample('%s: %d path(s); %s' % (label, len(paths), '; '.join('%s -> %s' % (c, show(x) if c == 0 else 'error') for _, c, x in paths)))
        elif values and key in ints:
            ctx.count('operators')
            n, tuples, f = ints[key]
            if o['arity'] != n:
                continue
            for tup in tuples:
                subs = [S.subcells(v) for v in tup]
                small = all(abs(v) <= (3 if len(tup) > 1 and not ctx.thorough else 6) for v in tup)
                # nested trunc is idempotent
                combos = [[s[0] for s in subs]] if not small else None
                if combos is None:
                    combos = [[s[0] for s in subs]]
                    for k in range(len(subs)):
                        for alt in subs[k][1:]:
                            combos.append([alt if j == k else subs[j][0] for j in range(len(subs))])
                for combo in combos:
                    facts = []
                    for k, (txt, v, fr) in enumerate(combo):
                        facts += S.cell_facts(arith.arg(k), v, fr)
                    try:
                        paths, I = arith.eval_paths(mod, i, n, facts, max_states=3000)
                    except PathLimit:
                        ctx.count('undecided_cells')
                        ctx.undecide('%s cell %s: path limit' % (label, [c[0] for c in combo]))
                        continue
                    ctx.fns |= I.visited_fns
                    ctx.count('partition_cells')
                    exp = f(*tup)
                    w = cell_witness(paths, combo, exp)
                    if w:
                        ctx.violation('%s:%s' % (label, tup), fn.file + ' (arith_op_evaluate, operator %s)' % label,
                                      'operator %s on the cell %s: path ending with status %s computes %s; at operands %s: %s; documented value %r' % (
                                          label, ', '.join(c[0] for c in combo), w[0], show(w[1]) if w[1] is not None else '-', w[2], w[3], exp))
                        continue
                    if len(paths) != 1 or I.cut or paths[0][1] is None:
                        ctx.count('undecided_cells')
                        ctx.undecide('%s cell %s: %d paths' % (label, [c[0] for c in combo], len(paths)))
                        continue
                    st, code, out = paths[0]
                    if code != 0:
                        ctx.violation('%s:%s' % (label, tup), fn.file + ' (arith_op_evaluate, operator %s)' % label,
                                      'operator %s on the cell %s: status %s, documented value %r' % (label, ', '.join(c[0] for c in combo), code, exp))
                        continue
                    if out[0] != 'f':
                        ctx.count('undecided_cells')
                        ctx.undecide('%s cell %s: result %s' % (label, [c[0] for c in combo], show(out)))
                        continue
                    if not close(fval(out), exp):
                        ctx.violation('%s:%s' % (label, tup), fn.file + ' (arith_op_evaluate, operator %s)' % label,
                                      'operator %s on the cell %s computes %r; documented value %r' % (label, ', '.join(c[0] for c in combo), fval(out), exp))
                    else:
                        ctx.count('decided_cells')
            ctx.sample('%s: %d operand tuples over partition cells' % (label, len(tuples)))
        elif values and key[0] in S.DYN and key[1] == 'function':
            ctx.count('operators')
            dyn(ctx, mod, i, key[0], label, fn)
        elif values and key[0] == 'rand':
            ctx.count('operators')
            rand_op(ctx, mod, i, label, fn)
        elif values and key[0] in S.CONSTS and key[1] == 'function' and o['arity'] == 0:
            ctx.count('operators')
            paths, I = arith.eval_paths(mod, i, 0)
            for st, code, out in paths:
                if code != 0 or out[0] != 'f' or not close(fval(out), S.CONSTS[key[0]]):
                    ctx.violation(label, fn.file + ' (arith_op_evaluate)', 'constant %s evaluates to status %s, %s; documented %r' % (key[0], code, show(out), S.CONSTS[key[0]]))
                else:
                    ctx.count('decided_by_normal_form')
    # operators outside the documented set must not be evaluable (checked with the error property)


def cell_witness(paths, combo, exp):
    """a point of the cell at which one of the paths (not a constant one) gives another value than documented"""
    pts = []
    for txt, v, fr in combo:
        pts.append([float(v)] if fr == 0 else [v + fr, v + (math.copysign(.375, fr) if abs(fr) < .5 else math.copysign(.875, fr)), v + (math.copysign(.125, fr) if abs(fr) < .5 else math.copysign(.625, fr))])
    for st, code, out in paths:
        if code == 0 and (out is None or out[0] == 'f') or code is None:
            continue
        conds = S.conditions(st)
        for p in itertools.product(*pts):
            env = {arith.arg(k): p[k] for k in range(len(p))}
            try:
                if not S.feasible(conds, env):
                    continue
                if code != 0:
                    return code, None, p, 'status %s' % code
                v = value(out, env)
                if not close(v, exp) and v == v:
                    return code, out, p, v
            except (NoVal, ZeroDivisionError, OverflowError, ValueError):
                continue
    return None


def dyn(ctx, mod, opid, name, label, fn):
    for n in range(0 if name in ('sum', 'prod', 'avg') else 1, 5 if not ctx.thorough else 7):
        if name in ('max', 'min') and n > 4:
            break
        facts = [('f', arith.arg(k), arith.arg(k), E) for k in range(n)]
        paths, I = arith.eval_paths(mod, opid, n, facts, loop_bound=12)
        ctx.fns |= I.visited_fns
        if not paths:
            ctx.undecide('%s with %d operands: no path' % (label, n))
        for st, code, out in paths:
            ctx.count('path_cells')
            if code is None:
                ctx.undecide('%s with %d operands: status not determined' % (label, n))
                continue
            if name in ('max', 'min'):
                rel = closure(st, n, out)
                bad = None
                for k in range(n):
                    r = rel(out, arith.arg(k))
                    ok = (G | E) if name == 'max' else (L | E)
                    if r & ~ok:
                        bad = k
                if code == 0 and bad is None and (out in [arith.arg(k) for k in range(n)] or out[0] == 'f' and abs(fval(out)) == INF):
                    ctx.count('decided_by_normal_form')
                    continue
                w = sel_witness(st, code, out, n, max if name == 'max' else min)
            else:
                expect = S.dyn_terms(name, n)
                if code == 0 and same(out, expect):
                    ctx.count('decided_by_normal_form')
                    continue
                w = S.witness(st, code, out, n, None, expect, None, {})
            if w:
                ctx.violation('%s:%d' % (label, n), fn.file + ' (arith_op_evaluate, operator %s)' % label,
                              '%s of %d operands: path computes %s; at operands %s: %s instead of %s' % (label, n, show(out), w[0], w[1], w[2]))
            else:
                ctx.count('undecided_cells')
                ctx.undecide('%s of %d operands: %s' % (label, n, show(out)))
    ctx.sample('%s: operand counts up to %d' % (label, n))


def closure(st, n, out):
    """ordering relations between the operands, closed under transitivity (through constants as well)"""
    nodes = [arith.arg(k) for k in range(n)] + [cf(INF), cf(-INF)]
    if out is not None and out not in nodes:
        nodes.append(out)
    r = {(a, b): st.facts.get('f', a, b) for a in nodes for b in nodes}
    comp = {(x, y): (x if x == y else (x | y) & (L | E | G) if E in (x, y) else ORD) for x in (L, E, G) for y in (L, E, G)}
    for x, y in comp:
        if x == E:
            comp[x, y] = y
        elif y == E:
            comp[x, y] = x
        elif x != y:
            comp[x, y] = ORD
        else:
            comp[x, y] = x
    ch = True
    while ch:
        ch = False
        for m in nodes:
            for a in nodes:
                for b in nodes:
                    am, mb = r[a, m], r[m, b]
                    if am & U or mb & U:
                        continue
                    c = 0
                    for x in (L, E, G):
                        for y in (L, E, G):
                            if am & x and mb & y:
                                c |= comp[x, y]
                    n_ = r[a, b] & c
                    if n_ and n_ != r[a, b]:
                        r[a, b] = n_
                        ch = True
    return lambda x, y: r.get((x, y), ALLF)


def sel_witness(st, code, out, n, f):
    conds = S.conditions(st)
    for p in S.points(n, [-3.0, -1.0, 0.0, 2.0, 5.0] + ([-1e9, 1e9] if n < 4 else [])):
        env = {arith.arg(k): p[k] for k in range(n)}
        try:
            if not S.feasible(conds, env):
                continue
            if code != 0:
                return p, 'status %s' % code, f(p)
            v = value(out, env)
            if v != f(p):
                return p, v, f(p)
        except NoVal:
            continue
    return None


def rand_op(ctx, mod, opid, label, fn):
    for lo, hi in [(0, 1), (0, 2), (0, 6), (1, 7), (-3, 4), (5, 15)]:
        for flo in S.subcells(lo)[:2]:
            for fhi in S.subcells(hi)[:3]:
                facts = S.cell_facts(arith.arg(0), lo, flo[2]) + S.cell_facts(arith.arg(1), hi, fhi[2])
                paths, I = arith.eval_paths(mod, opid, 2, facts)
                ctx.fns |= I.visited_fns
                for st, code, out in paths:
                    ctx.count('partition_cells')
                    if code != 0:
                        ctx.violation(label, fn.file + ' (arith_op_evaluate)', '%s rejects the range %d..%d with status %s' % (label, lo, hi, code))
                        continue
                    env = {}
                    collect_rand(out, env)
                    try:
                        a, b = interval(out, env)
                    except (NoVal, ZeroDivisionError):
                        ctx.undecide('%s cell %s..%s: result %s' % (label, flo[0], fhi[0], show(out)))
                        continue
                    if a < lo or b > hi - 1 or (env and (a > lo or b < hi - 1)):
                        ctx.violation(label, fn.file + ' (arith_op_evaluate)', '%s on the cell %s, %s yields values in [%s, %s]; documented: integers from %d to %d' % (label, flo[0], fhi[0], a, b, lo, hi - 1))
                    else:
                        ctx.count('decided_cells')


def collect_rand(t, env):
    if isinstance(t, tuple) and t:
        if t[0] == 'sym' and str(t[1]).split('#')[0] in ('rand', 'random', 'lrand48'):
            env[t] = (0, 2147483647)
        else:
            for x in t:
                collect_rand(x, env)


def check(ctx):
    ctx.rule('for every operator and documented cell: result term of every path = documented formula')
    run(ctx, True, False)
    ctx.need('operators', 50)
