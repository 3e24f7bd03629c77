"""Definitions: which are accepted, and what the new function or constant means."""
from session import *
from defs import *

EXPLAIN = """exec_command() is abstractly interpreted on every combination of a left side (legal ones: constants, constants with empty parameter list, one to ten parameters, names shared with infix operators,
names that start like built-ins; illegal ones: every kind of malformed text, non-variables, repeated and too many parameters, built-in names), a right side (all kinds of well-formed, malformed, failing, unbound and
recursive ones) and a set of existing definitions. The verdict is compared with a reference that knows by construction which sides are legal, and for accepted ones the registered operator (name, arity) and its
meaning are compared: a use with arguments (numbers, variables, variables named like other parameters, compound expressions, nested uses) prints and evaluates to the same as its right side with the parenthesised arguments written in."""


def args_for(n):
    if n == 0:
        return [()]
    base = [('2', '8', '4'), ('u', 'v', 'w'), ('y', 'x', 'x'), ('x+1', 'x-y', 'z'), ('2-5', '1+1', '4')]
    out = []
    for b in base:
        out.append(tuple((b * 4)[:n]) if n > 3 else b[:n])
    return out


def numeric(t):
    return not re.search('[A-Za-z]', t)


def many(ctx, S, lines, use, val):
    """definitions building on each other; a use with many expansions"""
    st = S.cmds(S.base, lines, 'definitions %s' % lines)
    if st is None:
        return
    what = '"%s" after %s' % (use if len(use) < 80 else use[:77] + '...', ', '.join('"%s"' % l for l in lines[:6]) + (', ...' if len(lines) > 6 else ''))
    r = S.cmd(st, use, what)
    if r is None:
        return
    ctx.count('uses')
    if r[1] not in (0, 1):
        ctx.undecide(what)
    elif r[2].strip() != val:
        ctx.violation('definition:many', S.where('cmd_definition_exec'), '%s gives %r, expected %s' % (what, r[2].strip() or r[3].strip(), val))


def chains(thorough):
    n = 5 if not thorough else 7
    nm = ['p' + c for c in 'abcdefgh'[:n]]
    dbl = ['pa(x)=x+1'] + ['%s(x)=%s(%s(x))' % (b, a, a) for a, b in zip(nm, nm[1:])]
    yield dbl, '%s(3)' % nm[-1], str(3 + 2 ** (n - 1))
    yield dbl, '%s(x)' % nm[2], 'x+1+1+1+1'
    k = 30 if not thorough else 80
    yield ['f(x)=2-x'], '+'.join('f(%d)' % (i % 3) for i in range(k)), str(sum(2 - i % 3 for i in range(k)))
    yield ['f(x)=2-x'], 'f(' * 20 + '7' + ')' * 20, '7'
    yield ['f(x,y)=x-y'], 'f(' * 9 + '100' + ''.join(',%d)' % i for i in range(9)), str(100 - sum(range(9)))
    yield ['f(x,y)=x-y'], ''.join('f(%d,' % i for i in range(1, 8)) + '0' + ')' * 7, str(1 - 2 + 3 - 4 + 5 - 6 + 7)
    ks = ['v' + a + b for a in 'abcdef' for b in ('abcdef' if thorough else 'xyz')]
    yield ['%s=%d' % (v, i) for i, v in enumerate(ks)], '+'.join(ks), str(sum(range(len(ks))))
    yield ['%s=%d' % (v, i) for i, v in enumerate(ks)], '%s-%s' % (ks[-1], ks[1]), str(len(ks) - 2)


def work(ctx, items):
    S = Session(ctx)
    bases = {}
    for before, left, right in items:
        if before == 'many':
            many(ctx, S, left, *right)
            continue
        if before not in bases:
            bases[before] = S.cmds(S.base, ['%s=%s' % (d, r) for d, _, _, r in BEFORE[before]], 'earlier definitions')
        st = bases[before]
        if st is None:
            continue
        funcs = {n: p for _, n, p, _ in BEFORE[before]}
        text = '%s=%s' % (left, right)
        what = '"%s"%s' % (text, ' after ' + ', '.join('"%s=%s"' % (d, r) for d, _, _, r in BEFORE[before]) if BEFORE[before] else '')
        want = legal(left, right, funcs)
        r = S.cmd(st, text, what)
        if r is None:
            continue
        s, ok, out, err = r
        ctx.count('definitions')
        if ok not in (0, 1):
            ctx.undecide('%s: verdict %s' % (what, short(ok)))
            continue
        if ok != int(want is not None):
            ctx.violation('definition:%s' % ('accepted' if ok else 'rejected'), S.where('cmd_definition_exec'), '%s is %s' % (what, 'accepted although it is not legal' if ok else 'rejected (%s) although it is legal' % err.strip()))
            continue
        ctx.count('accepted' if ok else 'rejected')
        if not ok:
            if not err:
                ctx.violation('definition:silent', S.where('cmd_definition_exec'), '%s is rejected without an error message' % what)
            continue
        name, params = want
        mine = [o for o in S.ops(s) if o[0] == name and o[1] == 3]
        if len(mine) != 1 or mine[0][2] != len(params):
            ctx.violation('definition:operator', S.where('cmd_definition_exec'), '%s registers %s, expected one function of %d operands' % (what, [o[:4] for o in mine], len(params)))
            continue
        defs = {n: (p, t) for _, n, p, t in BEFORE[before]}
        for a in args_for(len(params)):
            use = '%s(%s)' % (name, ','.join(a)) if params else name
            plain = subst(right, dict(zip(params, a)))
            alln = all(numeric(x) for x in a)
            forms = [(use, plain)]
            if alln:
                forms.append(('10-%s*2' % use, '10-(%s)*2' % plain))
                forms.append(('2*(%s)-1' % use, '2*(%s)-1' % plain))
            for u, p in forms:
                x = S.cmd(s, u, what + ' then "%s"' % u)
                y = S.cmd(s, p, what + ' then "%s"' % p)
                if x is None or y is None:
                    continue
                if x[1] not in (0, 1) or y[1] not in (0, 1) or '<' in x[2] + y[2]:
                    ctx.undecide('%s, then %s' % (what, u))
                    continue
                ctx.count('uses')
                if (x[1], x[2]) != (y[1], y[2]) or S.history(x[0]) != S.history(y[0]):
                    ctx.violation('definition:meaning', S.where('cmd_definition_exec'), '%s: "%s" gives %s but "%s" gives %s' % (what, u, repr(x[2].strip() or x[3].strip()), p, repr(y[2].strip() or y[3].strip())))
        if len(ctx.samples) < 6:
            ctx.sample('%s accepted' % what)
    ctx.fns |= S.I.visited_fns


def items(thorough):
    out = [('many', l, (u, v)) for l, u, v in chains(thorough)]
    rights = list(RIGHT) + list(RIGHT_FN)
    good = [l for l in LEFT if LEFT[l]]
    for b in range(len(BEFORE)):
        for i, l in enumerate(LEFT):
            if LEFT[l] is None:
                for r in (['x', '5', '', '1/0', 'f(x)'] if b in (0, 3) else ['x', '5']):
                    out.append((b, l, r))
            else:
                for j, r in enumerate(rights):
                    if thorough or b == 0 or (l in ('f(x)', 'k', 'f(x,y)', 'k()') and (i + j + b) % 2 == 0) or (i + j + b) % 9 == 0:
                        out.append((b, l, r))
    return out


def check(ctx):
    ctx.rule('a definition is accepted iff its left side is a new name with distinct variables and its right side is well-formed, not recursive, bound and does not fail; a use means the right side with the arguments written in')
    parallel(ctx, work, items(ctx.thorough))
    ctx.need('accepted', 200)
    ctx.need('rejected', 800)
    ctx.need('uses', 800)
