"""A rejected definition leaves no trace; an accepted one adds exactly one function."""
from session import *
from defs import *

EXPLAIN = """exec_command() is abstractly interpreted on rejected definitions of every kind (every reason for rejection, found at every stage: name, left side, parameters, right side syntax, recursion, evaluation, unbound variables) in
states with different existing definitions. Afterwards the registered operators (names, placements, operand numbers, precedences, identity), the results of probe expressions (built-ins sharing the name, uses of the name before and after,
existing functions) and the history are compared with those before, no heap block may be unreachable, and a following legal definition of the same name must be accepted with its own number of operands and mean what it says.
Every accepted definition must add exactly one operator and keep all others."""
PROBES = ['5 C 2', '7 mod 4', 'max(1,2)', '2 a b', 'k', 'f', 'c', '2*pi-2*pi']


def snapshot(S, st, name, funcs):
    ev = []
    for p in PROBES + ['%s(%s)' % (n, ','.join('23456789'[:len(ps)])) if ps else n for n, ps in funcs.items()] + (['%s 2' % name, '3*%s' % name] if name else []):
        r = S.cmd(st, p, 'probe "%s"' % p)
        ev.append((p, None if r is None else r[1:]))
    return [o for o in S.ops(st)], ev, S.history(st)


def work(ctx, items):
    S = Session(ctx)
    bases, snaps = {}, {}
    for before, text, name in items:
        if before not in bases:
            bases[before] = S.cmds(S.base, ['%s=%s' % (d, r) for d, _, _, r in BEFORE[before]] + ['6*7'], 'earlier definitions')
        st = bases[before]
        if st is None:
            continue
        funcs = {n: p for _, n, p, _ in BEFORE[before]}
        what = '"%s"%s' % (text, ' after ' + ', '.join('"%s=%s"' % (d, r) for d, _, _, r in BEFORE[before]) if BEFORE[before] else '')
        r = S.cmd(st, text, what)
        if r is None:
            continue
        s, ok, out, err = r
        ctx.count('definitions')
        if ok not in (0, 1):
            ctx.undecide('%s: verdict %s' % (what, short(ok)))
            continue
        lk = S.I.leaks(s)
        if lk:
            ctx.violation('leak:%s' % ('accepted' if ok else 'rejected'), S.where('cmd_definition_exec'), '%s (%s): %d heap block(s) allocated at %s are lost' % (what, 'accepted' if ok else 'rejected', len(lk), ', '.join(sorted({str(s.info[x][2]) for x in lk}))))
        ops0 = S.ops(st)
        lr = text.split('=', 1)
        if ok and 'ans' not in text and '@' not in text and lr[0] in LEFT and (lr[1] in RIGHT or lr[1] in RIGHT_FN) and legal(lr[0], lr[1], funcs) is None:
            ctx.violation('accepted:illegal', S.where('cmd_definition_exec'), '%s is accepted although it is not legal' % what)
            continue
        if ok:
            ctx.count('accepted')
            ops1 = S.ops(s)
            new = [o for o in ops1 if o not in ops0]
            gone = [o for o in ops0 if o not in ops1]
            if len(new) != 1 or gone:
                ctx.violation('accepted:operators', S.where('cmd_definition_exec'), '%s adds %s and loses %s' % (what, [o[:4] for o in new], [o[:4] for o in gone]))
            continue
        ctx.count('rejected')
        key = (before, name)
        if key not in snaps:
            snaps[key] = snapshot(S, st, name, funcs)
        a, b = snaps[key], snapshot(S, s, name, funcs)
        for i, w in enumerate(('registered operators', 'results', 'history')):
            if a[i] == b[i]:
                ctx.count('comparisons')
                continue
            if i == 1:
                d = ['"%s": %s -> %s' % (x[0], x[1], y[1]) for x, y in zip(a[1], b[1]) if x != y]
            else:
                d = ['%s -> %s' % ([x for x in a[i] if x not in b[i]], [x for x in b[i] if x not in a[i]])]
            ctx.violation('rejected:%s' % w.split()[-1], S.where('cmd_definition_exec'), '%s is rejected, but it changes the %s: %s' % (what, w, '; '.join(d)[:300]))
        if not name or name in funcs:
            continue
        for d, use, val in (('%s(x,y)=x-2*y' % name, '%s(9,2)' % name, '5'), ('%s=11' % name, '%s+1' % name, '12'), ('%s(x)=x*x' % name, '%s(3)' % name, '9')):
            r = S.cmd(s, d, what + ', then "%s"' % d)
            if r is None:
                continue
            if r[1] != 1:
                ctx.violation('rejected:redefine', S.where('cmd_definition_exec'), '%s is rejected; then "%s" is rejected, too (%s)' % (what, d, r[3].strip()))
                continue
            r = S.cmd(r[0], use, what + ', then "%s"' % d + ', then "%s"' % use)
            if r is None:
                continue
            ctx.count('redefinitions')
            if r[2].strip() != val:
                ctx.violation('rejected:redefine', S.where('cmd_definition_exec'), '%s is rejected; then "%s" and "%s" give %r' % (what, d, use, (r[2] or r[3]).strip()))
    ctx.fns |= S.I.visited_fns


NAMES = {'f': 'f', 'k': 'k', 'C': 'C', 'mod': 'mod', 'sinx': 'sinx'}


def items(thorough):
    out = []
    rights = [r for r in RIGHT if RIGHT[r] is None] + ['z', 'x+q', 'q'] + list(RIGHT_FN)
    for b in range(len(BEFORE)):
        for i, l in enumerate(LEFT):
            m = re.match(r'\s*[(@$*2-]?\s*([A-Za-z_]+)', l)
            name = m.group(1) if m else None
            if name in ('sin', 'pi', 'e', 'ans', 'max', 'deriv', 'gamma'):
                name = None
            if LEFT[l] is None:
                if thorough or (i + b) % 3 == 0 or b == 0:
                    out.append((b, '%s=%s' % (l, 'x' if i % 2 else '3'), name))
            elif l in ('f(x)', 'k', 'C(x)', 'mod', 'k()', 'f(x,y)', 'f(a,b,c,d,g,h,i,j,k,l)'):
                for j, r in enumerate(rights):
                    if thorough or (i + j + b) % 5 == 0 or b == 0 and l in ('f(x)', 'k') or (l in ('k()', 'C(x)') and (i + j + b) % 2 == 0 and b < 2):
                        out.append((b, '%s=%s' % (l, r), name))
    return out


def check(ctx):
    ctx.rule('after a rejected definition: operators, probe results and history as before, no unreachable block, and the name can be defined anew; after an accepted one: exactly one more operator')
    parallel(ctx, work, items(ctx.thorough))
    ctx.need('rejected', 250)
    ctx.need('accepted', 20)
    ctx.need('redefinitions', 300)
