"""Built-ins are protected and clear removes exactly what it names."""
from session import *

EXPLAIN = """Every history of up to three commands over an alphabet of definitions (functions, constants, names shared with infix operators, functions built from other functions, redefinitions, attempts on built-in names) and
clear commands (everything, every kind of name: user function, user constant, built-in function, built-in constant, infix operator, unknown, empty) is abstractly interpreted and followed in a reference map from names to functions.
After every history the registered operators must be the built-ins (same operators, unchanged, at the same place) plus exactly the functions of the map; uses of every function, of removed names and of built-ins give the reference result;
removed functions stay available inside functions built from them; the verdicts agree; no heap block is lost."""

# command -> effect on the reference map (None: rejected)
F1, F2, G = ('f', ('x',)), ('f', ('x', 'y')), ('g', ('x',))
DEFS = {
    'f(x)=x+1': ('f', 1, lambda m: lambda x: x + 1, ()),
    'f(x,y)=x-y': ('f', 2, lambda m: lambda x, y: x - y, ()),
    'k=5': ('k', 0, lambda m: lambda: 5, ()),
    'k()=8': ('k', 0, lambda m: lambda: 8, ()),
    'mod(x)=x*2': ('mod', 1, lambda m: lambda x: x * 2, ()),
    'C=4': ('C', 0, lambda m: lambda: 4, ()),
    'g(x)=f(x)*10': ('g', 1, lambda m: (lambda f: lambda x: f(x) * 10)(m['f'][1]), (('f', 1),)),
    'h(x)=k+x': ('h', 1, lambda m: (lambda k: lambda x: k() + x)(m['k'][1]), (('k', 0),)),
    'ff(x)=x*3': ('ff', 1, lambda m: lambda x: x * 3, ()),
}
BAD = ['sin(x)=2', 'pi=3', 'ans=1', 'max(x,y)=x', 'e()=2', 'f(x)=', 'k=1/0', 'clear=']
CLEARS = ['clear', 'clear f', 'clear k', 'clear g', 'clear mod', 'clear C', 'clear ff', 'clear sin', 'clear pi', 'clear ans', 'clear max', 'clear +', 'clear @', 'clear nosuch', 'clear ', 'clear  f', 'clear f ', 'clear h']
NUM = (3, 7)


def effect(m, c):
    """(new map or None when rejected)"""
    if c in DEFS:
        n, ar, mk, need = DEFS[c]
        if n in m or any(q not in m or m[q][0] != a for q, a in need):
            return None
        if c.startswith('h(') and 'k' in m and m['k'][0] != 0:
            return None
        d = dict(m)
        d[n] = (ar, mk(m))
        return d
    if c == 'clear':
        return {}
    if c.startswith('clear '):
        n = c[6:]
        if n not in m:
            return None
        d = dict(m)
        del d[n]
        return d
    return None


def probes(m):
    out = [('5 C 2' if 'C' not in m else '5 C (2)', '10'), ('7 mod 4', '3'), ('max(1,2)', '2'), ('floor(2.5)', '2'), ('(pi-pi)', '0'), ('2(3)', '6')]
    for n, (ar, fn) in m.items():
        out.append((n + ('(%s)' % ','.join(map(str, NUM[:ar])) if ar else ''), '%g' % fn(*NUM[:ar])))
    for n in ('f', 'k', 'g', 'ff', 'h'):
        if n not in m:
            out.append((n + '*2', n + '*2'))
    return out


def work(ctx, items):
    S = Session(ctx)
    if S.base is None:
        return
    base_ops = S.ops(S.base)
    cache = {(): (S.base, {})}
    seen = {}
    for h in items:
        for i in range(1, len(h) + 1):
            if h[:i] in cache:
                continue
            pre = cache[h[:i - 1]]
            if pre is None:
                cache[h[:i]] = None
                break
            st, m = pre
            c = h[i - 1]
            what = ' ; '.join(h[:i])
            r = S.cmd(st, c, what)
            if r is None:
                cache[h[:i]] = None
                break
            s, ok, out, err = r
            ctx.count('commands')
            n = effect(m, c)
            if ok not in (0, 1):
                ctx.undecide('%s: verdict %s' % (what, short(ok)))
                cache[h[:i]] = None
                break
            if ok != int(n is not None):
                ctx.violation('verdict:%s:%s' % (c, ok), S.where('exec_command'), 'history "%s": the last command %s' % (what, 'succeeds although it should be rejected' if ok else 'fails: %s' % err.strip()))
            if n is None and not err:
                ctx.violation('silent:%s' % c, S.where('exec_command'), 'history "%s": the last command fails without a message' % what)
            cache[h[:i]] = (s, m if n is None else n)
            examine(ctx, S, s, m if n is None else n, base_ops, what, seen)
    ctx.fns |= S.I.visited_fns


def examine(ctx, S, s, m, base_ops, what, seen):
    ops = S.ops(s)
    own = [o for o in ops if o not in base_ops]
    lost = [o for o in base_ops if o not in ops]
    if lost:
        ctx.violation('builtin lost', S.where('clear_composite_functions'), 'after "%s": built-in operators are gone or changed: %s' % (what, [o[:4] for o in lost]))
        return
    if sorted((o[0], o[1], o[2]) for o in own) != sorted((n, 3, ar) for n, (ar, _) in m.items()):
        ctx.violation('functions', S.where('remove_composite_function'), 'after "%s" the user-defined functions are %s, expected %s' % (what, [o[:3] for o in own], [(n, ar) for n, (ar, _) in m.items()]))
        return
    lk = S.I.leaks(s)
    if lk:
        ctx.violation('leak', S.where('clear_composite_functions'), 'after "%s": %d heap block(s) allocated at %s are lost' % (what, len(lk), ', '.join(sorted({str(s.info[x][2]) for x in lk}))))
    ctx.count('states')
    for p, want in probes(m):
        r = S.cmd(s, p, what + ' ; ' + p)
        if r is None:
            continue
        got = r[2].strip() if r[1] == 1 else 'error: ' + r[3].strip()
        ctx.count('uses')
        if got != want:
            ctx.violation('use:%s' % p, S.where('exec_command'), 'after "%s": "%s" gives %s, expected %s' % (what, p, got, want))
    if len(ctx.samples) < 5:
        ctx.sample('after "%s": %s' % (what, sorted(m)))


def items(thorough):
    A = list(DEFS) + BAD + CLEARS
    out = [(a,) for a in A]
    for a in list(DEFS) + BAD:
        out += [(a, b) for b in A]
    k = 0
    for a in DEFS:
        for b in A:
            for c in A:
                k += 1
                if a == b or (b in BAD and c in BAD):
                    continue
                if thorough or (b in DEFS and (k % 4 == 0 or c.startswith('clear') and k % 2 == 0)):
                    out.append((a, b, c))
    for a, b in (('f(x)=x+1', 'g(x)=f(x)*10'), ('k=5', 'h(x)=k+x'), ('f(x)=x+1', 'k=5'), ('f(x)=x+1', 'ff(x)=x*3')):
        for c in ('clear f', 'clear k', 'clear g', 'clear', 'f(x,y)=x-y'):
            for d in ('f(x)=x+1', 'f(x,y)=x-y', 'k=5', 'k()=8', 'clear f', 'clear', 'g(x)=f(x)*10', 'clear ff', 'mod(x)=x*2'):
                out.append((a, b, c, d))
    return out


def check(ctx):
    ctx.rule('registered operators = built-ins + reference map after every history; verdicts and uses agree with the map')
    its = sorted(set(items(ctx.thorough)))
    # keep histories with a common prefix in one part
    groups = {}
    for h in its:
        groups.setdefault(h[:2], []).append(h)
    parallel(ctx, lambda c, gs: work(c, [h for g in gs for h in g]), list(groups.values()))
    ctx.need('states', 600)
    ctx.need('uses', 5000)
