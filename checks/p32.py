"""String helpers and the string builder."""
import itertools
from model import *

EXPLAIN = """Character predicates are decided for every one of the 256 characters. The string helpers are abstractly interpreted on every string up to the length bound over an alphabet holding
one representative of each character class they distinguish (blank, delimiter characters, newline, escape, other), in buffers of exactly the needed size so that any access outside is a
fault; results and modified buffers are compared with reference definitions. The string builder is driven through all sequences of appends (single characters, formatted strings of
several lengths, clear) from several start capacities, around every capacity boundary; the text must be the concatenation and stay within its buffer."""


def check(ctx):
    S = Suite(ctx)
    P, I = S.P, S.I
    base = P.state()

    def text(st, p):
        i = I.sid(st, p)
        return i[1] if i and i[0] == 'lit' else i

    # --- character predicates
    for fn, pred in (('is_space', lambda c: c == ' '), ('is_digit', lambda c: c in '0123456789.'), ('is_letter', lambda c: c.isascii() and (c.isalpha() or c in '_[]'))):
        for k in range(256):
            r = S.call(base.copy(), "%s('\\x%02x')" % (fn, k), fn, ci(k, 8))
            ctx.count('predicate_values')
            if r:
                v = r[1]
                S.same(fn, 'result', "'\\x%02x'" % k, v[1] & 1 if v[0] == 'c' else v, int(pred(chr(k))))
    for fn, words in (('is_opening_parenthesis', '({'), ('is_closing_parenthesis', ')}'), ('is_delimiter', ',')):
        for w in [''] + [chr(k) for k in range(1, 256)] + ['((', '(a', ')a', ',,', '{{', ' (', '}a', ', ']:
            st = base.copy()
            r = S.call(st, '%s("%s")' % (fn, w), fn, P.lit(st, w))
            ctx.count('predicate_values')
            if r:
                S.same(fn, 'result', '"%s"' % w, r[1][1] & 1 if r[1][0] == 'c' else r[1], int(len(w) == 1 and w in words))

    def strings(alpha, n):
        for k in range(n + 1):
            for t in itertools.product(alpha, repeat=k):
                yield ''.join(t)
    n = 4 if ctx.thorough else 3
    # --- strip
    for w in strings(' ab', n + 1):
        st = base.copy()
        p = P.lit(st, w)
        r = S.call(st, 'strip("%s")' % w, 'strip', p)
        ctx.count('helper_calls')
        if r:
            S.same('strip', 'result', 'strip("%s")' % w, text(r[0], r[1]), w.strip(' '))
    # --- begins_with
    for a in strings('ab', n):
        for b in strings('ab', n):
            st = base.copy()
            r = S.call(st, 'begins_with("%s", "%s")' % (a, b), 'begins_with', P.lit(st, a), P.lit(st, b))
            ctx.count('helper_calls')
            if r:
                S.same('begins_with', 'result', 'begins_with("%s", "%s")' % (a, b), r[1][1] & 1 if r[1][0] == 'c' else r[1], int(b.startswith(a)))
    # --- skip_ansi
    for w in strings('a\x1bm', n):
        st = base.copy()
        p = P.lit(st, w)
        r = S.call(st, 'skip_ansi(%r)' % w, 'skip_ansi', p)
        ctx.count('helper_calls')
        if r:
            exp = w
            while exp[:1] == '\x1b':
                i = exp.find('m')
                exp = exp[i + 1:] if i >= 0 else ''
            S.same('skip_ansi', 'result', 'skip_ansi(%r)' % w, text(r[0], r[1]), exp)
    # --- get_line_of_string
    for w in strings('ab\n', n):
        for i in range(0, 4):
            st = base.copy()
            p = P.lit(st, w)
            out = P.local(st, 'out', size=8)
            what = 'line %d of %r' % (i, w)
            r = S.call(st, what, 'get_line_of_string', p, ci(i, 64), out)
            ctx.count('helper_calls')
            if r:
                lines = w.split('\n')
                exp = lines[i] if i < len(lines) else ''
                if S.same('get_line_of_string', 'length', what, r[1], ci(len(exp), 64)):
                    q = I.load(r[0], out, 8, 'ptr')
                    t = text(r[0], q)
                    S.same('get_line_of_string', 'start', what, t[:len(exp)] if isinstance(t, str) else t, exp)
    st = base.copy()
    out = P.local(st, 'out', size=8)
    r = S.call(st, 'line of NULL', 'get_line_of_string', NULL, ci(0, 64), out)
    if r:
        S.same('get_line_of_string', 'length', 'line of NULL', r[1], ci(0, 64))
    # --- str_split
    for w in strings('ax,', n + 1):
        for ds in ((',',), (',', 'x'), ('x', 'x'), (',x', 'a'), ('a', ',', 'x')):
            st = base.copy()
            p = P.lit(st, w)
            outs = P.local(st, 'outs', size=8 * (len(ds) + 1))
            what = 'str_split("%s"; %s)' % (w, ' '.join('"%s"' % d for d in ds))
            r = S.call(st, what, 'str_split', p, outs, ci(len(ds), 64), *[P.lit(st, d) for d in ds])
            ctx.count('helper_calls')
            if r:
                exp, rest = [], w
                for d in ds:
                    a, m, b = rest.partition(d)
                    if not m:
                        break
                    exp.append(a)
                    rest = b
                exp.append(rest)
                if S.same('str_split', 'number of parts', what, r[1], ci(len(exp), 64)):
                    for k, e in enumerate(exp):
                        if not S.same('str_split', 'part', what + ' part %d' % k, text(r[0], I.load(r[0], I.ptradd(r[0], outs, ci(8 * k, 64)), 8, 'ptr')), e):
                            break
    # --- string builder
    B = P.local(base, 'builder', size=mod_size(ctx, 'Vector'))

    def steps(st, k):
        yield 'char', lambda s: S.call(s, W[0] + ', char', 'strbuilder_append_char', B, ci(97 + k % 26, 8)), chr(97 + k % 26)
        for L in (0, 1, 2, 3, 5, 9) if k < 2 or ctx.thorough else (1, 4):
            t = ''.join(chr(65 + (k + j) % 26) for j in range(L))
            yield 'string of %d' % L, lambda s, t=t: S.call(s, W[0] + ', string of %d' % len(t), 'strbuilder_append', B, P.lit(s, '%s'), P.lit(s, t)), t
        yield 'formatted', lambda s: S.call(s, W[0] + ', formatted', 'strbuilder_append', B, P.lit(s, '<%s|%c%%>'), P.lit(s, 'uv'), ci(ord('w'), 32)), '<uv|w%>'
        yield 'clear', lambda s: S.call(s, W[0] + ', clear', 'strbuilder_clear', B), None
    W = ['']

    def look(st, ref, what):
        ctx.count('builder_states')
        r = S.call(st.copy(), what, 'strbuilder_to_str', B)
        if r is None or not S.same('strbuilder_to_str', 'text', what, text(r[0], r[1]), ref):
            return False
        r = S.call(st.copy(), what, 'vec_count', B)
        if r is None or not S.same('strbuilder_append', 'count', what, r[1], ci(len(ref) + 1, 64)):
            return False
        r = S.call(st.copy(), what, 'vec_destroy', B)
        if r and I.leaks(r[0]):
            ctx.violation('builder:leak', S.where('strbuilder_create'), '%s: memory left after release' % what)
        return True

    def explore(st, ref, hist, depth):
        what = 'builder: ' + ', '.join(hist)
        if not look(st, ref, what) or depth == 0:
            return
        for name, f, t in list(steps(st, len(hist))):
            W[0] = what
            s = st.copy()
            r = f(s)
            if r:
                explore(r[0], ref + t if t is not None else '', hist + (name,), depth - 1)
    for cap in (0, 1, 2, 4, 9):
        r = S.call(base.copy(), 'create(%d)' % cap, 'strbuilder_create', B, ci(cap, 64))
        if r:
            explore(r[0], '', ('create(%d)' % cap,), 3 if ctx.thorough else 2)
    for t in ('', 'x', 'hello'):
        st = base.copy()
        h = S.call(st, 'malloc', 'malloc_wrapper', ci(len(t) + 1, 64))
        if h is None:
            return
        st, p = h
        for k, c in enumerate(t + '\0'):
            I.store(st, I.ptradd(st, p, ci(k, 64)), ci(ord(c), 8), 1)
        r = S.call(st, 'from "%s"' % t, 'strbuilder_from_heapstring', B, p)
        if r:
            explore(r[0], t, ('from "%s"' % t,), 3 if ctx.thorough else 2)
    ctx.fns |= I.visited_fns
    ctx.rule('results equal the reference definition; no access outside the given strings')
    ctx.need('predicate_values', 768)
    ctx.need('builder_states', 50)


def mod_size(ctx, s):
    return ctx.mod.sizeof(s)
