"""Tries are maps from words to payloads with longest-prefix lookup and ordered iteration."""
import itertools
from model import *

EXPLAIN = """From the trie of every word set up to the bound over a universe of words covering every prefix relation (empty word, prefixes of each other, shared prefixes, divergent words,
words made of the first and last legal character) in every insertion order each operation (insert new / insert again / remove present / remove absent / remove prefix or extension) is
abstractly interpreted; payloads are symbolic. The outcome is observed through the public interface (membership of every word, payload identity and content, longest prefix of words
with legal and illegal continuations, number of words, iteration in lexicographic order, twice, after reset) and compared with a reference map. The per-character code depends only on
'legal' and the array index, so representatives stand for all characters; one trie holding every legal character covers the index range. Heap typestate is checked on every access."""

LO, HI = None, None


def pay(w):
    return ('sym', 'p_' + w)


def check(ctx):
    S = Suite(ctx, max_depth=45)
    P, I = S.P, S.I
    mod = ctx.mod
    lo, hi = '!', '|'
    U = ['', 'a', 'ab', 'abc', 'b', 'ba', 'abd', lo + hi, hi]
    Q = U + ['abcd', 'bab', 'ac', 'c', lo, 'a b', 'ab~', ' ', '\x7f', 'a\xc3', '\xff', '}', 'a' + lo]
    tsize = mod.sizeof('Trie')
    lits = {}

    base = P.state()
    for w in Q:
        lits[w] = P.lit(base, w)
    T = P.local(base, 'trie', size=tsize)
    OUT = P.local(base, 'out', size=8)
    IT = P.local(base, 'it', size=mod.sizeof('TrieIterator'))

    def lit(st, w):
        if w not in lits:
            lits[w] = P.lit(st, w)
        return lits[w]

    def create(es=8):
        st = base.copy()
        r = S.call(st, 'create', 'trie_create', T, ci(es, 64))
        return r[0] if r else None

    def add(st, ref, w, what, tag=''):
        r = S.call(st, what, 'trie_add_str', T, lit(st, w))
        if r is None:
            return None
        s, p = r
        if not S.same('trie_add_str', 'duplicate', what, p == NULL, w in ref):
            return None
        if p != NULL:
            n = len(I.faults)
            I.store(s, p, pay(w + tag), 8)
            ref = dict(ref)
            ref[w] = pay(w + tag)
        return s, ref

    def lookup(st, ref, what, words):
        for q in words:
            r = S.call(st.copy(), what, 'trie_contains', T, lit(st, q), OUT)
            if r is None:
                return False
            s, v = r
            v = v[1] & 1 if v[0] == 'c' else v
            if not S.same('trie_contains', 'membership', '%s: "%s"' % (what, q), v, int(q in ref)):
                return False
            if q in ref:
                p = I.load(s, OUT, 8, 'ptr')
                if not S.same('trie_contains', 'payload', '%s: "%s"' % (what, q), I.load(s, p, 8, 'i64') if p[0] == 'p' else p, ref[q]):
                    return False
            r = S.call(st.copy(), what, 'trie_longest_prefix', T, lit(st, q), OUT)
            if r is None:
                return False
            best = max([len(w) for w in ref if q.startswith(w)] or [0])
            if not S.same('trie_longest_prefix', 'length', '%s: "%s"' % (what, q), r[1], ci(best, 64)):
                return False
            if best:
                p = I.load(r[0], OUT, 8, 'ptr')
                if not S.same('trie_longest_prefix', 'payload', '%s: "%s"' % (what, q), I.load(r[0], p, 8, 'i64') if p[0] == 'p' else p, ref[q[:best]]):
                    return False
            r = S.call(st.copy(), what, 'trie_longest_prefix', T, lit(st, q), NULL)
            if r is None or not S.same('trie_longest_prefix', 'length', '%s: "%s"' % (what, q), r[1], ci(best, 64)):
                return False
        return True

    def cstr(st, p):
        i = I.sid(st, p) if p != NULL else None
        return i[1] if i and i[0] == 'lit' else i

    def iterate(st, ref, what, rounds=2):
        r = S.call(st.copy(), what, 'trie_get_iterator', IT, T)
        if r is None:
            return False
        s = r[0]
        words = sorted(ref)
        for rnd in range(rounds):
            full = rnd != 1 or len(words) < 2
            for i, w in enumerate((words + [None])[:None if full else 1]):
                r = S.call(s, what, 'iterator_get_next', IT)
                if r is None:
                    return False
                s, p = r
                if not S.same('trie_get_iterator', 'iteration', '%s, step %d' % (what, i), I.load(s, p, 8, 'i64') if p != NULL and p[0] == 'p' else p, ref[w] if w is not None else NULL):
                    return False
                if w is not None:
                    r = S.call(s, what, 'trie_get_current_string', IT)
                    if r is None or not S.same('trie_get_current_string', 'word', '%s, step %d' % (what, i), cstr(r[0], r[1]), w):
                        return False
                    s = r[0]
            if not full or rnd == 2:
                r = S.call(s, what, 'iterator_reset', IT)
                if r is None:
                    return False
                s = r[0]
        return True

    def observe(st, ref, what, words=Q, it=True):
        ctx.count('trie_states')
        r = S.call(st.copy(), what, 'trie_count', T)
        if r is None or not S.same('trie_count', 'count', what, r[1], ci(len(ref), 64)):
            return False
        if not lookup(st, ref, what, words):
            return False
        if it and not iterate(st, ref, what, 4 if ctx.thorough else 2):
            return False
        if not it and not ctx.thorough:
            return True
        r = S.call(st.copy(), what, 'trie_destroy', T)
        if r is None:
            return False
        lk = I.leaks(r[0])
        if lk:
            ctx.violation('trie_destroy:leak', S.where('trie_destroy'), '%s: trie_destroy leaves %s allocated' % (what, lk))
            return False
        return True

    def name(ref):
        return 'trie {%s}' % ', '.join('"%s"' % w for w in ref)
    size = 3 if not ctx.thorough else 4
    done = set()

    def build(words):
        st, ref = create(), {}
        for w in words:
            if st is None:
                return None
            r = add(st, ref, w, name(ref) + ' + "%s"' % w)
            if r is None:
                return None
            st, ref = r
        return st, ref
    U2 = U if ctx.thorough else ['', 'a', 'ab', 'abc', 'b', 'abd', hi]
    for n in range(size + 1):
        for ws in itertools.combinations(U2, n):
            b = build(ws)
            if b is None:
                return
            st, ref = b
            if not observe(st, ref, name(ref)):
                return
            if n == 3 and 'a' in ws:
                # other insertion order
                b2 = build(ws[::-1])
                if b2 is None or not observe(b2[0], b2[1], name(ws[::-1]), it=False):
                    return
            for w in U2:
                if w in ref:
                    r = add(st.copy(), ref, w, name(ref) + ' + "%s" again' % w)
                    if r is None or not observe(r[0], r[1], name(ref) + ' + "%s" again' % w, U2, False):
                        return
            for w in U2 + (['ac', 'a b'] if n <= 2 else []):
                what = name(ref) + ' - "%s"' % w
                r = S.call(st.copy(), what, 'trie_remove_str', T, lit(st, w))
                if r is None:
                    return
                ref2 = {k: v for k, v in ref.items() if k != w}
                if not observe(r[0], ref2, what, U2, n <= 2 or ctx.thorough):
                    return
                if w in ref and (n == 2 or ctx.thorough):
                    r = add(r[0], ref2, w, what + ' + "%s"' % w, "'")
                    if r is None or not observe(r[0], r[1], what + ' + "%s"' % w, U2, False):
                        return
    # every legal character is its own word; deep word
    st, ref = create(), {}
    for c in range(ord(lo), ord(hi) + 1):
        r = st and add(st, ref, chr(c), 'trie of single characters + "%c"' % c)
        if not r:
            return
        st, ref = r
    observe(st, ref, 'trie of all single characters', list(ref) + Q)
    w = 'abcdefghijklmnopqrstuvwxyz'
    b = build([w, w[:20], w[:13] + 'x'])
    if b:
        observe(b[0], b[1], 'trie of long words', [w[:k] for k in (0, 1, 12, 13, 14, 19, 20, 21, 25, 26)] + [w + 'z', w[:13] + 'xy'])
    ctx.fns |= I.visited_fns
    ctx.rule('observed map = reference map after every operation; memory safe; nothing allocated after destroy')
    ctx.need('trie_states', 50)
