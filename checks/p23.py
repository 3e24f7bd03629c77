"""Splitting input into tokens."""
import itertools
from model import *

EXPLAIN = """tokenize() is abstractly interpreted on every string up to the length bound over one representative of each character class (letters incl. '_' '[' ']', digits and '.', blank, parentheses and
delimiter, characters that start / continue / end a keyword, other symbols, control and non-ASCII characters) and on the class-by-class combinations of longer strings, with keyword sets covering
no keywords, single-character keywords, keywords that are prefixes of each other, keywords that share a start with plain text, keywords containing letters or digits after their first character,
and word keywords. The tokens are compared with a reference: runs of letters, runs of digits, otherwise the longest keyword starting there, otherwise a single character; keywords never start
inside a word; nothing is lost, added or reordered (the concatenation of the tokens is the input). The tokenizer looks at a character only through its class and through the keyword trie, so
class representatives stand for all characters (class tables themselves: P32, trie: P31). Each token is its own block; free_tokens() releases all of them (heap typestate)."""

SETS = [None, [], ['+', '<', '<<', '<=', '<<='], ['+', '-', '*', '+-+', '->', '-->x', '<a', '<1', '=.='], ['mod', 'a', '+', '++', '[', 'ab'], ['<=', '<=+<', '+=', '+=a<=', '=', '=<+=', '<<<=<']]
ALPHA = ['a', 'b', '1', ' ', '+', '<', '=']
MORE = ['_', '[', ']', 'Z', '0', '9', '.', '(', ')', ',', '{', '-', '>', '*', '%', '!', '~', '}', '\t', '\x01', '\x7f', '\x80', '\xc3', '\xff', 'm', '@', '`', '/', ':', '^', '\\', 'z', 'A', 'y']


def letter(c):
    return 'a' <= c <= 'z' or 'A' <= c <= 'Z' or c in '_[]'


def digit(c):
    return '0' <= c <= '9' or c == '.'


def reference(s, kws):
    out, k = [], 0
    while k < len(s):
        e = k + 1
        if letter(s[k]):
            while e < len(s) and letter(s[e]):
                e += 1
        else:
            m = max([len(w) for w in kws or () if w and s.startswith(w, k)] + [0])
            if m:
                e = k + m
            elif digit(s[k]):
                while e < len(s) and digit(s[e]) and not any(w and s.startswith(w, e) for w in kws or ()):
                    e += 1
        out.append(s[k:e])
        k = e
    return out


def strings(thorough):
    yield ''
    for n in range(1, 6 if thorough else 5):
        for t in itertools.product(ALPHA, repeat=n):
            yield ''.join(t)
    for c in MORE:
        yield c
        for d in ALPHA + MORE:
            yield c + d
            yield 'a' + c + d
            yield '1' + c + d
            yield '<' + c + d + 'a'
            yield 'a1' + c + '<' + d
    parts = ['a', 'ab', '1', '12.5', '<<=', '<', '+-+', '->', '-->x', '<a', '<1', '=.=', 'mod', ' ', '  ', '(', '<<a', '++', '[x', '-->']
    for t in itertools.product(parts, repeat=3 if thorough else 2):
        yield ''.join(t)
    for t in itertools.product(parts[::2], repeat=3):
        yield ''.join(t)
    # more tokens than the vector initially holds, long tokens
    yield '+1<' * 5
    yield 'a' * 40 + '1' * 40 + '<' * 9 + ' ' * 9
    yield ('x+1 ' * 12).strip()


def work(ctx, items):
    S = Suite(ctx)
    P, I = S.P, S.I
    base = P.state()
    T = P.local(base, 'trie', size=ctx.mod.sizeof('Trie'))
    V = P.local(base, 'tokens', size=ctx.mod.sizeof('Vector'))
    lits = {}
    states = {}
    for k, kws in enumerate(SETS):
        st = base.copy()
        if kws is not None:
            r = S.call(st, 'create', 'trie_create', T, ci(0, 64))
            if r is None:
                return
            st = r[0]
            for w in kws:
                r = S.call(st, 'keyword', 'trie_add_str', T, P.lit(st, w))
                if r is None:
                    return
                st = r[0]
        states[k] = st
    for k, s in items:
        kws = SETS[k]
        st = states[k].copy()
        live = set(I.live(st))
        what = 'input %r, keywords %s' % (s, kws)
        p = P.lit(st, s)
        r = S.call(st, what, 'tokenize', V, p, NULL if kws is None else T)
        ctx.count('inputs')
        if r is None:
            continue
        st = r[0]
        n = S.call(st.copy(), what, 'vec_count', V)
        if n is None or n[1][0] != 'c':
            ctx.undecide(what)
            continue
        got, bad = [], False
        for i in range(n[1][1]):
            q = S.call(st, what, 'vec_get', V, ci(i, 64))
            if q is None:
                bad = True
                break
            st = q[0]
            try:
                got.append(I.sid(st, I.load(st, q[1], 8, 'ptr')))
            except Fault as e:
                ctx.violation('tokenize:token', S.where('tokenize'), '%s: token %d is not a terminated string (%s)' % (what, i, e))
                bad = True
                break
        if bad:
            continue
        got = [g[1] if g[0] == 'lit' else ('?', str(g)) for g in got]
        want = reference(s, kws)
        if got != want:
            if any(isinstance(g, tuple) and g[0] == '?' for g in got) and not any('undef' in str(g) or 'unterminated' in str(g) for g in got):
                ctx.undecide(what + ': %s' % got)
                continue
            if not any(isinstance(g, tuple) for g in got) and ''.join(got) != s:
                ctx.violation('tokenize:text', S.where('tokenize'), '%s: the tokens %s do not make up the input' % (what, got))
            else:
                ctx.violation('tokenize:tokens', S.where('tokenize'), '%s: split into %s, expected %s' % (what, got, want))
            continue
        ctx.count('tokens', len(got))
        q = S.call(st, what, 'free_tokens', V)
        if q and set(I.live(q[0])) - live:
            ctx.violation('free_tokens:leak', S.where('free_tokens'), '%s: free_tokens() leaves %d blocks' % (what, len(set(I.live(q[0])) - live)))
        if len(ctx.samples) < 4:
            ctx.sample('%s => %s' % (what, got))
    ctx.fns |= I.visited_fns


def check(ctx):
    ctx.rule('tokens = letter runs, digit runs, longest keywords outside words, single characters; their concatenation is the input')
    items = []
    for n, s in enumerate(dict.fromkeys(strings(ctx.thorough))):
        for k in range(len(SETS)):
            if ctx.thorough or len(s) <= 3 or len(s) > 5 or (n + k) % 5 in (0, 2):
                items.append((k, s))
    parallel(ctx, work, items)
    ctx.need('inputs', 5000)
