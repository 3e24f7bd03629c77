"""Malformed token sequences are rejected with the error and position that say why; well-formed ones are accepted."""
import itertools
from parsing import *

EXPLAIN = """Every token sequence up to the length bound over one representative of each token kind (number, variable, prefix, infix, postfix, name that is both prefix and infix, opening and closing
parenthesis, delimiter, functions of fixed, variable and zero arity, illegal character), with and without an implicit operator, is decided: a reference recogniser (independent
left-to-right definition of well-formedness) says whether it is well-formed, and if not, which error at which token comes first; the parser is abstractly interpreted on it. Verdict, error kind
and error position must agree; accepted sequences are grouped as the reference says. Sequences are pruned only behind a token that already makes them malformed. On every path partial
trees are released (heap typestate), and the result location is only written on success."""

OPS = {('*', 'infix'): (2, 4, 'left'), ('-', 'infix'): (2, 3, 'left'), ('-', 'prefix'): (1, 6, None), ('$', 'prefix'): (1, 0, None), ('!', 'postfix'): (1, 5, None),
       ('f', 'function'): (1, None, None), ('g', 'function'): (2, None, None), ('h', 'function'): (None, None, None), ('k', 'function'): (0, None, None)}
ALPHA = ['x', '2', '-', '$', '*', '!', '(', ')', ',', 'f', 'h', 'k', '#', ' ']
DEEP = ['x', '-', '*', '(', ')', ',', 'g', 'h']


def verdict(ref, toks):
    try:
        return 'SUCCESS', ref.parse(list(toks)), None
    except Err as e:
        return e.kind, None, e.tok


def sequences(ref, alpha, n):
    """all sequences whose proper prefixes are still viable"""
    out = []
    front = [()]
    while front:
        s = front.pop()
        out.append(s)
        if len(s) >= n:
            continue
        if s:
            k, t, tok = verdict(ref, s)
            if k not in ('SUCCESS', 'UNEXPECTED_END_OF_EXPR', 'EXCESS_OPENING_PAREN') and not (k == 'EXPECTED_PARAM_LIST' and tok == len(s)):
                continue
        for a in alpha:
            front.append(s + (a,))
    return out


LONG = ['g ( x , f ( 2 ) ) + h ( x , 2 , k )', '( f ( - x ) ) ! * 2', '- ( h ( ) - g ( ( x ) , 2 ! ) )', 'f ( ( h ( x , ( 2 ) ) ) )', 'x * ( 2 - ( x * g ( h ( ) , k ) ) )', '$ x - f ( $ 2 * x ) x', 'h ( g ( x , x ) , f ( x ) , ( x ) )', '{ x - f ( { 2 } ) }']


def edits(thorough):
    """all single-token edits of longer well-formed inputs"""
    A = ['x', '-', '*', '!', '(', ')', ',', 'f', 'h', 'k', '#']
    for l in LONG:
        t = l.split()
        yield tuple(t)
        for k in range(len(t) + 1):
            for a in A:
                yield tuple(t[:k] + [a] + t[k:])
                if k < len(t) and thorough:
                    yield tuple(t[:k] + [a] + t[k + 1:])
            if k < len(t):
                yield tuple(t[:k] + t[k + 1:])
    # operands that are neither numbers nor names
    for w in ['1.2.3', '.', '..', '1..2', '.5.', '5..', '0.0.0', '=', ';', '&', '?', '~', '\xc3', '<', '`', '1.5', '007']:
        for q in ([], ['-', 'x'], ['!'], ['x'], [w]):
            for b in ([], ['-'], ['2', '*'], ['2'], ['f', '('], ['(', 'x', '-'], ['h', '(', 'x', ',']):
                yield tuple(b + [w] + q + ([')'] if '(' in b else []))
    for l in LONG:
        t = l.split()
        yield tuple(x if x not in '()' else {'(': '{', ')': '}'}[x] for x in t)


def early(toks, fn, at):
    """the call starting at token fn is complete before token `at` and something follows it"""
    d = 0
    for k in range(fn + 1, at):
        if toks[k][0] == ' ':
            continue
        d += (toks[k] in OPEN) - (toks[k] in CLOSE)
        if d == 0 and toks[k] in CLOSE:
            return k < at - 1 or False
    return False


def work(ctx, items):
    ps = {}
    for glue, toks in items:
        if glue not in ps:
            ps[glue] = Parser(ctx, OPS, glue)
        p = ps[glue]
        w = p.S.where('parse_tokens')
        kind, tree, tok = verdict(p.ref, toks)
        src = ' '.join(toks)
        r = p.run(list(toks))
        ctx.count('sequences')
        if r is None:
            continue
        s, err, got, et = r
        base = p.base_live()
        if kind == 'SUCCESS':
            ctx.count('well_formed')
            if err != 'SUCCESS':
                ctx.violation('rejected:%s' % err, w, 'the well-formed input "%s" is rejected (%s)' % (src, err))
                continue
            t = p.read(s, got)
            if not p.same(t, tree):
                ctx.violation('tree', w, '"%s" is read as %s, expected %s' % (src, text(t) if t[0] != '?' else t, text(tree)))
                continue
            q = p.S.call(s, 'releasing the tree of "%s"' % src, 'free_tree', got)
            if q and set(p.I.live(q[0])) - base:
                ctx.violation('leak:accepted', w, '"%s": memory besides the tree is left allocated' % src)
            continue
        ctx.count('malformed')
        if err == 'SUCCESS':
            ctx.violation('accepted:%s' % kind, w, 'the malformed input "%s" is accepted (%s at token %s expected)' % (src, kind, tok))
            continue
        if err != kind:
            if kind == 'FUNCTION_WRONG_ARITY' and tok is not None and et[0] == 'c' and et[1] > tok and not early(toks, tok, et[1]):
                pass        # a later error was met before the call was completed
            else:
                ctx.violation('kind:%s/%s' % (kind, err), w, '"%s": %s is reported, expected %s at token %s' % (src, err, kind, tok))
                continue
        elif et[0] == 'c' and et[1] != tok:
            ctx.violation('position:%s' % kind, w, '"%s": %s is reported at token %d, expected %d' % (src, kind, et[1], tok))
            continue
        elif et[0] != 'c':
            ctx.violation('position:%s' % kind, w, '"%s": %s is reported without position' % (src, kind))
            continue
        left = set(p.I.live(s)) - base
        if left:
            ctx.violation('leak:%s' % kind, w, '"%s" (%s): %d blocks of the partial result are not released' % (src, kind, len(left)))
        ctx.sample('%s => %s at %s' % (src, kind, tok))
    # syntax check only (no result location)
    for glue, toks in items[::17]:
        p = ps[glue]
        kind, tree, tok = verdict(p.ref, toks)
        r = p.run(list(toks), out=False)
        ctx.count('syntax_checks')
        if r is None:
            continue
        if (r[1] == 'SUCCESS') != (kind == 'SUCCESS'):
            ctx.violation('syntax', p.S.where('parse_tokens'), '"%s" checked without result location gives %s, expected %s' % (' '.join(toks), r[1], kind))
        elif set(p.I.live(r[0])) - p.base_live():
            ctx.violation('leak:syntax', p.S.where('parse_tokens'), '"%s" checked without result location leaves memory allocated' % ' '.join(toks))
    for p in ps.values():
        ctx.fns |= p.I.visited_fns


def check(ctx):
    ctx.rule('accepted iff well-formed; error kind and token of the first error; partial results released')
    T = ctx.thorough
    items = []
    for glue, alpha, n in (('*', ALPHA, 5 if T else 4), (None, ALPHA, 4 if T else 3), ('*', DEEP, 7 if T else 6)):
        items += [(glue, s) for s in sequences(Ref(OPS, glue), alpha, n)]
    for glue in ('*', None):
        items += [(glue, s) for s in edits(T)]
    items = list(dict.fromkeys(items))
    parallel(ctx, work, items)
    ctx.need('well_formed', 200)
    ctx.need('malformed', 1000)
