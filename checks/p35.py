"""Rule files are read completely, or refused with the line that is wrong."""
from session import *
import arith
from arith import macros

EXPLAIN = """Rule files of every form the format allows - sections, comments, blank lines, indentation, missing last line end, empty sections, superfluous sections, conditions - and with every kind of
malformed line at every position are given to the abstractly interpreted loader. The reported number of rules, the refusal, the line number named in the message and the state afterwards (rules in
force or none, nothing lost: heap typestate) are compared with an independent reading of the text; which rules are in force, in which section they stand and what they do is observed by simplifying
probe expressions. The number of rules of the shipped file is compared with an independent count."""

N = 7
R0 = 'sin(x) -> cos(x)'


def sections(rules, head='RULESET', sep='\n', blank=()):
    """text of a file with N sections; rules: section -> lines"""
    out = []
    for k in range(N):
        out.append(head)
        out += rules.get(k, [])
        out += list(blank)
    return sep.join(out) + '\n'


def files(maxc, maxv, thorough):
    """(name, text, expected count or None, probes, refused line or None, stray)"""
    for s in (0, 2, 3, 4, 5, 6):
        yield 'rule in section %d' % (s + 1), sections({s: [R0]}), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'rule in section 2', sections({1: [R0]}), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'empty sections', sections({}), 0, [('sin(y)', 'sin(y)')], None, False
    one = {2: [R0]}
    yield 'comments', '# top -> comment\n#RULESET\n' + sections({2: ['# sin(x) -> tan(x)', R0 + ' # and more -> x', '   # indented']}), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'comments in comments', '## top # x\n' + sections({2: ['# sin(x) -> x # tan(x)', R0 + ' # one # two', '### three # RULESET', 'cos(2*x) -> x#a#b']}, head='RULESET # one # two'), 2, [('sin(y)', 'cos(y)'), ('cos(2*y)', 'y')], None, False
    yield 'comment without a blank before it', sections({2: [R0 + '#sin(x) -> tan(x)', '#RULESET']}), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'blank lines', '\n\n' + sections(one, blank=('', '   ')), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'indentation', sections({2: ['        ' + R0, '  cos(2*x) -> x']}, head='  RULESET'), 2, [('sin(y)', 'cos(y)'), ('cos(2*y)', 'y')], None, False
    yield 'no blanks', sections({2: ['sin(x)->cos(x)']}), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'headings with names', sections(one, head='RULESET of this kind # comment'), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'no last line end', sections({6: [R0]}).rstrip('\n'), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'no last line end after a heading', sections({1: [R0]}).rstrip('\n'), 1, [('sin(y)', 'cos(y)')], None, False
    yield 'no last line end, one character', sections({6: [R0, 'tan(x) -> x']}).rstrip('\n'), 2, [('tan(y)', 'y')], None, False
    yield 'more sections than there are', sections(one) + 'RULESET\ncos(x) -> tan(x)\nrubbish\n', 1, [('sin(y)', 'cos(y)'), ('cos(y)', 'cos(y)')], None, False
    yield 'stray line', 'sin(x) -> x\n' + sections(one), 1, [('sin(y)', 'cos(y)')], None, True
    yield 'long line', sections({2: ['sin(x) -> cos(x) # ' + 'c' * 300, 'cos(2*x) -> %s x' % (' ' * 200)]}), 2, [('sin(y)', 'cos(y)'), ('cos(2*y)', 'y')], None, False
    yield 'several rules', sections({k: ['tan(%d*x) -> x' % (10 + k), 'tan(%d*x) -> 2*x' % (20 + k)] for k in range(N)}), 2 * N, [('tan(%d*y)' % (10 + k), 'y') for k in (0, 3, 6)] + [('tan(24*y)', '2*y')], None, False
    # the order of the sections and of the rules within a section
    chain = ['sin(x) -> cos(x)', 'cos(x) -> tan(x)', 'tan(x) -> asin(x)', 'asin(x) -> acos(x)', 'acos(x) -> atan(x)']
    yield 'order of sections', sections(dict(zip((2, 3, 4, 5, 6), [[c] for c in chain]))), 5, [('sin(y)', 'atan(y)')], None, False
    yield 'reverse order of sections', sections(dict(zip((6, 5, 4, 3, 2), [[c] for c in chain]))), 5, [('sin(y)', 'tan(y)'), ('asin(y)', 'atan(y)')], None, False
    yield 'order of rules', sections({2: ['sin(0*x) -> 7', 'sin(x) -> x', 'sin(2*x) -> 5']}), 3, [('sin(0*y)', '7'), ('sin(2*y)', '2*y'), ('sin(y)', 'y')], None, False
    yield 'rules until none applies', sections({2: chain}), 5, [('sin(y)', 'atan(y)'), ('asin(y)+sin(y)', 'atan(y)+atan(y)')], None, False
    # conditions
    for c, hit, miss in (('type(x) == VAR', 'sin(y)', 'sin(y*y)'), ('type(x) == OP', 'sin(y*y)', 'sin(y)'), ('type(x) != VAR', 'sin(y*y)', 'sin(y)'),
                         ('type(x) == VAR ; type(x) != OP', 'sin(y)', 'sin(y*y)'), ('type(x) != CONST ; type(x) != VAR', 'sin(y*y)', 'sin(y)'), ('type(x) != VAR ; type(x) != CONST ; TRUE', 'sin(y*y)', 'sin(y)'),
                         ('TRUE ; TRUE ; type(x) == VAR', 'sin(y)', 'sin(y*y)'), ('equal(x, y*y)' if False else 'type(x) == VAR || FALSE', 'sin(y)', 'sin(y*y)')):
        yield 'condition %s' % c, sections({2: [R0 + ' WHERE ' + c]}), 1, [(hit, hit.replace('sin', 'cos')), (miss, miss)], None, False
    yield 'condition and comment', sections({2: [R0 + '  WHERE type(x) == VAR   # WHERE FALSE']}), 1, [('sin(y)', 'cos(y)'), ('sin(y*y)', 'sin(y*y)')], None, False
    # malformed lines
    bad = {'no arrow': 'sin(x)', 'no arrow, condition': 'sin(x) WHERE TRUE', 'words': 'this is no rule', 'left side': 'sin( -> x', 'left side empty': ' -> x', 'right side': 'sin(x) -> cos(', 'right side empty': 'sin(x) ->',
           'right side operator': 'sin(x) -> *', 'unbound': 'sin(x) -> y', 'unbound list': 'sum([xs]) -> sum([ys])', 'condition': R0 + ' WHERE type(', 'condition empty': R0 + ' WHERE  ; TRUE',
           'second condition': R0 + ' WHERE TRUE ; )', 'too many conditions': R0 + ' WHERE ' + ' ; '.join(['TRUE'] * (maxc + 1)), 'far too many conditions': R0 + ' WHERE ' + ' ; '.join(['TRUE'] * (maxc + 9)),
           'too many variables': 'sum(%s) -> 1' % ', '.join('v' + chr(97 + j) for j in range(maxv + 1)), 'too many variables on the right': 'sin(x) -> sum(%s)' % ', '.join('v' + chr(97 + j) for j in range(maxv + 1)),
           'arity': 'sin(x, y) -> x', 'two arrows': 'sin(x) -> cos(x) -> tan(x)', 'parenthesis': 'sin(x)) -> x'}
    for n, b in bad.items():
        t = sections({2: [R0, b]})
        yield 'malformed: ' + n, t, None, [('sin(y)', 'sin(y)')], t.split('\n').index(b) + 1, False
    for where in range(N):
        for pre in ([], [R0], ['', '# c', R0, R0]):
            if not thorough and pre == [R0]:
                continue
            t = sections({**{k: [R0] for k in range(where)}, where: pre + ['rubbish']})
            yield 'malformed line %d of section %d' % (len(pre) + 1, where + 1), t, None, [('sin(y)', 'sin(y)')], t.split('\n').index('rubbish') + 1, False
    t = sections({6: ['rubbish']}).rstrip('\n')
    yield 'malformed last line without line end', t, None, [('sin(y)', 'sin(y)')], t.split('\n').index('rubbish') + 1, False
    for k in range(N):
        yield 'only %d sections' % k, ''.join('RULESET\n%s\n' % R0 for _ in range(k)), None, [('sin(y)', 'sin(y)')], None, k == 0 and False
    yield 'empty file', '', None, [('sin(y)', 'sin(y)')], None, False
    yield 'only comments', '# nothing\n', None, [('sin(y)', 'sin(y)')], None, False
    yield 'missing', None, None, [('sin(y)', 'sin(y)')], None, False
    full = 'sum(%s) -> prod(%s)' % (', '.join('v' + chr(97 + j) for j in range(maxv)), ', '.join('v' + chr(97 + j) for j in range(maxv)))
    yield 'as many variables as possible', sections({2: [full]}), 1, [('sum(%s)' % ', '.join('abcdfghijk'[:maxv]), 'prod(%s)' % ', '.join('abcdfghijk'[:maxv]))] if maxv == 10 else [], None, False
    yield 'as many conditions as possible', sections({2: [R0 + ' WHERE ' + ' ; '.join(['TRUE'] * maxc)]}), 1, [('sin(y)', 'cos(y)')], None, False


def text_of(t):
    if t[0] == 'c':
        return '%g' % fval(t[1])
    if t[0] == 'v':
        return t[1]
    return '%s[%s]' % (t[1], ','.join(text_of(c) for c in t[2]))


def read(S, st, p):
    t = S.P.read(st, p)

    def conv(t):
        if t[0] == 'c':
            return t
        if t[0] == 'v':
            return ('v', t[1][1])
        return ('o', S.I.sid(st, S.P.get(st, 'Operator', t[1], 'name', 'ptr'))[1], [conv(c) for c in t[2]])
    return text_of(conv(t))


def work(ctx, items):
    S = Session(ctx)
    if S.base is None:
        return
    I, P = S.I, S.P
    I.fold_libm = True
    base = S.base.copy()
    root, errp = P.local(base, 'tree', 'undef', 8), P.local(base, 'err', 'undef', 8)
    gctx = I.load(base, S.glob('g_ctx'), 8, 'ptr') if 'g_ctx' in ctx.mod.globals else S.glob('__g_ctx')
    live0 = set(I.live(base))

    def parse(st, what, text):
        return S.call(st, what, 'parse_easy', gctx, P.lit(st, text))

    for before, (name, text, count, probes, line, stray) in items:
        what = 'rule file "%s"%s' % (name, ' after another one' if before else '')
        S.files = {'rules': None if text is None else text.splitlines(True), 'first': sections({2: ['sin(x) -> tan(x)']}).splitlines(True)}
        st = base.copy()
        if before:
            r = S.cmd(st, 'load simplification first', what)
            if r is None or r[1] != 1:
                continue
            st = r[0]
            r = S.call(st, what, 'unload_simplification')
            if r is None:
                continue
            st = r[0]
        n0, e0 = len(S.text(st, 'stderr')), S.text(st, 'stderr')
        r = S.call(st, what, 'init_simplification', P.lit(st, 'rules'))
        if r is None:
            continue
        st, v = r
        if v[0] != 'c':
            ctx.undecide('%s: result %s' % (what, short(v)))
            continue
        ctx.count('files')
        got = v[1] - (1 << 64) if v[1] >> 63 else v[1]
        err = S.text(st, 'stderr')[n0:]
        W = S.where('init_simplification')
        if count is not None:
            if got != count:
                ctx.violation('count', W, '%s with %d rules: the loader returns %d (%s)' % (what, count, got, err.strip()))
                continue
            if bool(err.strip()) != stray:
                ctx.violation('message', S.where('parse_rulesets_from_file'), '%s: error output %r' % (what, err))
        else:
            want = -1 if text is None else -2
            if got != want:
                ctx.violation('refused:%d' % want, W, '%s: the loader returns %d, expected %d' % (what, got, want))
                continue
            if text is not None and not err.strip():
                ctx.violation('silent', W, '%s is refused without a message' % what)
            if line is not None:
                import re
                if str(line) not in re.findall(r'\d+', err):
                    ctx.violation('line', S.where('parse_rulesets_from_file'), '%s: the message %r does not name line %d' % (what, err, line))
        if len(S.open_files(st)):
            ctx.violation('open', W, '%s: the file is not closed' % what)
        r = S.call(st, what, 'simplification_is_initialized')
        if r and r[1][0] == 'c' and (r[1][1] & 1) != (count is not None):
            ctx.violation('state', W, '%s: rules are %s afterwards' % (what, 'in force' if r[1][1] & 1 else 'not in force'))
            continue
        for src, want in probes:
            s = st.copy()
            w2 = '%s: simplifying "%s"' % (what, src)
            r = parse(s, w2, src)
            r2 = parse(r[0], w2, want) if r else None
            if not r2 or r[1] == NULL or r2[1] == NULL:
                ctx.undecide('%s: not parsed' % w2)
                continue
            s, expect = r2
            I.store(s, root, r[1], 8)
            r = S.call(s, w2, 'simplify', root, errp)
            if r is None:
                continue
            s = r[0]
            ctx.count('probes')
            try:
                a, b = read(S, s, I.load(s, root, 8, 'ptr')), read(S, s, expect)
            except (TypeError, IndexError, ValueError):
                ctx.undecide('%s: result not read' % w2)
                continue
            if a != b:
                ctx.violation('effect', S.where('parse_rulesets_from_file'), '%s yields %s, expected %s' % (w2, a, b))
        r = S.call(st, what + ', unloading', 'unload_simplification')
        if r:
            lost = set(I.live(r[0])) - live0
            if lost:
                ctx.violation('leak', W, '%s: %d blocks are lost' % (what, len(lost)))
        if len(ctx.samples) < 4:
            ctx.sample('%s => %d %s' % (name, got, err.strip()))
    ctx.fns |= I.visited_fns


def check(ctx):
    import os, ir
    import ruleset
    ctx.rule('number of rules / refusal with line number / state and effect afterwards = independent reading of the text')
    m = macros('src/engine/transformation/matching.h', ['MAX_MAPPED_VARS', 'MATCHING_MAX_CONSTRAINTS'])
    fs = list(files(m['MATCHING_MAX_CONSTRAINTS'], m['MAX_MAPPED_VARS'], ctx.thorough))
    items = [(False, f) for f in fs] + [(True, f) for f in (fs if ctx.thorough else fs[::4])]
    parallel(ctx, work, items)
    # the shipped file
    text = open(os.path.join(ir.REPO, 'simplification.ruleset')).read()
    secs, stray = ruleset.read(text, N)
    S = Session(ctx, files={'rules': text.splitlines(True)})
    if S.base is not None:
        S.I.max_steps = 40000000
        st = S.base.copy()
        r = S.call(st, 'the shipped rule file', 'init_simplification', S.P.lit(st, 'rules'))
        if r:
            v = r[1]
            want = sum(len(s) for s in secs)
            if v[0] == 'c' and v[1] != want:
                ctx.violation('shipped', S.where('init_simplification'), 'the shipped rule file has %d rules, the loader returns %d: %s' % (want, v[1] - (1 << 64) if v[1] >> 63 else v[1], S.text(r[0], 'stderr')[-200:]))
            ctx.count('shipped_rules', v[1] if v[0] == 'c' and v[1] < 1 << 63 else 0)
    ctx.need('files', 60)
    ctx.need('probes', 60)
