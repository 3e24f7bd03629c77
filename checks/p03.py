"""One catalogue: documentation, operator registry, evaluator and help agree."""
import re
from prog import *
import arith
from catalog_spec import OPS

EXPLAIN = """The registration sequence is extracted by abstract interpretation of the context constructor and compared with the documented operator catalogue (name, placement, number of
operands, precedence, associativity; every documented operator once, nothing undocumented). Each registered id is dispatched by the evaluator (no path of a documented operator ends in
'unknown operator'). The help command is abstractly interpreted on the registered context with the table module replaced by a recorder; the recorded rows and the printed short
lists are compared with the catalogue, constants with what the evaluator computes for them."""


def tables(P, rows):
    """models of the table module: rows of cell texts"""
    I = P.I

    def cell(st, txt):
        st.event('cell', txt)

    def add(I_, st, fr, inst, args):
        cell(st, I.sid(st, args[1]) if args[1] != NULL else ('lit', ''))
        return [(st, UNDEF)]

    def addfmt(I_, st, fr, inst, args):
        p = I.pieces(st, fr, inst, args[1], args[2:])
        f = I.flat(p)
        cell(st, ('lit', f) if f is not None else ('fmt', p))
        return [(st, UNDEF)]

    def vfmt(I_, st, fr, inst, args):
        p = I.pieces(st, fr, inst, args[1], I.va_args(st, args[2]))
        f = I.flat(p)
        cell(st, ('lit', f) if f is not None else ('fmt', p))
        return [(st, UNDEF)]

    def cells(I_, st, fr, inst, args):
        for a in args[2:]:
            cell(st, I.sid(st, a))
        return [(st, UNDEF)]

    def arr(I_, st, fr, inst, args):
        w, h = args[1], args[2]
        for y in range(h[1]):
            for x in range(w[1]):
                p = I.ptradd(st, args[3], ci(8 * (y * w[1] + x), 64))
                I.access(st, fr, inst, p, ci(8, 64), False)
                v = I.load(st, p, 8, 'ptr')
                cell(st, I.sid(st, v) if v != NULL else ('null',))
            if y + 1 < h[1]:
                st.event('row')
        return [(st, UNDEF)]

    def ev(name):
        def f(I_, st, fr, inst, args):
            st.event(name)
            return [(st, UNDEF)]
        return f

    def new(I_, st, fr, inst, args):
        st.event('table')
        return [(st, ('p', ('tab', 0), 0))]
    nop = lambda I_, st, fr, inst, args: [(st, UNDEF)]
    m = {'get_empty_table': new, 'add_cell': add, 'add_cell_gc': add, 'add_cell_fmt': addfmt, 'add_cell_vfmt': vfmt, 'add_cells': cells, 'add_cells_from_array': arr,
         'add_empty_cell': lambda I_, st, fr, inst, args: (cell(st, ('lit', '')), [(st, UNDEF)])[1], 'next_row': ev('row'), 'print_table': ev('print'), 'fprint_table': ev('print'), 'free_table': nop}
    for n in ('set_default_alignments', 'override_vertical_alignment', 'override_horizontal_alignment', 'override_vertical_alignment_of_row', 'override_horizontal_alignment_of_row',
              'set_hline', 'set_vline', 'make_boxed', 'set_all_vlines', 'override_left_border', 'override_above_border', 'set_span', 'set_position'):
        m[n] = nop
    return m


HEADS = {'Infix operators': 'infix', 'Prefix operators': 'prefix', 'Postfix operators': 'postfix', 'Functions': 'function', 'Constants': 'constant'}


def form(key, o):
    n, pl = key
    ar = o[0]
    if pl == 'infix':
        return 'x %s y' % n if n[0].isalpha() else 'x%sy' % n
    if pl == 'prefix':
        return n + 'x'
    if pl == 'postfix':
        return 'x' + n
    return n if ar == 0 else n + '(*)' if ar is None else '%s(%d)' % (n, ar)


def check(ctx):
    mod = ctx.mod
    ops, st = arith.registry(mod)
    pl = arith.placements(mod)
    left = mod.enumconst['OP_ASSOC_LEFT']
    f = mod.fn('get_arith_ctx')
    where = '%s:%s (get_arith_ctx)' % (f.file, f.line)
    seen = {}
    for i, o in enumerate(ops):
        key = (o['name'], pl[o['placement']])
        ctx.count('registered_operators')
        if key in seen:
            ctx.violation('dup:%s %s' % key, where, 'operator %s (%s) is registered twice' % key)
        seen[key] = i
        if key not in OPS:
            ctx.violation('undocumented:%s %s' % key, where, 'operator %s (%s) is registered but not documented' % key)
            continue
        ar, prec, assoc, desc, sec = OPS[key]
        got = None if o['arity'] == (1 << 64) - 1 else o['arity']
        if got != ar:
            ctx.violation('arity:%s %s' % key, where, 'operator %s (%s) takes %s operand(s), documented: %s' % (key + (got, ar)))
        if prec is not None and o['precedence'] != prec:
            ctx.violation('prec:%s %s' % key, where, 'operator %s (%s) has precedence %s, documented: %s' % (key + (o['precedence'], prec)))
        if assoc is not None and (o['assoc'] == left) != (assoc == 'left'):
            ctx.violation('assoc:%s %s' % key, where, 'operator %s (%s) associates to the wrong side, documented: %s' % (key + (assoc,)))
        if key[1] == 'function' and o['precedence'] != 255:
            ctx.violation('prec:%s %s' % key, where, 'function %s does not bind tightest (precedence %s)' % (key[0], o['precedence']))
    for key in OPS:
        if key not in seen:
            ctx.violation('missing:%s %s' % key, where, 'documented operator %s (%s) is not registered' % key)
    for c, n, loc in st.info.get('counts', ()):
        if c != n:
            ctx.violation('count', loc, '%s operators announced, %s passed' % (c, n))
    if len({(o['precedence'], o['assoc']) for o in ops if pl[o['placement']] == 'infix'}) != len({o['precedence'] for o in ops if pl[o['placement']] == 'infix'}):
        ctx.violation('assoc-consistency', where, 'two infix operators of equal precedence associate differently')
    g = st.info.get('glue')
    if g is None or g[0] != 'p' or g[1] != ('op', seen.get(('*', 'infix'))):
        ctx.violation('glue', where, 'juxtaposition is not multiplication')
    # evaluator dispatches every operator
    codes = arith.err_codes()
    for key, i in seen.items():
        n = ops[i]['arity'] if ops[i]['arity'] < 10 else 1
        try:
            paths, I = arith.eval_paths(mod, i, n, [('f', arith.arg(k), cf(2.0), E) for k in range(n)])
        except PathLimit:
            continue
        ctx.count('dispatched_operators')
        for s, code, out in paths:
            if code == codes['LISTENERERR_UNKNOWN_OP']:
                ctx.violation('dispatch:%s %s' % key, mod.fn('arith_op_evaluate').file + ' (arith_op_evaluate)', 'operator %s (%s) has no evaluation rule' % key)
    # help
    P = Prog(mod)
    P.I.models.update(tables(P, None))
    P.I.models['history_get'] = lambda I_, st, fr, inst, args: [(st, FALSE)]
    s0 = P.state()
    ex = P.run(s0, 'init_arith_ctx')
    if len(ex) != 1:
        raise AnalysisBroken('init_arith_ctx: %d paths' % len(ex))
    s0 = ex[0].state
    hf = mod.fn('cmd_help_exec')
    hw = '%s:%s (cmd_help_exec)' % (hf.file, hf.line)

    def helptext(cmd):
        st = s0.copy()
        st.ev = None
        st, code = P.call(st, 'cmd_help_check', P.lit(st, cmd))
        if code[0] != 'c' or code[1] == 0:
            ctx.violation('help:' + cmd, hw, '"%s" is not recognised' % cmd)
            return []
        ex = P.run(st, 'cmd_help_exec', P.lit(st, cmd), code)
        for k, d, inst, s_, stack in P.I.faults:
            ctx.violation('help:%s:%s' % (cmd, k), inst.loc, '%s while executing "%s": %s' % (k, cmd, d))
        if len(ex) != 1:
            if not P.I.faults:
                ctx.undecide('"%s": %d paths' % (cmd, len(ex)))
            P.I.faults.clear()
            return []
        return ex[0].state.events()
    # verbose list
    head, row, rows = None, [], {}
    for e in helptext('help operators'):
        if e[0] == 'out' and e[2] and e[2][0][0] == 't':
            t = e[2][0][1].strip().rstrip(':')
            if t in HEADS:
                head = HEADS[t]
        elif e[0] == 'table':
            row, first = [], True
        elif e[0] == 'cell':
            row.append(e[1])
        elif e[0] == 'row':
            if row:
                rows.setdefault(head, []).append(row)
            row = []
    if rows:
        listed = {}
        for h, rs in rows.items():
            hdr = [c[1].strip() if c[0] == 'lit' else '' for c in rs[0]]
            for r in rs[1:]:
                d = dict(zip(hdr, r))
                name = d.get('Name', ('lit', ''))
                key = (name[1].strip() if name[0] == 'lit' else None, 'function' if h == 'constant' else h)
                ctx.count('help_rows')
                if len(r) != len(hdr):
                    ctx.violation('help:columns', hw, 'row of %s has %d cells for %d columns' % (key[0], len(r), len(hdr)))
                if key not in OPS:
                    ctx.violation('help:row:%s' % (key[0],), hw, 'help lists %s as %s operator, which does not exist' % (key[0], h))
                    continue
                ar, prec, assoc, desc, sec = OPS[key]
                listed[key] = listed.get(key, 0) + 1
                if (h == 'constant') != (ar == 0 and key[1] == 'function'):
                    ctx.violation('help:section:%s' % key[0], hw, 'help lists %s among the %ss' % (key[0], h))
                exp = {'Precedence': str(prec), 'Assoc.': {'left': 'Left', 'right': 'Right'}.get(assoc), 'Arity': '*' if ar is None else str(ar), 'Description': desc}
                for col, want in exp.items():
                    if col in d:
                        c = d[col]
                        got = c[1].strip() if c[0] == 'lit' else None
                        got = got.encode('latin1', 'ignore').decode('utf8', 'replace') if got and any(ord(x) > 127 for x in got) else got
                        if got is not None and got != want:
                            ctx.violation('help:%s:%s' % (col, key[0]), hw, 'help shows %s of %s (%s) as "%s" instead of "%s"' % (col.lower(), key[0], key[1], got, want))
                    elif col == 'Description' or (col == 'Arity' and h == 'function') or (col == 'Precedence' and h in ('infix', 'prefix', 'postfix')) or (col == 'Assoc.' and h == 'infix'):
                        ctx.violation('help:%s' % col, hw, 'the list of %s operators lacks the column %s' % (h, col))
                if 'Value' in d:
                    i = seen[key]
                    paths, I = arith.eval_paths(mod, i, 0)
                    v = paths[0][2] if len(paths) == 1 and paths[0][1] == 0 else None
                    c = d['Value']
                    shown = [p[2] for p in c[1] if p[0] == 'n'] if c[0] == 'fmt' else []
                    if v is not None and shown != [v]:
                        ctx.violation('help:Value:%s' % key[0], hw, 'help shows the value of %s as %s instead of %s' % (key[0], [show(x) for x in shown] or c[1], show(v)))
        for key in OPS:
            if listed.get(key, 0) != 1:
                ctx.violation('help:once:%s %s' % key, hw, 'help lists operator %s (%s) %d times' % (key + (listed.get(key, 0),)))
    # short list
    sec, texts = None, {}
    for e in helptext('help'):
        if e[0] == 'out' and len(e[2]) == 1 and e[2][0][0] == 't':
            t = e[2][0][1]
            m = re.fullmatch(r'\n*(.*):\n', t)
            if m:
                sec = m.group(1)
            elif sec:
                texts.setdefault(sec, []).append(t)
        elif e[0] == 'cell' and e[1] == ('null',):
            ctx.violation('help:commands', hw, 'the list of commands contains missing text')
    if texts:
        want = {}
        for key, o in OPS.items():
            want.setdefault(o[4], []).append(form(key, o))
        for s, w in want.items():
            got = [x for x in re.sub(r'\x1b\[[0-9;]*m', '\0', ''.join(texts.get(s, []))).replace('\n', '').split('\0')]
            got = [x.strip() for x in got if x.strip()]
            ctx.count('short_entries', len(got))
            if sorted(got) != sorted(w):
                miss = [x for x in w if x not in got]
                extra = [x for x in got if x not in w]
                ctx.violation('help:short:%s' % s, hw, 'short help, %s: missing %s, unexpected %s' % (s, miss, extra))
    # user-defined functions and constants
    st = s0.copy()
    c = ctx.mod.globals.get('__g_ctx') and ('p', ('glob', '__g_ctx'), 0)
    def listing(st, rows):
        n0 = len(P.I.faults)
        s1 = st.copy()
        s1.ev = None
        s1, code = P.call(s1, 'cmd_help_check', P.lit(s1, 'help'))
        ex = P.run(s1, 'cmd_help_exec', P.lit(s1, 'help'), code)
        for k, d, inst, s_, stack in P.I.faults[n0:]:
            ctx.violation('help:%s' % k, inst.loc, '%s while listing user-defined functions: %s' % (k, d))
        if len(ex) == 1:
            cur, found, seen2 = [], [], False
            for e in ex[0].state.events():
                if e[0] == 'out' and 'ser-defined' in str(e[2]):
                    seen2 = True
                elif e[0] == 'table':
                    cur = []
                elif e[0] == 'cell':
                    cur.append(re.sub(r'\x1b\[[0-9;]*m', '', e[1][1]).replace(' ', '') if e[1][0] == 'lit' else str(e[1]))
                elif e[0] == 'row' and seen2:
                    found.append(tuple(x for x in cur if x != '='))
                    cur = []
            ctx.count('user_defined_rows', len(found))
            if not seen2 or sorted(found) != sorted(rows):
                ctx.violation('help:user', hw, 'help lists user-defined functions as %s instead of %s' % (found, rows))
        elif len(ex) != 1:
            ctx.undecide('help with user-defined functions: %d paths' % len(ex))
    if c:
        rows = []
        sz = mod.sizeof('Pattern'), mod.sizeof('RewriteRule')
        plus = P.call(st, 'ctx_lookup_op', c, P.lit(st, '+'), ci(mod.enumconst['OP_PLACE_INFIX'], 32))[1]
        ud = [('foo', ('u', 'v'), ('o', plus, [('v', 'v'), ('v', 'u')]), 'foo(u,v)', 'v+u'), ('bar', (), ('o', plus, [('v', 'u'), ('v', 'u')]), 'bar', 'u+u'), ('baz', ('u',), ('v', 'u'), 'baz(u)', 'u')]
        def names(t):
            return ('v', P.lit(st, t[1])) if t[0] == 'v' else ('o', t[1], [names(x) for x in t[2]])
        for n, vs, rhs, lt, rt in ud:
            if n == 'bar':
                rhs = ('o', P.call(st, 'ctx_lookup_op', c, P.lit(st, 'pi'), ci(mod.enumconst['OP_PLACE_FUNCTION'], 32))[1], [])
                rt = 'pi'
            o = P.op(st, P.lit(st, n), 'OP_PLACE_FUNCTION', 0, len(vs), 255)
            st, o = P.call(st, 'ctx_add_op', c, o)
            st, left = P.tree(st, ('o', o, [('v', P.lit(st, v)) for v in vs]))
            st, right = P.tree(st, names(rhs))
            pat, rule = P.local(st, 'pattern', size=sz[0]), P.local(st, 'rule', size=sz[1])
            st, _ = P.call(st, 'get_pattern', left, ci(0, 64), NULL, pat)
            st, ok = P.call(st, 'get_rule', pat, right, rule)
            st, _ = P.call(st, 'add_composite_function', rule)
            rows.append((lt, rt))
            listing(st, list(rows))
    ctx.fns |= P.I.visited_fns
    ctx.need('registered_operators', 30)
    ctx.need('help_rows', 30)
