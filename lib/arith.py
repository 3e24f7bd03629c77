"""Shared extraction of the operator registry and of the evaluator's path summaries."""
import os, re, subprocess, tempfile
from absint import *
from ir import AnalysisBroken, REPO
import ir


def macros(header, names, repo=None):
    """values of object-like macros, through the preprocessor"""
    repo = repo or ir.REPO
    src = '#include "%s"\n' % os.path.join(repo, header) + ''.join('VF_%s %s\n' % (n, n) for n in names)
    r = subprocess.run(['clang', '-E', '-P', '-std=c99', '-DUSE_READLINE', '-DINSTALL_PATH="/etc/ccalc"', '-x', 'c', '-'], input=src, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('preprocessing %s failed: %s' % (header, r.stderr[-300:]))
    out = {}
    for n in names:
        m = re.search(r'^VF_%s (.+)$' % n, r.stdout, re.M)
        if not m or m.group(1).strip() == n:
            raise AnalysisBroken('macro %s not found' % n)
        out[n] = eval(re.sub(r'\b(\d+)[uUlL]+\b', r'\1', m.group(1)))
    return out


ERRS = ['LISTENERERR_SUCCESS', 'LISTENERERR_VARIABLE_ENCOUNTERED', 'LISTENERERR_HISTORY_NOT_SET', 'LISTENERERR_IMPOSSIBLE_DERIV', 'LISTENERERR_MALFORMED_DERIV_A', 'LISTENERERR_MALFORMED_DERIV_B',
        'LISTENERERR_UNKNOWN_OP', 'LISTENERERR_DIVISION_BY_ZERO', 'LISTENERERR_COMPLEX_SOLUTION']


def err_codes():
    return macros('src/client/core/arith_evaluation.h', ERRS[:0] + ERRS[2:]) | macros('src/engine/tree/tree_util.h', ERRS[:2])


def read_op(I, mod, st, ptr):
    """an Operator record in abstract memory -> dict"""
    out = {}
    for m, ty in (('name', 'ptr'), ('id', 'i64'), ('arity', 'i64'), ('precedence', 'i8'), ('assoc', 'i32'), ('placement', 'i32')):
        off, sz = mod.field('Operator', m)
        v = I.load(st, I.ptradd(st, ptr, ci(off, 64)), sz, ty)
        if m == 'name':
            out[m] = I.strconst(st, v)
        elif v[0] == 'c':
            out[m] = v[1]
        else:
            out[m] = None
    return out


_regs = {}


def registry(mod, fname='get_arith_ctx'):
    """operators in registration order, extracted by analysing the registration function; (ops, path states)"""
    key = (id(mod), fname)
    if key in _regs:
        return _regs[key]

    def add_ops(I, st, fr, inst, args):
        cnt = args[1]
        ops = []
        for a in args[2:]:
            ops.append(read_op(I, mod, st, a))
        st.info['ops'] = st.info.get('ops', ()) + tuple(tuple(sorted(o.items())) for o in ops)
        st.info['counts'] = st.info.get('counts', ()) + ((cnt[1] if cnt[0] == 'c' else None, len(ops), inst.loc),)
        return [(st, TRUE)]

    def add_op(I, st, fr, inst, args):
        st.info['ops'] = st.info.get('ops', ()) + (tuple(sorted(read_op(I, mod, st, args[1]).items())),)
        n = len(st.info['ops']) - 1
        return [(st, ('p', ('op', n), 0))]

    def lookup(I, st, fr, inst, args):
        nm, pl = I.strconst(st, args[1]), args[2]
        for k, o in enumerate(st.info.get('ops', ())):
            o = dict(o)
            if o['name'] == nm and pl[0] == 'c' and o['placement'] == pl[1]:
                return [(st, ('p', ('op', k), 0))]
        return [(st, NULL)]

    def glue(I, st, fr, inst, args):
        st.info['glue'] = args[1]
        return [(st, TRUE)]

    I = Interp(mod, models={'ctx_add_ops': add_ops, 'ctx_add_op': add_op, 'ctx_lookup_op': lookup, 'ctx_set_glue_op': glue, 'ctx_create': lambda I, st, fr, inst, args: [(st, UNDEF)]},
               const_loop_bound=2000)
    f = mod.fn(fname)
    args = []
    st = State()
    for k, a in enumerate(f.args):
        args.append(('p', ('alloca', -1, k, 'ret'), 0))
    ex = [e for e in I.run(fname, args, st) if e.kind == 'return']
    if not ex:
        raise AnalysisBroken('%s(): no returning path' % fname)
    seqs = {e.state.info.get('ops', ()) for e in ex}
    if len(seqs) != 1 or not list(seqs)[0]:
        raise AnalysisBroken('%s(): registration sequence not determined' % fname)
    ops = [dict(o) for o in list(seqs)[0]]
    for o in ops:
        if o['name'] is None or o['placement'] is None or o['arity'] is None:
            raise AnalysisBroken('%s(): operator record not determined' % fname)
    _regs[key] = (ops, ex[0].state)
    return _regs[key]


PLACE = {0: 'prefix', 1: 'infix', 2: 'postfix', 3: 'function'}


def placements(mod):
    return {mod.enumconst['OP_PLACE_PREFIX']: 'prefix', mod.enumconst['OP_PLACE_INFIX']: 'infix', mod.enumconst['OP_PLACE_POSTFIX']: 'postfix', mod.enumconst['OP_PLACE_FUNCTION']: 'function'}


ARGS = ('glob', '@args')
OUT = ('glob', '@out')


def arg(i):
    return ('ld', ARGS, 8 * i, 8, 0)


def hist_model(I, st, fr, inst, args):
    """contract of history_get: false, or true with the requested entry stored"""
    s2 = st.copy()
    st.event('hist', args[0], True)
    s2.event('hist', args[0], False)
    I.store(st, args[1], ('call', 'HIST', args[0]), 8)
    return [(st, TRUE), (s2, FALSE)]


def eval_paths(mod, opid, nargs, facts=(), loop_bound=3, max_states=60000):
    """path summaries of the operator evaluator specialised to one operator: [(state, code, out term)]"""
    st = State()
    OP = ('glob', '@op')
    off, sz = mod.field('Operator', 'id')
    st.cells(OP, True)[off] = (sz, ci(opid, 64))
    for f in facts:
        if not st.facts.add(*f):
            return [], None
    I = Interp(mod, models={'history_get': hist_model}, loop_bound=loop_bound, max_states=max_states)
    ex = I.run('arith_op_evaluate', [('p', OP, 0), ci(nargs, 64), ('p', ARGS, 0), ('p', OUT, 0)], st)
    out = []
    for e in ex:
        if e.kind != 'return':
            out.append((e.state, None, None))
            continue
        c = e.ret
        o = I.load(e.state, ('p', OUT, 0), 8, 'f64')
        out.append((e.state, sval(c) if c is not None and c[0] == 'c' else None, o))
    return out, I
