"""Harness for data-structure properties: every operation from every small abstract state, compared with a reference model."""
import time
import absint
from prog import *

LONG = 30000000      # instructions of a single call; the largest one on the analysed tree needs about 2 million


class Suite:
    """collects disagreements; every call reports memory faults at their instruction"""
    def __init__(self, ctx, models=None, **kw):
        self.ctx = ctx
        self.P = Prog(ctx.mod, models, **kw)
        self.I = self.P.I
        self.I.max_steps = min(self.I.max_steps, 1500000)
        self.soft = False    # long calls are cut off and counted instead of being looked at for endlessness
        self.long = 0        # time spent on calls beyond the first limit

    def faults(self, what):
        for k, d, inst, s, stack in self.I.faults:
            self.ctx.violation('%s:%s' % (k, stack[-1] if stack else what), inst.loc if inst is not None else '?', '%s (%s) in %s, after %s' % (k, d, ' > '.join(stack), what))
        n = len(self.I.faults)
        self.I.faults.clear()
        return n

    def call(self, st, what, fn, *args):
        """deterministic call: (state, value) or None when a fault was reported / the result could not be decided"""
        end = None
        first, key = self.I.max_steps, '%s:endless' % fn
        base = st.copy() if hasattr(st, 'copy') else st
        while True:
            self.I.exits.clear()
            self.I.faults.clear()
            self.I.cut = 0
            t0 = time.time()
            try:
                ex = self.P.run(st, fn, *args)
            except PathLimit as e:
                if self.soft and 'step limit' in str(e):
                    self.I.faults.clear()
                    self.ctx.count('cut off')
                    return None
                # one path with every branch decided: give it far more than any such call needs before calling it endless
                if self.I.nforks or 'step limit' not in str(e) or (self.I.max_steps == first and (key in self.ctx.viol or self.long > 120)):
                    self.ctx.undecide('%s: %s(): %s' % (what, fn, e))
                    return None
                if self.I.max_steps == first and LONG > first:
                    self.I.max_steps = LONG
                    st = base
                    continue
                ex, end = [], str(e)
            break
        if self.I.max_steps != first:
            self.I.max_steps = first
            self.long += time.time() - t0
        self.ctx.count('operations')
        if self.faults(what):
            return None
        if not ex and self.I.exits:
            inst, stack = self.I.exits[-1].info['exit']
            self.ctx.violation('ends:%s' % stack[-1], inst.loc, '%s: the program is terminated in %s' % (what, ' > '.join(stack)))
            return None
        if self.soft and not ex and self.I.cut:
            self.ctx.count('cut off')
            return None
        if not ex and not self.I.nforks and (end or self.I.cut):
            # one path, every branch decided, and still no end
            self.ctx.violation('%s:endless' % fn, self.where(fn), '%s: %s() does not come to an end (%d instructions followed, every branch decided)' % (what, fn, self.I.steps))
            return None
        if len(ex) != 1:
            self.ctx.undecide('%s: %s(): %d paths' % (what, fn, len(ex)))
            return None
        return ex[0].state, ex[0].ret

    def where(self, fn):
        f = self.ctx.mod.fn(fn)
        return '%s:%s (%s)' % (f.file, f.line, fn)

    def same(self, fn, key, what, got, want):
        """report when an observed value differs from the reference"""
        if got == want:
            return True
        if not known(got):
            self.ctx.undecide('%s: %s yields %s' % (what, fn, short(got)))
            return False
        self.ctx.violation('%s:%s' % (fn, key), self.where(fn), '%s: %s is %s, expected %s' % (what, key, short(got), short(want)))
        return False


def short(v):
    if isinstance(v, (list, tuple)) and v and not isinstance(v[0], str):
        return '[%s]' % ', '.join(short(x) for x in v)
    try:
        return show(v) if isinstance(v, tuple) else str(v)
    except Exception:
        return str(v)[:80]


def known(v):
    """no unresolved term inside"""
    if v == UNDEF:
        return True
    if isinstance(v, list):
        return all(known(x) for x in v)
    return not (isinstance(v, tuple) and v and v[0] in ('term', 'unk', 'phi', 'load', 'ext'))


def parallel(ctx, worker, items, jobs=8):
    """worker(ctx, part) on parts of items in forked processes; the children's findings are merged in order"""
    import multiprocessing as mp
    items = list(items)
    jobs = max(1, min(jobs, len(items)))
    parts = [items[k::jobs] for k in range(jobs)]
    ctx.mod      # built once, before forking
    if jobs == 1:
        deep(worker, ctx, items)
        return
    global _job
    _job = (ctx, worker, parts)
    with mp.get_context('fork').Pool(jobs) as pool:
        for r in pool.map(_run, range(jobs), 1):
            if r[0] == 'error':
                raise r[1]
            _, counts, viol, und, samples, fns = r
            for k, v in counts.items():
                ctx.count(k, v)
            for k, (w, d) in viol.items():
                ctx.violation(k, w, d)
            for u in und:
                ctx.undecide(u)
            for s in samples:
                ctx.sample(s)
            ctx.fns |= fns


def _run(k):
    ctx, worker, parts = _job
    ctx.counts, ctx.viol, ctx.undecided, ctx.samples, ctx.fns = {}, {}, [], [], set()
    try:
        deep(worker, ctx, parts[k])
    except absint.PathLimit as e:
        ctx.undecide(str(e))
    except AnalysisBroken as e:
        if absint.late() and getattr(e, 'fault', None) is None:
            ctx.undecide(str(e))
            return ('ok', ctx.counts, ctx.viol, ctx.undecided, ctx.samples, ctx.fns)
        f = getattr(e, 'fault', None)
        if f is None and not ctx.viol:
            return ('error', AnalysisBroken(str(e)))
        if f is not None:
            ctx.violation('%s:%s' % (e.fn, f[0]), f[2].loc if f[2] is not None else e.fn, '%s() cannot complete: %s: %s (call path %s)' % (e.fn, f[0], f[1], ' > '.join(f[4])))
    except Exception as e:
        import traceback
        if absint.late():
            ctx.undecide(traceback.format_exc()[-600:])
            return ('ok', ctx.counts, ctx.viol, ctx.undecided, ctx.samples, ctx.fns)
        return ('error', RuntimeError(traceback.format_exc()[-3000:]))
    return ('ok', ctx.counts, ctx.viol, ctx.undecided, ctx.samples, ctx.fns)
