#!/usr/bin/env python3
"""check.py <property> quick|thorough -- decide one property of /repo's current tree by static analysis."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(20000)
from ir import AnalysisBroken, build_ir, deep
import absint


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.viol = {}
        self.rules = []
        self.assumptions = []
        self._mods = {}
        self.fns = set()

    def module(self, **kw):
        k = json.dumps(kw, sort_keys=True)
        if k not in self._mods:
            self._mods[k] = build_ir(**kw)
        return self._mods[k]

    @property
    def mod(self):
        return self.module()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        """analysis-broken when fewer instances than confirmed by hand were seen"""
        if self.counts.get(name, 0) < minimum and not absint.late():
            raise AnalysisBroken('only %d %s analysed, at least %d expected' % (self.counts.get(name, 0), name, minimum))

    def sample(self, s, cap=25):
        if len(self.samples) < cap:
            self.samples.append(s if len(s) < 400 else s[:400] + '...')

    def undecide(self, s):
        if s not in self.undecided:
            self.undecided.append(s)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def violation(self, key, where, detail):
        """key identifies the violating construct (stable across runs); where = file:line (function)"""
        self.viol.setdefault(key, (where, detail))


def known_findings(pid):
    """entries 'finding: property=<id> key=<key> | <what fails>'; 'fixed:' entries suppress nothing"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding: property=%s ' % pid):
                head, _, what = ln[len('finding: property=%s ' % pid):].partition('|')
                out[head.strip()[4:]] = what.strip()
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    t0 = time.time()
    ctx = Ctx(pid, tier)
    absint.DEADLINE[0] = t0 + float(os.environ.get('VERIF_LIMIT', 780 if ctx.thorough else 480))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    m = importlib.import_module(pid.lower())
    rc = 0
    try:
        deep(m.check, ctx)
    except AnalysisBroken as e:
        f = getattr(e, 'fault', None)
        if f is not None:
            ctx.violation('%s:%s' % (e.fn, f[0]), f[2].loc if f[2] is not None else e.fn, '%s() cannot complete: %s: %s (call path %s)' % (e.fn, f[0], f[1], ' > '.join(f[4])))
        if not ctx.viol and absint.late():
            ctx.undecide('out of time: %s' % e)
        elif not ctx.viol:
            print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
            rc = 2
        else:
            ctx.undecide('analysis stopped: %s' % e)
    except Exception:
        if not ctx.viol and absint.late():
            ctx.undecide('out of time: %s' % traceback.format_exc()[-600:])
        elif not ctx.viol:
            traceback.print_exc()
            rc = 3
        else:
            ctx.undecide('analysis stopped: %s' % traceback.format_exc()[-2600:])
    if absint.late():
        ctx.undecide('the time limit was reached: the remaining cases were not analysed')
    known = known_findings(pid)
    new = {k: v for k, v in ctx.viol.items() if k not in known}
    for k in ctx.viol:
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    cov = {'explanation': m.EXPLAIN.strip(), 'rules': ctx.rules, 'undecided': ctx.undecided[:40], 'undecided_count': len(ctx.undecided), 'samples': ctx.samples,
           'functions_analysed': sorted(ctx.fns)[:150]}
    cov.update(ctx.counts)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': getattr(m, 'LEVEL', 'other'),
          'coverage': cov, 'assumptions': ctx.assumptions + getattr(m, 'ASSUMES', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(HERE, 'build', 'replay_%s.txt' % pid)
        with open(rp, 'w') as f:
            for k, (where, detail) in new.items():
                f.write('property %s\nkey %s\nat %s\n%s\n\n' % (pid, k, where, detail))
        for k, (where, detail) in list(new.items())[:30]:
            print('%s: [%s] %s' % (where, k, detail))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if rc == 0:
        print('OK property=%s %s' % (pid, ' '.join('%s=%s' % kv for kv in ctx.counts.items())))
    return rc


if __name__ == '__main__':
    sys.exit(main())
