#!/usr/bin/env python3
"""run.py <property> : decide one property on /repo's current tree by static analysis.
exit 0 held, exit 1 with VIOLATION lines, exit 2 analysis broken (vanished anchor, zero instances, extractor failure)."""
import importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, os.path.join(V, 'checks')); sys.path.insert(0, V)
from prog import AnalysisBroken, Prog, REPO

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.viol = {}; self.obl = []; self.notes = []; self.functions = set(); self.tus = set()
        self.stats = {}; self.trusted = []
    def prog(self, tus):
        P = Prog(tus)
        self.tus |= set(tus)
        for tu, n in P.errors.items(): self.notes.append('%s: %d clang error(s), the functions concerned are partial' % (tu, n))
        return P
    def ob(self, name, ok=True):
        """one obligation: a (rule, construct) pair that was decided"""
        self.obl.append((name, bool(ok)))
    def violation(self, key, where, text, trace=()):
        if key not in self.viol: self.viol[key] = (where, text, list(trace))
    def use(self, S):
        self.functions |= set(S.P.fns[u].q for u in S.stat['functions'] if u in S.P.fns)
        for k, v in S.stat.items():
            if not isinstance(v, set): self.stats[k] = self.stats.get(k, 0) + v
    def need(self, n, minimum, what):
        if n < minimum:
            raise AnalysisBroken('%s: %d instance(s) found, at least %d expected' % (what, n, minimum))

def known():
    r = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l[6:].split(' :: ')[0].split() if '=' in x)
                r[(d['property'], d['key'])] = l.split(' :: ', 1)[1] if ' :: ' in l else ''
    return r

def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module(pid.lower())
    try:
        mod.check(ctx)
        if not ctx.obl: raise AnalysisBroken('no obligation was generated')
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % pid); sys.exit(2)
    kn = known()
    new = {k: v for k, v in ctx.viol.items() if (pid, k.replace(' ', '_')) not in kn}
    old = {k: v for k, v in ctx.viol.items() if (pid, k.replace(' ', '_')) in kn}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rep = os.path.join(V, 'evidence', pid + '.report.txt')
    with open(rep, 'w') as f:
        for title, d in (('VIOLATIONS', new), ('KNOWN FINDINGS', old)):
            f.write('== %s: %d\n' % (title, len(d)))
            for k, (w, t, tr) in sorted(d.items()):
                f.write('[%s]\n  at %s\n  %s\n' % (k, w, t))
                for x in tr: f.write('    path: %s\n' % x)
        f.write('== OBLIGATIONS: %d\n' % len(ctx.obl))
        for n, ok in ctx.obl: f.write('  %s %s\n' % ('ok  ' if ok else 'FAIL', n))
        f.write('== FUNCTIONS ANALYSED: %d\n' % len(ctx.functions))
        for n in sorted(ctx.functions): f.write('  %s\n' % n)
    nok = sum(1 for _, ok in ctx.obl if ok)
    cov = dict(obligations=len(ctx.obl), discharged=nok, evaluations=len(ctx.obl), distinct_nontrivial=len(set(n for n, _ in ctx.obl)),
               rule=getattr(mod, 'RULE', mod.__doc__ or ''), samples=[n for n, _ in ctx.obl[:12]],
               explanation=(mod.__doc__ or '').strip(), checker_cmd='python3 run.py ' + pid, trusted_base=['clang 18 front end and CFG', 'engine/sim.py', 'checks/%s.py' % pid.lower()],
               translation_units=sorted(ctx.tus), functions_analysed=len(ctx.functions), abstract_states=ctx.stats.get('states', 0),
               call_sites_evaluated=ctx.stats.get('calls', 0), events=ctx.stats.get('events', 0), joined=ctx.stats.get('joined', 0),
               known_findings=sorted(old), notes=ctx.notes)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=getattr(mod, 'ASSUME', ['calls through pointers to code outside /repo do not change project state', 'no undefined behaviour corrupts the modelled state']))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations (%d discharged) over %d functions in %d translation units, %d abstract states, %.1fs' % (pid, len(ctx.obl), nok, len(ctx.functions), len(ctx.tus), ctx.stats.get('states', 0), time.time() - t0))
    for k, (w, t, tr) in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s [%s at %s]' % (pid, t, k, w))
    for k, (w, t, tr) in sorted(new.items()):
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        print('   %s: %s [%s]' % (w, t, k))
        for x in tr: print('      %s' % x)
    sys.exit(1 if new else 0)
main()
