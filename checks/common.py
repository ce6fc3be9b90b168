from sim import *
from locks import *
from prog import AnalysisBroken

def roots(P, cls, base=None, pred=None):
    """entry points of a class: public member functions that nothing in the analysed units calls, plus the methods that
    made up its interface on the original tree (so an extracted helper is judged inside its callers, not on its own)"""
    r = []
    for F in P.cls_fns(cls):
        if not F.blocks or F.new and P.home(F): continue
        called = bool(P.callers.get(F.u, set()) - {F.u})
        if (not called) or (base is not None and F.name in base):
            if pred is None or pred(F): r.append(F)
    return sorted(r, key=lambda f: (f.file, f.line))

def where(F, n):
    return '%s:%s' % (F.file, n.get('l', 0) if isinstance(n, dict) else n)

def report_locks(ctx, R, kinds=('leak', 'reacquire', 'badunlock')):
    for (kind, key), (w, text, tr) in R.findings.items():
        if kind not in kinds: continue
        k = kind + ':' + ':'.join(str(x) for x in (key if isinstance(key, tuple) else (key,)))
        ctx.violation(k, w, text, tr)

def run_lock_entries(ctx, P, R, S, entries, what):
    n = 0
    for F in entries:
        if F.u not in S.interesting: continue
        before = len(R.findings)
        R.check_entry(S, F)
        ctx.ob('%s: every path of %s (%d parameters) releases what it acquires' % (what, F.q, len(F.params)), len(R.findings) == before)
        n += 1
    ctx.use(S)
    return n

def finish_guards(ctx, R):
    for k, s in sorted(R.sites.items()):
        ctx.ob('%s of %s in %s (%d parameters), %d site(s)' % (k[3], k[2], k[0], k[1], len(s)), k not in R.bad)
    for k, (w, t, tr, e) in R.bad.items():
        ctx.violation('guard:%s:%s:%s' % (k[0], k[2], k[3]), w, t + ' [entry %s]' % e, tr)
