"""Database::query is explored path by path, exceptions included (evaluation, result construction and the update routines may all
throw), once for a query inside a transaction and once outside, with and without permission to change data.  Outside a transaction
every step that reads the stored data happens while the query holds the database's update lock, every step that changes it while
it holds the lock exclusively; no step that changes data is reachable without the permission; every exit has given the lock back."""
from common import *
import re
RULE = 'lock typestate with read / change effects of the callees (call graph), exceptional exits included'

class R7(LockRule):
    exc = True
    depth = 6
    def __init__(self, P):
        LockRule.__init__(self); self.P = P; self.rd = set(); self.wr = set(); self.ev = []; self.sites = {}
    def prep(self):
        P = self.P
        # functions that change stored data: those reaching a KVstore operation that modifies a value list / string table
        isw = lambda F: any(re.match(r'^KVstore::(set\w+|addValueByKey|removeKey|insert\w*|updateTupleslist\w*|update\w+|sub\w+Degree\w*)$', n.get('f') or '') for i, n in F.calls())
        isr = lambda F: any(re.match(r'^KVstore::(get\w+|exist\w*|search\w*)$', n.get('f') or '') for i, n in F.calls())
        self.wr = P.reach(isw); self.rd = P.reach(isr)
    def cls(self, n):
        u = n.get('u'); q = n.get('f') or ''
        if u in self.wr: return 'X'
        if u in self.rd: return 'S'
        return None
    def wants(self, F, n):
        return LockRule.wants(self, F, n) or F.cls == 'Database' and n.get('k') in ('call', 'ctor', 'new') and self.cls(n) is not None
    def no_inline(self, F, st=None): return F.cls != 'Database' or F.u not in self.helpers
    def on_call(self, S, st, c):
        r = self.lock_call(S, st, c)
        if r is not None: return r
        if c.F.cls != 'Database' or c.k not in ('call', 'ctor', 'new'): return None
        m = self.cls(c.n)
        if m is None or c.n.get('u') in self.helpers or c.n.get('u') in self.P.fns and self.P.fns[c.n['u']].new: return None
        w = '%s:%s' % (c.F.file, c.line())
        self.sites.setdefault((w, c.f, m), []).append((frozenset((lockname(h[0]), h[1]) for h in st.ts[0]), self.mode, c.F.q, trace(st)))
        S.thrown.append((st.copy(), '?', c.n.get('try', -1), c.line()))
        return None

def check(ctx):
    P = ctx.prog(['Database/Database.cpp', 'Query/GeneralEvaluation.cpp', 'Database/Optimizer.cpp', 'Database/Executor.cpp', 'Database/TableOperator.cpp', 'Util/Util.cpp', 'KVstore/KVstore.cpp'])
    Q = P.one('Database::query')
    # routines of Database that take the lock on behalf of the query, or were extracted from it, are followed; the update routines are effects
    R = R7(P); R.prep()
    fw = P.forward([Q.u])
    known = {'insert', 'remove', 'insert_thread', 'remove_thread', 'query', 'batch_insert', 'batch_remove'}
    R.helpers = set(u for u in fw if P.fns[u].cls == 'Database' and P.fns[u].name not in known and u != Q.u
                    and any(P.fns[v].name == 'query' or v in fw and P.fns[v].cls == 'Database' and P.fns[v].name not in known for v in P.callers.get(u, ()))
                    and not any(P.fns[v].name in known - {'query'} for v in P.callers.get(u, ())))
    ti = [i for i, p in enumerate(Q.params) if 'shared_ptr' in p['t']]; ui = [i for i, p in enumerate(Q.params) if p['n'] == 'update_flag']
    if len(ti) != 1 or len(ui) != 1: raise AnalysisBroken('Database::query: parameters not recognised')
    ti = ti[0]; ui = ui[0]
    for txn in (0, 1):
        for up in (0, 1):
            R.mode = (txn, up)
            S = Sim(P, R, cap=1500)
            def pre(S, st):
                S.fact(st, ('arg', ti, Q.params[ti]['n']), C0, txn == 0)
                st.mem[('loc', 0, Q.params[ti]['v'], Q.params[ti]['n'])] = ('arg', ti, Q.params[ti]['n'])
                st.mem[('loc', 0, Q.params[ui]['v'], Q.params[ui]['n'])] = ('c', up)
            before = len(R.findings)
            for st, rv, kind in S.run(Q, R.init_ts(), pre):
                for (t, m, o) in st.ts[0]:
                    how = 'returns' if kind == 'ret' else 'is left by an exception'
                    R.report('leak', '%s:%s' % (Q.file, Q.line), '%s %s while still holding %s' % (Q.q, how, lockname(t)), st, (Q.q, lockname(t), 'ret' if kind == 'ret' else 'exc'))
            ctx.ob('query %s a transaction, update permission %d: the lock is given back on every exit' % ('in' if txn else 'outside', up), len(R.findings) == before)
            ctx.use(S)
    # the clean-up at a checkpoint changes the data too; queries outside transactions do not wait for a checkpoint otherwise
    V = P.one('Database::VersionClean'); R.mode = (0, 1); S = Sim(P, R, cap=1500); before = len(R.findings); R.exc = False
    nv = sum(len(l) for l in R.sites.values())
    for st, rv, kind in S.run(V, R.init_ts()):
        if kind == 'ret':
            for (t, m, o) in st.ts[0]: R.report('leak', '%s:%s' % (V.file, V.line), '%s returns while still holding %s' % (V.q, lockname(t)), st, (V.q, lockname(t), 'ret'))
    ctx.ob('%s: the lock is given back on every return' % V.q, len(R.findings) == before); ctx.use(S)
    ctx.need(sum(len(l) for l in R.sites.values()) - nv, 2, 'steps of the clean-up at a checkpoint')
    report_locks(ctx, R)
    from collections import Counter
    cnt = Counter(); nr = nw = 0
    for (w, f, m), l in R.sites.items():
        for held, mode, q, tr in l:
            if not mode[0]: cnt.update(set(h[0] for h in held))
    lock = cnt.most_common(1)[0][0] if cnt else None
    for (w, f, m), l in sorted(R.sites.items()):
        bad = None
        for held, mode, q, tr in l:
            if m == 'X' and not mode[1]: bad = ('permission', '%s reaches %s, which changes data, although the query may not update' % (q, f), tr)
            if not mode[0]:
                h = [x[1] for x in held if x[0] == lock]
                if not h: bad = ('unlocked', '%s calls %s, which %s stored data, outside a transaction without holding %s' % (q, f, 'changes' if m == 'X' else 'reads', lock or 'any lock'), tr)
                elif m == 'X' and 'X' not in h: bad = ('shared', '%s calls %s, which changes stored data, holding %s only shared' % (q, f, lock), tr)
        ctx.ob('%s %s at %s' % (f, 'changes data' if m == 'X' else 'reads data', w), bad is None)
        if bad: ctx.violation('%s:%s' % (bad[0], f), w, bad[1], bad[2])
        nr += m == 'S'; nw += m == 'X'
    ctx.notes.append('lock: %s' % lock)
    ctx.need(nr, 1, 'data-reading steps of a query'); ctx.need(nw, 2, 'data-changing steps of a query')
