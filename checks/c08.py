"""Life of a transaction.  Every path of the operations of Txn_manager is explored with the set of states the transaction may be in:
a test of its state narrows the set, and only holds while a lock of the transaction is held from the test to the effect.  A path may
end the transaction only from RUNNING (or when its own query was refused), must do it completely (storage committed or rolled back,
state recorded, keys recorded for the next checkpoint, checkpoint lock given back exactly once and last) and must do nothing otherwise."""
from common import *
RULE = 'typestate of the transaction (possible states, narrowed under its lock) over every path'
ALL = (0, 1, 2, 3)
STATE = {0: 'WAITING', 1: 'RUNNING', 2: 'COMMITTED', 3: 'ABORTED'}
WATCH = ('Transaction::state', 'Transaction::CommitID', 'Txn_manager::db', 'Txn_manager::closed')
E1 = ('Begin', 'Commit', 'Rollback', 'Query')

def invalid(t): return t[0] == 'c' and t[1] in (18446744073709551615, -1)

class TX(LockRule):
    depth = 6; ret_matters = True; all_branches = True; lv_over = True; exc = False; report_reacquire = False; report_badunlock = False
    keep_fields = ('Transaction::state', 'Transaction::CommitID')
    def __init__(self, entry, states):
        super().__init__(); self.entry = entry; self.bad = {}; self.sites = set(); self.common = None; self.states = states; self.tested = self.pended = False
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None):
        if F.cls == 'Txn_manager': return F.name == 'Checkpoint' and self.entry != 'Checkpoint' or self.entry not in E1 and F.name in E1
        return F.cls in ('Database', 'KVstore', 'ResultSet', 'Util') or F.q.startswith(('std::', '__gnu')) or F.name in ('make_shared',)
    def rep(self, kind, c, text, st):
        if ('dead',) in st.ts[1]: return
        self.bad.setdefault(kind, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def wants(self, F, n):
        if lock_prim(n) is not None: return True
        if n.get('k') == 'asg': return (F.nodes[n['args'][0]].get('q') if n.get('args') else n.get('q')) in WATCH
        if n.get('k') != 'call' and n.get('k') != 'ctor': return False
        f = n.get('f') or ''; nm = f.split('::')[-1]
        if n.get('k') == 'ctor': return False
        return (nm in ('TransactionCommit', 'TransactionRollback', 'query', 'VersionClean') and 'Database' in f or f.startswith('Txn_manager::')
                or nm in ('insert', 'emplace', 'operator[]', 'erase', 'clear', 'swap', 'insert_or_assign', 'try_emplace', 'merge', 'push_back', 'emplace_back', 'load', 'fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator unsigned long', 'operator unsigned long long', 'store', 'exchange', 'make_shared', 'reset') or 'atomic' in f)
    # ---------------------------------------------------------------- state of the transaction
    def S_(self, ts): return next((x[1] for x in ts[1] if x[0] == 'S'), ALL)
    def setS(self, ts, s): return (ts[0], frozenset(x for x in ts[1] if x[0] != 'S') | ({('S', tuple(s))} if tuple(s) != ALL else frozenset()))
    def add(self, ts, *e): return (ts[0], ts[1] | {e})
    def cnt(self, ts, *e):
        n = next((x[-1] for x in ts[1] if x[:-1] == ('n',) + e), 0)
        return (ts[0], frozenset(x for x in ts[1] if x[:-1] != ('n',) + e) | {('n',) + e + (min(n + 1, 2),)})
    def n(self, ts, *e): return next((x[-1] for x in ts[1] if x[:-1] == ('n',) + e), 0)
    def xl(self, ts): return frozenset(lockname(h[0]) for h in ts[0] if h[1] == 'X')
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2] == 'Transaction::state':
            s = self.S_(st.ts)
            return ('c', s[0]) if len(s) == 1 else ('call', 'txstate', ('c', sum(1 << i for i in s)), ('s', ','.join(sorted(self.xl(st.ts)))), ('c', self.n(st.ts, 'ep')))
        if l[0] == 'f' and l[2] == 'Txn_manager::closed': return ('call', 'closed')
        if l[0] == 'f' and l[2] == 'Txn_manager::db': return ('call', 'db')       # only changes under the exclusive checkpoint lock (judged below)
        return None
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'bin' and cond[1] in ('==', '!=') and cond[2] == ('call', 'newid') and invalid(cond[3]) and tr == (cond[1] == '=='): return self.add(st.ts, 'inv')
        if cond == ('call', 'closed'):
            held = any('Txn_manager::table_lock' in fields(h[0]) for h in st.ts[0])
            return self.add(st.ts, 'open') if not tr and held else st.ts
        if cond[0] == 'bin' and cond[1] in ('==', '!='):
            a, b = cond[2], cond[3]
            if b[0] == 'call' and b[1] == 'txstate': a, b = b, a
            if a[0] == 'call' and a[1] == 'txstate' and b[0] == 'c':
                eq = tr == (cond[1] == '==')
                mask = a[2][1]
                s = tuple(i for i in self.S_(st.ts) if (mask >> i) & 1 and ((i == b[1]) == eq))
                if not s: return self.add(st.ts, 'dead')
                ts = st.ts
                if self.entry == 'abort_all_running':
                    self.tested = True
                    if s == (1,): ts = self.add(self.pend(S, st, ts, None), 'pend'); self.pended = True
                if a[4][1] != self.n(st.ts, 'ep') or not set(a[3][1].split(',')) & self.xl(st.ts) - {'Txn_manager::checkpoint_lock', 'Txn_manager::table_lock', 'Txn_manager::log_lock', 'Txn_manager::DirtyKeys_lock', ''}: return ts   # what was seen need not hold any more
                return self.setS(ts, s)
        return None
    def pend(self, S, st, ts, c):
        if ('pend',) in ts[1]: self.rep('skipped', c, 'a running transaction is passed over', st)
        return ts
    # ---------------------------------------------------------------- effects
    def effect(self, c, st, what, need):
        s = self.S_(st.ts)
        if not set(s) <= set(need):
            self.rep('state:' + what, c, '%s although the transaction was not found %s under its lock (possible: %s)' % (what, '/'.join(STATE[i] for i in need), ', '.join(STATE[i] for i in s)), st); return
        lk = self.xl(st.ts)
        if self.entry in E1 and self.entry != 'Begin': self.common = lk if self.common is None else self.common & lk
    def on_store(self, S, st, l, v, n):
        if l[0] != 'f': return None
        ts = st.ts
        if l[2] == 'Transaction::state':
            if v[0] != 'c': self.bad.setdefault('state?', ('', 'the state of the transaction is set to an unknown value %s' % (v,), trace(st))); return None
            x = v[1]
            if self.entry == 'Begin': return self.setS(self.cnt(ts, 'state', x), (x,))
            if x in (2, 3):
                s = self.S_(ts)
                if not set(s) <= ({1} if x == 2 else {1, 3}): self.bad.setdefault('state=%d' % x, ('%s' % (n.get('l') if n else ''), 'the state becomes %s although the transaction was not found RUNNING under its lock' % STATE[x], trace(st)))
            elif x in (0, 1): self.bad.setdefault('revive', ('%s' % (n.get('l') if n else ''), 'the state of a transaction goes back to %s' % STATE[x], trace(st)))
            if self.n(ts, 'unlock'): self.bad.setdefault('late', ('%s' % (n.get('l') if n else ''), 'the state is recorded after the checkpoint lock was given back', trace(st)))
            return self.setS(self.cnt(ts, 'state', x), (x,))
        if l[2] == 'Transaction::CommitID': return self.add((ts[0], frozenset(x for x in ts[1] if x[0] != 'cid')), 'cid', v)
        if l[2] == 'Txn_manager::db':
            if v != ('c', 0): return ts
            if ('ckX',) not in ts[1]: self.bad.setdefault('detach', ('', 'the database is let go while a transaction may be working on it', trace(st)))
            if not self.n(ts, 'abortall') or not self.n(ts, 'cp') or ('shut',) not in ts[1]: self.bad.setdefault('detach2', ('', 'the database is let go before new transactions are refused, the running ones are ended and a checkpoint is done', trace(st)))
            return self.cnt(ts, 'detach')
        if l[2] == 'Txn_manager::closed': return self.add(ts, 'shut') if v == ('c', 1) and not self.n(ts, 'abortall') else ts
        return None
    def on_call(self, S, st, c):
        n = c.n
        if not self.wants(c.F, n): return None
        ts = st.ts
        f = c.f or ''; nm = f.split('::')[-1]
        p = lock_prim(n)
        if p is not None:
            if p[2] != 'g' and 'Txn_manager::checkpoint_lock' in fields(c.args[0] if p[2] == 'c' else c.obj):
                self.sites.add((c.F.file, c.line()))
                op, mode = p[0], p[1]
                if op == 'lock':
                    if mode == 'X': return [(C0, self.add(ts, 'ckX'))]
                    return [(C0, self.cnt(ts, 'lockS'))]
                if op == 'unlock':
                    if ('ckX',) in ts[1]: return [(C0, (ts[0], ts[1] - {('ckX',)}))]
                    if not self.n(ts, 'lockS'): self.ending(c, st)
                    return [(C0, self.cnt(ts, 'unlock'))]
                return None
            outs = self.lock_call(S, st, c)
            if outs is None: return None
            r = []
            for o in outs:
                t2 = o[1]
                rel = self.xl(ts) - self.xl(t2)
                if rel and not (rel <= {'Txn_manager::table_lock', 'Txn_manager::log_lock', 'Txn_manager::DirtyKeys_lock'}) and self.entry != 'Begin': t2 = self.cnt(self.setS(t2, ALL), 'ep')
                if 'Txn_manager::table_lock' in rel: t2 = (t2[0], t2[1] - {('open',)})
                r.append((o[0], t2) + tuple(o[2:]))
            return r
        if f.endswith('Database::TransactionCommit'):
            self.sites.add((c.F.file, c.line()))
            self.effect(c, st, 'the changes are committed', (1,))
            cid = next((x[1] for x in ts[1] if x[0] == 'cid'), None)
            if cid not in (('call', 'cnt'), ('call', 'newid')): self.rep('cid', c, 'the changes are committed with a stamp that is not the current value of the transaction counter', st)
            return [(None, self.cnt(ts, 'commit'))]
        if f.endswith('Database::TransactionRollback'):
            self.sites.add((c.F.file, c.line()))
            self.effect(c, st, 'the changes are rolled back', (1, 3) if ('q',) in ts[1] else (1,))
            return [(None, self.cnt(ts, 'rollback'))]
        if f.endswith('Database::query'):
            self.sites.add((c.F.file, c.line()))
            self.effect(c, st, 'the query is run', (1,))
            if len(c.args) < 6 or c.args[5] == ('c', 0): self.rep('notxn', c, 'the query of a transaction is run outside of it', st)
            t2 = self.add(self.cnt(ts, 'query'), 'q')
            return [(None, self.setS(t2, (1,))), (None, self.setS(self.add(t2, 'qa'), (3,)))]
        if f.endswith('Database::VersionClean'): return [(None, self.cnt(ts, 'clean'))]
        if f.startswith('Txn_manager::'):
            if nm == 'Checkpoint': return [(None, self.cnt(ts, 'cp'))] if self.entry != 'Checkpoint' else None
            if nm in E1 and self.entry not in E1: return [(None, (ts[0], ts[1] - {('pend',)}) if nm == 'Rollback' else ts)]
            if nm == 'abort_all_running' and self.entry != nm: return [(None, self.cnt(ts, 'abortall'))]
            return None
        hf = heapfield(c.obj) if c.obj else None
        if hf == 'Txn_manager::cnt' or (c.obj and 'Txn_manager::cnt' in fields(c.obj) and 'atomic' in f):
            if nm == 'load' or nm.startswith('operator unsigned') or nm.startswith('operator '+'__'): return [(('call', 'cnt'), ts)]
            if nm in ('fetch_add', 'operator++'): return [(('call', 'newid'), self.cnt(ts, 'newid'))]
            return [(('call', 'othercnt'), ts)]
        if nm in ('insert', 'emplace', 'operator[]', 'insert_or_assign', 'try_emplace') and hf == 'Txn_manager::txn_table':
            if nm == 'operator[]' and self.entry != 'Begin': return None
            key = c.args[0] if c.args else None
            if self.entry == 'Begin':
                if ('open',) not in ts[1]: self.rep('closed', c, 'a transaction is registered without testing, under the same lock, that the database is still in use', st)
                if not any('Txn_manager::table_lock' in fields(h[0]) and h[1] == 'X' for h in ts[0]): self.rep('tbl', c, 'registered without the lock of the table', st)
            return [(None, self.add(self.cnt(ts, 'reg'), 'key', key))]
        if nm in ('insert', 'emplace', 'merge', 'push_back') and c.obj and 'Txn_manager::DirtyKeys' in fields(c.obj):
            self.effect(c, st, 'keys are recorded as changed', (1, 2, 3))
            if self.n(ts, 'unlock'): self.rep('late2', c, 'the changed keys are recorded after the checkpoint lock was given back', st)
            return [(None, self.add(ts, 'dirty'))]
        if nm in ('push_back', 'emplace_back', 'insert', 'emplace') and ('pend',) in ts[1]: return [(None, self.add((ts[0], ts[1] - {('pend',)}), 'coll'))]
        if nm == 'make_shared' and 'Transaction' in f + (n.get('t') or ''): return [(('new', c.frame, c.nid), self.add(ts, 'mk', tuple(c.args)))]
        return None
    def ending(self, c, st):
        ts = st.ts
        if self.n(ts, 'unlock'): self.rep('twice', c, 'the checkpoint lock is given back twice', st)
        e = self.n(ts, 'commit') + self.n(ts, 'rollback')
        if e == 0: self.rep('early', c, 'the checkpoint lock is given back before the changes are committed or rolled back', st)
        elif not self.n(ts, 'state', 2) and not self.n(ts, 'state', 3): self.rep('early2', c, 'the checkpoint lock is given back before the end of the transaction is recorded', st)
        elif self.n(ts, 'commit') and ('dirty',) not in ts[1]: self.rep('early3', c, 'the checkpoint lock is given back before the changed keys are recorded: a checkpoint may miss them', st)

def judge(R, name, st, rv):
    ts = st.ts; n = R.n
    if ('dead',) in ts[1]: return
    v = rv[1] if rv and rv[0] == 'c' else None
    eff = n(ts, 'commit') + n(ts, 'rollback')
    tot = lambda: 'committed %d, rolled back %d, state set %s, checkpoint lock given back %d' % (n(ts, 'commit'), n(ts, 'rollback'), [STATE[x[2]] for x in ts[1] if x[:2] == ('n', 'state')], n(ts, 'unlock'))
    def bad(k, t): R.bad.setdefault('end:' + k, ('', t + ' (' + tot() + ')', trace(st)))
    if name == 'Begin':
        if rv is not None and invalid(rv) or ('inv',) in ts[1]:
            if n(ts, 'lockS') != n(ts, 'unlock'): bad('refused', 'a refused begin keeps back checkpoints for ever')
            if n(ts, 'reg'): bad('refusedreg', 'a refused begin registers a transaction')
            return
        if n(ts, 'lockS') - n(ts, 'unlock') != 1: bad('hold', 'a begun transaction does not hold back checkpoints exactly once')
        if n(ts, 'reg') != 1: bad('reg', 'a begun transaction is not registered exactly once')
        elif not any(x[0] == 'key' and x[1] and contains(x[1], rv) for x in ts[1]): bad('regid', 'the transaction is registered under another number than the one returned')
        if R.S_(ts) != (1,): bad('run', 'a begun transaction is not RUNNING')
        if rv != ('call', 'newid') or n(ts, 'newid') != 1: bad('id', 'the number of a transaction is not a fresh one')
        if not any(x[0] == 'mk' and len(x[1]) >= 4 and any(contains(a, rv) for a in x[1]) and any(a == ('arg', 0, R.params[0]['n']) or contains(a, ('arg', 0, R.params[0]['n'])) for a in x[1]) for x in ts[1]): bad('mk', 'the transaction is not made with its number and the requested isolation level')
        return
    if name == 'Query' and ('q',) in ts[1]:
        if n(ts, 'rollback'):
            if n(ts, 'rollback') != 1 or n(ts, 'commit') or n(ts, 'unlock') != 1 or not n(ts, 'state', 3): bad('qroll', 'a refused query does not roll its transaction back exactly once')
            if v != -20: bad('qrc', 'a query that ended its transaction does not report that')
        else:
            if ('qa',) in ts[1]: bad('qkept', 'a refused query leaves its transaction neither running nor rolled back')
            if eff or n(ts, 'unlock'): bad('qeff', 'a query ends its transaction')
            if v == -20: bad('qrc2', 'a query reports that its transaction was rolled back, which it was not')
        return
    want = {'Commit': 'commit', 'Rollback': 'rollback'}.get(name)
    if name in E1 and (v == 0) != (want is not None and eff > 0): bad('rc', '%s reports %s' % (name, 'success without ending the transaction' if v == 0 else 'failure although it ended the transaction'))
    if eff == 0:
        if n(ts, 'unlock') or any(x[:2] == ('n', 'state') for x in ts[1]) or ('dirty',) in ts[1]: bad('half', 'the transaction is half ended')
        return
    if name in E1:
        if n(ts, want) != 1 or eff != 1: bad('which', '%s does not do exactly one %s' % (name, want))
        x = 2 if name == 'Commit' else 3
        if R.S_(ts) != ALL and R.S_(ts) != (x,) or n(ts, 'state', x) != 1 or n(ts, 'state', 5 - x): bad('st', 'the end of the transaction is not recorded as %s' % STATE[x])
        if n(ts, 'unlock') != 1: bad('ck', 'the checkpoint lock is not given back exactly once')
        if name == 'Commit' and ('dirty',) not in ts[1]: bad('dirty', 'the changed keys of a committed transaction are not recorded for the checkpoint')

def check(ctx):
    P = ctx.prog(['Database/Txn_manager.cpp', 'Util/Latch.cpp', 'Util/Transaction.cpp'])
    e = next((x for q, x in P.enums.items() if q.split('::')[-1] == 'TransactionState'), None)
    if e is None: raise AnalysisBroken('enum TransactionState not found')
    vals = {v['n']: v['v'] for v in e['vals']} if isinstance(e['vals'], list) and e['vals'] and isinstance(e['vals'][0], dict) else dict(e['vals'])
    if [vals.get(STATE[i]) for i in ALL] != list(ALL): raise AnalysisBroken('TransactionState has other values: %s' % vals)
    common = None; who = []
    names = list(E1) + ['abort_all_running', 'Close', 'Checkpoint', '~Txn_manager']
    pub = [F for F in roots(P, 'Txn_manager') if F.name not in names and F.name not in ('Txn_manager', 'undo', 'redo', 'restore', 'writelog', 'print_txn_dataset')]
    for F in [F for nm in names for F in P.cls_fns('Txn_manager') if F.name == nm and F.blocks] + pub:
        R = TX(F.name, vals); R.params = F.params
        S = Sim(P, R, 3000)
        outs = S.run(F, (frozenset(), frozenset()))
        for st, rv, kind in outs:
            if kind != 'ret': continue
            judge(R, F.name, st, rv)
            t2 = st.ts[1]
            if ('dead',) in t2: continue
            if F.name not in E1 and ('ckX',) in t2: R.bad.setdefault('ckX', ('', 'the checkpoint lock is kept exclusively', trace(st)))
            if F.name == 'abort_all_running':
                R.pend(S, st, st.ts, None)
                if ('coll',) in t2 and not any((n.get('f') or '') in ('Txn_manager::Rollback', 'Txn_manager::Abort') for G in P.forward([F.u]) if G in P.fns for _, n in P.fns[G].calls()): R.bad.setdefault('coll', ('', 'the running transactions are collected but not rolled back', trace(st)))
        if F.name == 'abort_all_running' and R.tested and not R.pended: R.bad.setdefault('coll2', ('', 'no path looks for the running transactions', ''))
        if F.name == '~Txn_manager':
            if any(k == 'ret' and not (R.n(st.ts, 'detach') or R.n(st.ts, 'abortall')) for st, rv, k in outs): R.bad.setdefault('dtor', ('', 'a manager ends without ending its transactions', ''))
        if F.name in E1 and F.name != 'Begin' and R.common is not None:
            common = R.common if common is None else common & R.common; who.append(F.name)
        ctx.use(S)
        ctx.ob('%s: %d path outcomes, %d effects on the transaction or its checkpoint lock' % (F.q, len(outs), len(R.sites)), not R.bad)
        for k, (w, t, tr) in R.bad.items():
            ctx.violation('txn:%s:%s' % (F.name, k), ('%s (in %s)' % (w, F.q)) if w else '%s:%s' % (F.file, F.line), t, tr)
    ok = bool(common)
    ctx.ob('%s end or use a transaction under one common lock: %s' % (', '.join(who), ', '.join(sorted(common or ['none']))), ok)
    if not ok: ctx.violation('txn:common', 'Database/Txn_manager.cpp', 'the operations of a transaction are not kept apart by a common lock: %s' % ', '.join(who))
    ctx.need(len(who), 2, 'operations that end a transaction not found')
    # --------------------------------------------------------- which keys are recorded for the checkpoint
    return
