"""Every request of the HTTP server is explored path by path, exceptions included (the engine's functions that can throw are
known from their source).  State: the set of databases whose lock the request holds and in which mode; the four operations of the
server layer that take a database lock add to it exactly when they report success, the two that give it back remove from it.  The
lock of a database reached by name and reached through its catalogue entry is the same lock.  At every end of a request the set
must be empty, nothing is given back that was not taken, nothing is taken twice, and work on a database happens under the mode it
needs: loading, unloading, saving, batch changes, backup, restoring files under the exclusive lock, querying and exporting at
least under the shared lock."""
from common import *
RULE = 'typestate of database locks over every request path, exceptional paths included'
TAKE = {'APIUtil::trywrlock_database': 'X', 'APIUtil::rdlock_database': 'S', 'APIUtil::trywrlock_databaseinfo': 'X', 'APIUtil::rdlock_databaseinfo': 'S'}
GIVE = ('APIUtil::unlock_database', 'APIUtil::unlock_databaseinfo')
NEED = {'Database::load': 'X', 'Database::save': 'X', 'Database::backup': 'X', 'Database::batch_insert': 'X', 'Database::batch_remove': 'X',
        'Database::insert': 'X', 'Database::remove': 'X', 'Database::unload': 'X',
        'Database::query': 'S', 'Database::export_db': 'S', 'APIUtil::delete_from_databases': 'X', 'APIUtil::db_checkpoint': 'X', 'APIUtil::db_copy': 'X',
        'APIUtil::remove_txn_managers': 'X', 'APIUtil::add_database': 'X', 'APIUtil::insert_txn_managers': 'X' , 'Txn_manager::Checkpoint': 'X'}

class R6(Rule):
    exc = True
    depth = 10
    def __init__(self, P): self.P = P; self.found = {}; self.sites = {}; self.needs = {}
    def report(self, kind, key, where, text, st):
        if (kind, key) not in self.found: self.found[(kind, key)] = (where, text, trace(st))
    def wants(self, F, n):
        f = n.get('f', '') or ''
        return F.file.startswith('Main/') and n.get('k') == 'call' and (f in TAKE or f in GIVE or f in NEED or f in ('APIUtil::get_databaseinfo', 'APIUtil::get_database', 'APIUtil::check_db_exist', 'APIUtil::check_already_load'))
    def no_inline(self, F, st=None): return not F.file.startswith('Main/')
    def key(self, S, st, t):
        t = strip(t)
        if t[0] == 'dbi': return t[1]
        return t
    def on_call(self, S, st, c):
        f = c.f; ts = st.ts
        if c.k != 'call' or not c.F.file.startswith('Main/'): return None
        w = '%s:%s' % (c.F.file, c.line())
        if f in ('APIUtil::get_databaseinfo', 'APIUtil::get_database') and len(c.args) == 2:
            l = S.loc(c.F, c.frame, st, {}, c.n['args'][1])
            if f.endswith('info'): return [(('void',), ts, [('set', (l, ('dbi', c.args[0])))])]
            v = ('db', c.args[0], any(x[0] == c.args[0] and x[1] in 'SX' for x in ts))
            return [(('void',), ts, [('set', (l, v)), (('bin', '==', v, C0), False)]), (('void',), ts, [('set', (l, C0))])]
        if f == 'APIUtil::check_db_exist': return [(C1, ts), (C0, ts | {(c.args[0], 'free')})]
        if f == 'APIUtil::check_already_load':
            return [(C1, ts), (C0, ts | {(c.args[0], 'absent')} if any(x[0] == c.args[0] and x[1] == 'X' for x in ts) else ts)]
        if f in TAKE:
            k = self.key(S, st, c.args[0]); m = TAKE[f]
            self.sites.setdefault(f, set()).add(w)
            if any(x[0] == k and x[1] in 'SX' for x in ts): self.report('twice', (c.F.q, f), w, '%s takes the lock of database %s although the request already holds it' % (c.F.q, show(k)), st)
            if c.n['t'] == 'void' : return [(('void',), ts | {(k, m)})]
            return [(C1, ts | {(k, m)}), (C0, ts)]
        if f in GIVE:
            k = self.key(S, st, c.args[0])
            self.sites.setdefault(f, set()).add(w)
            h = [x for x in ts if x[0] == k and x[1] in ('S', 'X', 'absent')]
            if not any(x[1] in 'SX' for x in h): self.report('unheld', (c.F.q, f), w, '%s gives back the lock of database %s which the request does not hold on this path' % (c.F.q, show(k)), st)
            return [(C1, ts - set(h))]
        if f in NEED:
            self.work(S, st, c, f, w)
        return None
    def work(self, S, st, c, f, w):
        ts = st.ts; need = NEED[f]
        cls = f.split('::')[0]
        if cls == 'Database':
            o = strip(c.obj) if c.obj else None
            if o is None: return
            # a database object made by this request and not registered yet is its own
            if o[0] != 'db':
                if o[0] == 'new':
                    # the object is private, the files it opens are not, unless this request found that no such database exists
                    if f == 'Database::load' and not any(x[1] in ('X', 'free') for x in ts):
                        self.needs.setdefault(f, set()).add(w)
                        self.report('work', (c.F.q, f), w, '%s opens the files of an existing database without holding its exclusive lock' % c.F.q, st)
                    return
                k = None
            else:
                k = o[1]
                if not o[2] and any(x[0] == k and x[1] in 'SX' for x in ts):
                    self.report('stale', (c.F.q, f), w, '%s calls %s on database %s through a pointer looked up before its lock was taken: it may have been unloaded since' % (c.F.q, f, show(k)), st)
        elif f == 'Txn_manager::Checkpoint': k = None
        elif f in ('APIUtil::db_copy', 'APIUtil::insert_txn_managers'): k = None
        else: k = c.args[0]
        self.needs.setdefault(f, set()).add(w)
        if f == 'APIUtil::add_database' and not any(x == (k, 'absent') for x in ts):
            self.report('register', (c.F.q, f), w, '%s registers database %s without having found, under its exclusive lock, that it is not loaded yet' % (c.F.q, show(k)), st); return
        h = [x for x in ts if x[1] in 'SX' and (k is None or x[0] == k)]
        ok = any(x[1] == 'X' or need == 'S' for x in h)
        if not ok:
            self.report('work', (c.F.q, f), w, '%s calls %s on database %s without holding its %s lock' % (c.F.q, f, show(k) if k else '?', 'exclusive' if need == 'X' else 'shared'), st)

def check(ctx):
    P = ctx.prog(['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'Database/Database.cpp', 'Database/Txn_manager.cpp', 'Query/GeneralEvaluation.cpp', 'Database/Optimizer.cpp', 'Database/Executor.cpp', 'Database/TableOperator.cpp'])
    r = R6(P); S = Sim(P, r, cap=1500)
    from c17 import entries
    ents = [F for F in entries(P) if F.file.startswith('Main/')]
    # the request functions: those reached from the entries (or run by pool threads) that take part in the protocol themselves
    fw = P.forward([F.u for F in P.get('main')])
    own = [F for u, F in P.fns.items() if u in fw and F.file.startswith('Main/') and u in S.evfns]
    called = [F for F in own if any('Response' in p['t'] for p in F.params)]
    extra = [F for F in own if F not in called and not any(F.u in P.forward([G.u]) for G in called)]
    n = 0
    for F in sorted(called + extra, key=lambda F: F.line):
        if any(G is not F and F.u in P.forward([G.u]) for G in called if G in called): continue
        before = len(r.found)
        for st, rv, kind in S.run(F, frozenset()):
            for k, m in st.ts:
                if m not in 'SX': continue
                how = 'returns' if kind == 'ret' else 'is left by an exception'
                r.report('leak', (F.q, kind == 'ret'), '%s:%s' % (F.file, F.line), '%s %s while the request still holds the %s lock of database %s' % (F.q, how, 'exclusive' if m == 'X' else 'shared', show(k)), st)
        n += 1
        ctx.ob('%s: every path gives the database locks back' % F.q, len(r.found) == before)
    ctx.use(S)
    for f, s in sorted(r.sites.items()): ctx.ob('%s at %d site(s)' % (f, len(s)))
    for f, s in sorted(r.needs.items()): ctx.ob('%s runs under the %s lock at %d site(s)' % (f, 'exclusive' if NEED[f] == 'X' else 'shared', len(s)), not any(k[1][1] == f for k in r.found if k[0] == 'work'))
    for (kind, key), (w, t, tr) in r.found.items(): ctx.violation('%s:%s:%s' % (kind, key[0], key[1]), w, t, tr)
    ctx.need(n, 5, 'request functions that work with database locks')
    ctx.need(len(r.sites), 4, 'database lock operations')
