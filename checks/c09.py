"""A change needs the exclusive latch (and a new version) of three keys: subject, predicate, object.  All paths of the functions that
take them and give them back are explored, forking on whether each key is already in the transaction's read and write set and on
whether the index grants it.  Granted means all three are held; refused means nothing new is held.  The update itself happens only
after a grant, and afterwards the keys are either registered in the write set or given back with the transaction aborted."""
from txnsets import *
RULE = 'all-or-nothing typestate of three resources over every path, forking on membership and grant'

class LK(SetRule):
    def __init__(self, ids, lit): self.ids = ids; self.lit = lit; self.bad = {}; self.sites = {'take': set(), 'undo': set()}
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return F.cls not in ('KVstore', 'Transaction') or F.name == 'SetErrorType'
    def wants(self, F, n):
        f = n.get('f') or ''
        return n.get('k') == 'call' and (f in ('IVArray::TryExclusiveLatch', 'IVArray::Rollback') or f.endswith(('::is_literal_ele', '::is_entity_ele'))) or self.wset(n)
    def rep(self, k, c, text, st): self.bad.setdefault(k, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def on_call(self, S, st, c):
        f = c.f or ''
        r = self.set_call(S, st, c)
        if r is not None: return r
        if f.endswith(('::is_literal_ele', '::is_entity_ele')) and c.args:
            return [(('c', int((c.args[0] == self.ids['O'] and self.lit) == f.endswith('literal_ele'))), st.ts)]
        if f in ('IVArray::TryExclusiveLatch', 'IVArray::Rollback'):
            a = self.arr(c)
            if a is None: return None
            k, key = self.akey(a, c.args[0])
            take = f.endswith('Latch')
            self.sites['take' if take else 'undo'].add('%s:%s' % (c.F.file, c.line()))
            what = TXT[k]
            if self.ids.get(k) != key or (k == 'O' and (a == 'L') != self.lit):
                self.rep('key:%s:%s' % (f, k), c, 'the latch of the %s is %s under a wrong key or in a wrong array' % (what, 'taken' if take else 'given back'), st); return None
            rd = self.isin(st.ts, ('R', k), key); wr = self.isin(st.ts, ('W', k), key)
            hr = S.truth(st, c.args[2]) if len(c.args) > 2 else None
            if rd is None or hr is None or int(hr) != rd:
                self.rep('read:%s:%s' % (f, k), c, 'the index is not told rightly whether the transaction has read the %s (shared latch held)' % what, st)
            if wr != 0:
                self.rep('written:%s:%s' % (f, k), c, 'the latch of the %s is %s although the transaction %s have it from an earlier change' % (what, 'taken' if take else 'given back', 'may already' if take else 'may'), st)
            if take:
                if ('got', k) in st.ts: self.rep('twice:' + k, c, 'the latch of the %s is taken twice' % what, st)
                return [(C1, st.ts | {('got', k)}), (C0, st.ts | {('refused', k)})]
            if ('rel', k) in st.ts: self.rep('twice-undo:' + k, c, 'the latch of the %s is given back twice' % what, st)
            elif ('got', k) not in st.ts and not self.rel: self.rep('undo:' + k, c, 'the latch of the %s is given back although it was not taken' % what, st)
            return [(C1, (st.ts - {('got', k)}) | {('rel', k)})]
        return None

def acquire(ctx, P):
    for q in ('KVstore::GetExclusiveLock', 'KVstore::ReleaseExclusiveLock'):
        F = P.one(q); rel = 'Release' in q
        ids = {k: ('arg', i, p['n']) for i, (k, p) in enumerate(zip('SPO', F.params))}
        ctx.need(len([p for p in F.params if 'Transaction' not in p['t']]), 3, 'ID parameters of ' + q)
        for lit in (False, True):
            r = LK(ids, lit); r.rel = rel; S = Sim(P, r, cap=4000)
            ti = next(i for i, p in enumerate(F.params) if 'Transaction' in p['t'])
            res = S.run(F, frozenset(), pre=lambda S, st: S.fact(st, ('arg', ti, F.params[ti]['n']), C0, False))
            bad = dict(r.bad); n = 0
            for st, rv, kind in res:
                if kind != 'ret': continue
                n += 1
                tv = S.truth(st, rv)
                got = {x[1] for x in st.ts if x[0] == 'got'}; ref = {x[1] for x in st.ts if x[0] == 'refused'}
                wr = {k for k in 'SPO' if r.isin(st.ts, ('W', k), ids[k]) == 1}
                w = '%s:%s' % (F.file, F.line)
                if rel:
                    for k in 'SPO':
                        if k not in wr and ('rel', k) not in st.ts: bad.setdefault('kept:' + k, (w, 'after a failed change the latch and the version of the %s are not given back' % TXT[k], trace(st)))
                    continue
                if tv is not False:
                    for k in 'SPO':
                        if k not in wr | got: bad.setdefault('missing:' + k, (w, 'the change is allowed although the latch of the %s is not held' % TXT[k], trace(st)))
                    if ref: bad.setdefault('refused:' + min(ref), (w, 'the change is allowed although the latch of the %s was refused' % TXT[min(ref)], trace(st)))
                if tv is not True:
                    for k in got: bad.setdefault('left:' + k, (w, 'the change is refused but the latch and the version of the %s stay behind' % TXT[k], trace(st)))
                    if tv is False and not ref: bad.setdefault('noreason', (w, 'the change is refused although no latch was refused', trace(st)))
            for k, (w, t, tr) in bad.items(): ctx.violation('%s:%s' % (F.name, k), w, t, tr)
            ctx.use(S)
            ctx.need(n, 1, 'outcomes of ' + q)
            ctx.need(len(r.sites['undo']), 1, 'places below %s that give a latch back' % q)
            if not rel: ctx.need(len(r.sites['take']), 1, 'places below %s that take a latch' % q)
            ctx.ob('%s, %s object: %s (%d outcomes over membership x grant)' % (q, 'literal' if lit else 'entity', 'gives back exactly the keys no earlier change holds' if rel else 'all three keys held, or nothing new held and refused', n), not bad)

class UP(SetRule):
    """insertTriple / removeTriple inside a transaction"""
    depth = 3
    def __init__(self): self.bad = {}; self.sites = set()
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return not (F.cls in ('Transaction', 'IDTriple') or F.cls == 'Database' and F.name not in ('exist_triple', 'allocEntityID', 'allocLiteralID', 'allocPredicateID', 'freeEntityID', 'freeLiteralID', 'freePredicateID', 'query', 'insert', 'remove'))
    def wants(self, F, n):
        f = n.get('f') or ''
        if n.get('k') == 'asg': return (F.nodes[n['args'][0]].get('q') if n.get('args') else n.get('q')) in ('Transaction::state',) + self.keep_fields
        if n.get('k') == 'ctor': return n.get('t', '').endswith('IDTriple')
        return n.get('k') == 'call' and (f.startswith('KVstore::') and f.split('::')[-1] in ('GetExclusiveLock', 'ReleaseExclusiveLock', 'updateTupleslist_insert', 'updateTupleslist_remove') or f in ('Database::exist_triple',) or self.wset(n))
    keep_fields = ('IDTriple::subject', 'IDTriple::predicate', 'IDTriple::object')
    def rep(self, k, c, text, st): self.bad.setdefault(k, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def on_store(self, S, st, loc, val, n):
        if loc[0] == 'f' and loc[2] == 'Transaction::state': return st.ts | {('state', val)}
        return None
    def inserted(self, S, st, c, sx, key): return st.ts | {('ins', sx, key)}
    def on_call(self, S, st, c):
        f = c.f or ''; nm = f.split('::')[-1]
        r = self.set_call(S, st, c)
        if r is not None: return r
        if f.startswith('KVstore::') and nm in ('GetExclusiveLock', 'ReleaseExclusiveLock', 'updateTupleslist_insert', 'updateTupleslist_remove'):
            ids = tuple(c.args[:3]); lk = next((x for x in st.ts if x[0] == 'lk'), None)
            self.sites.add('%s:%s' % (c.F.file, c.line()))
            if nm == 'GetExclusiveLock':
                if lk: self.rep('again', c, 'the latches of the triple are taken twice', st)
                return [(C1, st.ts | {('lk', 1, ids)}), (C0, st.ts | {('lk', 0, ids)})]
            if nm == 'ReleaseExclusiveLock':
                if not lk or not lk[1]: self.rep('release', c, 'latches are given back that were not granted', st)
                elif lk[2] != ids: self.rep('release-ids', c, 'the latches of another triple are given back', st)
                if any(x[0] == 'ins' for x in st.ts): self.rep('release-reg', c, 'latches are given back although the keys are registered in the write set', st)
                return [(None, st.ts | {('rel',)})]
            if not lk or not lk[1]: self.rep('change', c, 'the triple is changed in a transaction without its latches', st)
            elif lk[2] != ids: self.rep('change-ids', c, 'another triple is changed than the one latched', st)
            return [(C1, st.ts | {('done', 1)}), (C0, st.ts | {('done', 0)})]
        if f == 'Database::exist_triple':
            lk = next((x for x in st.ts if x[0] == 'lk'), None)
            if not lk or not lk[1]: self.rep('exist', c, 'whether the triple exists is read before its latches are held, so it may change before the update', st)
            return None
        return None

def changes(ctx, P):
    for q in ('Database::insertTriple', 'Database::removeTriple'):
        F = P.one(q); r = UP(); S = Sim(P, r, cap=6000)
        ti = next(i for i, p in enumerate(F.params) if 'Transaction' in p['t'])
        def pre(S, st): S.fact(st, ('arg', ti, F.params[ti]['n']), C0, False)
        res = S.run(F, frozenset(), pre=pre)
        bad = dict(r.bad); n = 0; w = '%s:%s' % (F.file, F.line)
        ab = ctx.aborted
        for st, rv, kind in res:
            if kind != 'ret': continue
            lk = next((x for x in st.ts if x[0] == 'lk'), None)
            ins = {x[1:] for x in st.ts if x[0] == 'ins'}
            aborted = ('state', ('c', ab)) in st.ts
            tv = S.truth(st, rv)
            if lk is None:
                if ins: bad.setdefault('reg-nolock', (w, 'keys are registered in the write set without their latches', trace(st)))
                if tv is not False: bad.setdefault('success-nolock', (w, 'the change is reported done without its latches', trace(st)))
                continue
            n += 1
            want = {(('W', k), i) for k, i in zip('SPO', lk[2])}
            done = {x[1] for x in st.ts if x[0] == 'done'}
            if not lk[1]:
                if not aborted: bad.setdefault('noabort', (w, 'a change refused because of a conflict does not abort the transaction', trace(st)))
                if ins: bad.setdefault('refused-reg', (w, 'keys of a refused change are registered in the write set: latches of others would be given back', trace(st)))
                if tv is not False: bad.setdefault('refused-true', (w, 'a refused change is reported done', trace(st)))
                continue
            rel = ('rel',) in st.ts
            if not rel and ins != want: bad.setdefault('unregistered', (w, 'latches are held that %s: they are never given back' % ('no write set entry names' if not ins else 'the write set does not name completely'), trace(st)))
            if rel and not aborted: bad.setdefault('rel-noabort', (w, 'after a failed change the latches are given back but the transaction goes on', trace(st)))
            if done == {1} and rel: bad.setdefault('done-rel', (w, 'a change that was made is not registered in the write set', trace(st)))
            if done == {0} and not rel: bad.setdefault('fail-reg', (w, 'a failed change is registered as made', trace(st)))
            if done == {0} and tv is not False: bad.setdefault('fail-true', (w, 'a failed change is reported done', trace(st)))
            if done == {1} and tv is not True and not aborted: bad.setdefault('done-false', (w, 'a change that was made is reported not done', trace(st)))
        for k, (w2, t, tr) in bad.items(): ctx.violation('%s:%s' % (F.name, k), w2, t, tr)
        ctx.use(S)
        ctx.need(n, 2, 'outcomes of %s in a transaction' % q)
        ctx.ob('%s in a transaction: latches of the same triple first, then test and change, then registered or given back (%d outcomes, %d sites)' % (q, n, len(r.sites)), not bad)

def check(ctx):
    P = ctx.prog(['KVstore/KVstore.cpp', 'Util/Transaction.cpp', 'Database/Database.cpp'])
    ctx.aborted = 3
    acquire(ctx, P)
    changes(ctx, P)
