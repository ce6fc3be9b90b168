"""What a transaction holds is written down and given back.  (A) Ending a transaction: every element of its write sets is released
(committed) or rolled back, and at serialisable level every element of its read sets that is not in the write set gives its shared
latch back - every element, exactly once, in the index of its kind.  (B) Reading: every transactional reader asks for the shared latch
unless the transaction has it, and writes a granted latch down under the right key and kind.  (C) What a committed transaction wrote
is handed to the checkpoint, kind by kind.  (D) The checkpoint merges the versions of every such key into the stored list: versions
read, additions merged, then removals, versions discarded once, and the merged list stored (or the key removed when nothing is left)."""
from txnsets import *
RULE = 'universal-element typestate over the loops of the sets, matching of keys, kinds and arrays'
LATCH = {0: 'S', 1: 'X'}

class END(SetRule):
    def __init__(self, iso, commit): self.iso = iso; self.commit = commit; self.bad = {}; self.sites = set()
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return F.cls not in ('KVstore', 'Transaction')
    def wants(self, F, n):
        f = n.get('f') or ''
        return n.get('k') == 'call' and (f in ('IVArray::ReleaseLatch', 'IVArray::Rollback') or f.endswith(('::is_literal_ele', '::is_entity_ele'))) or self.wset(n)
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2] == 'Transaction::isolation': return ('c', self.iso)
        return super().load_value(S, st, l)
    def rep(self, k, c, text, st): self.bad.setdefault(k, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def el(self, sx): return ('call', 'el', sx)
    def element(self, S, st, sx, el):
        return frozenset(x for x in st.ts if x[0] not in ('cur',)) | {('cur', sx)}
    def clean(self, ts, sx): return frozenset(x for x in ts if not (x[0] in ('cur', 'dn') and x[1] == sx or x[0] == 'in' and contains(x[2], 'el')))
    def ended(self, S, st, c, sx, el):
        if ('cur', sx) not in st.ts: return st.ts
        dn = [x for x in st.ts if x[0] == 'dn' and x[1] == sx]
        k = sx[1]; inw = self.isin(st.ts, ('W', k), el)
        if len(dn) > 1: self.rep('twice:%s%s' % sx, c, 'the latch of an element of the %s set (%s) is given back twice' % ('write' if sx[0] == 'W' else 'read', TXT[k]), st)
        if sx[0] == 'W' and not dn: self.rep('skip:%s%s' % sx, c, 'an element of the write set (%s) is passed over' % TXT[k], st)
        if sx[0] == 'R' and not dn and inw != 1: self.rep('skip:%s%s' % sx, c, 'the shared latch of an element of the read set (%s) is passed over%s' % (TXT[k], '' if inw == 0 else ', whether or not it is in the write set'), st)
        return self.clean(st.ts, sx)
    def finished(self, S, st, c, sx): return self.clean(st.ts, sx) | {('full', sx)}
    def visit(self, S, st, sx): return frozenset(x for x in st.ts if x != ('full', sx))
    def on_call(self, S, st, c):
        f = c.f or ''
        r = self.set_call(S, st, c)
        if r is not None: return r
        if f.endswith(('::is_literal_ele', '::is_entity_ele')) and c.args:
            a = c.args[0]; lit = f.endswith('literal_ele')
            for x in st.ts:
                if x[0] == 'lit' and x[1] == a: return [(('c', int(x[2] == lit)), st.ts)]
            return [(C1, st.ts | {('lit', a, lit)}), (C0, st.ts | {('lit', a, not lit)})]
        if f in ('IVArray::ReleaseLatch', 'IVArray::Rollback'):
            a = self.arr(c)
            if a is None: return None
            self.sites.add('%s:%s' % (c.F.file, c.line()))
            k, key = self.akey(a, c.args[0])
            sx = None
            if key[0] == 'call' and key[1] == 'el': sx = self.coll(strip(key[2]))
            lit = next((x[2] for x in st.ts if x[0] == 'lit' and x[1] == key), False)
            if sx is None or k not in ('S', 'P', 'O') or sx[1] != k or (k == 'O' and (a == 'L') != lit):
                self.rep('key:' + a, c, 'a latch of the %s index is given back for a key that is not an element of the matching set' % TXT[a], st); return [(C1, st.ts)]
            ts = frozenset(x for x in st.ts if not (x[0] == 'lit'))
            mode = LATCH.get(c.args[2][1]) if f.endswith('Latch') and len(c.args) > 2 and c.args[2][0] == 'c' else None
            if sx[0] == 'W':
                if f.endswith('Latch') != self.commit: self.rep('op:' + k, c, 'the versions of an %s transaction are %s (%s)' % (('ended', 'rolled back')[0] if self.commit else 'aborted', 'rolled back' if self.commit else 'released as if committed', TXT[k]), st)
                elif self.commit and mode != 'X': self.rep('mode:' + k, c, 'a written key (%s) is released as if only read: its version never becomes committed' % TXT[k], st)
                elif not self.commit and S.truth(st, c.args[2]) is not False: self.rep('keep:' + k, c, 'the roll-back of a written key (%s) keeps a shared latch nobody gives back' % TXT[k], st)
            else:
                inw = self.isin(st.ts, ('W', k), key)
                if f.endswith('Rollback') or mode != 'S': self.rep('rmode:' + k, c, 'a key only read (%s) is treated as written' % TXT[k], st)
                if inw != 0: self.rep('rw:' + k, c, 'the shared latch of a key (%s) is given back %s' % (TXT[k], 'although the transaction has turned it into an exclusive one' if inw else 'without looking whether the key was written'), st)
                if self.iso != 1: self.rep('riso:' + k, c, 'shared latches are given back at a level that takes none', st)
            n = sum(1 for x in st.ts if x[0] == 'dn' and x[1] == sx)
            return [(v, ts | {('dn', sx, n)}) for v in (C1, C0)]
        return None

def ends(ctx, P):
    for q, commit in (('KVstore::ReleaseAllLocks', True), ('KVstore::TransactionInvalid', False)):
        F = P.one(q)
        for iso, nm in ((1, 'serialisable'), (2, 'snapshot'), (3, 'read committed')):
            r = END(iso, commit); S = Sim(P, r, cap=4000)
            bad = r.bad; n = 0
            for st, rv, kind in S.run(F, frozenset()):
                if kind != 'ret': continue
                n += 1
                for k in 'SPO':
                    for w in 'WR' if iso == 1 else 'W':
                        if ('full', (w, k)) not in st.ts: bad.setdefault('all:' + w + k, ('%s:%s' % (F.file, F.line), 'not every element of the %s set (%s) is given back when the transaction ends' % ('write' if w == 'W' else 'read', TXT[k]), trace(st)))
            for k, (w, t, tr) in bad.items(): ctx.violation('%s:%s' % (F.name, k), w, '%s (%s)' % (t, nm), tr)
            ctx.use(S)
            ctx.need(n, 1, 'paths of ' + q)
            ctx.need(len(r.sites), 1, 'places below %s that give something back' % q)
            ctx.ob('%s, %s: every written key %s%s (%d paths, %d sites)' % (q, nm, 'released as committed' if commit else 'rolled back', ', every key only read gives its shared latch back' if iso == 1 else '', n, len(r.sites)), not bad)

# ---------------------------------------------------------------- readers
READERS = ('getpreIDlistBysubID', 'getobjIDlistBysubID', 'getobjIDlistBysubIDpreID', 'getpreIDobjIDlistBysubID', 'getpreIDlistByobjID', 'getsubIDlistByobjID', 'getsubIDlistByobjIDpreID', 'getpreIDsubIDlistByobjID', 'getsubIDlistBypreID', 'getobjIDlistBypreID', 'getsubIDobjIDlistBypreID', 'getpreIDlistBysubIDobjID')
ASK = 8

def is_ask(n): return n.get('k') == 'call' and n.get('f') == 'IVArray::search' and len(n.get('args', [])) >= ASK

class RD(SetRule):
    all_branches = False; depth = 5
    def __init__(self, iso): self.iso = iso; self.bad = {}; self.sites = set()
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return F.cls not in ('KVstore', 'Transaction') or F.name.startswith(('Insert_', 'Remove_', 'intersect', 'addRemainingTripleset'))
    def wants(self, F, n):
        f = n.get('f') or ''
        return is_ask(n) or n.get('k') == 'call' and f.endswith(('::is_literal_ele', '::is_entity_ele')) or (F.cls == 'Transaction' or 'unordered_set<unsigned' in f) and self.wset(n)
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2] == 'Transaction::isolation': return ('c', self.iso)
        return super().load_value(S, st, l)
    def rep(self, k, c, text, st): self.bad.setdefault(k, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def inserted(self, S, st, c, sx, key):
        if sx[0] != 'R': return st.ts
        if ('held', sx[1], key) not in st.ts:
            self.rep('ins:' + sx[1], c, 'a %s is written down as latched that was not latched%s: giving it back fails' % (TXT[sx[1]], ' at this isolation level' if self.iso != 1 else ''), st)
        return (st.ts - {('owe', sx[1], key)}) | {('ins', sx[1], key)}
    def erased(self, S, st, c, sx): self.rep('erase', c, 'an entry of the %s set is dropped' % ('read' if sx[0] == 'R' else 'write'), st); return st.ts
    def on_call(self, S, st, c):
        f = c.f or ''
        if f.endswith(('::is_literal_ele', '::is_entity_ele')) and c.args:
            a = c.args[0]; lit = f.endswith('literal_ele')
            for x in st.ts:
                if x[0] == 'lit' and x[1] == a: return [(('c', int(x[2] == lit)), st.ts)]
            return [(C1, st.ts | {('lit', a, lit)}), (C0, st.ts | {('lit', a, not lit)})]
        if is_ask(c.n):
            a = self.arr(c)
            if a is None: return None
            self.sites.add('%s:%s' % (c.F.file, c.line()))
            k, key = self.akey(a, c.args[0])
            lit = next((x[2] for x in st.ts if x[0] == 'lit' and x[1] == key), False)
            if k == 'L' or k == 'O' and (a == 'L') != lit: self.rep('lit', c, 'a %s is looked up in the wrong array' % ('literal' if lit else 'entity'), st)
            fr = S.truth(st, c.args[7])
            have = self.isin(st.ts, ('R', k), key) == 1 or self.isin(st.ts, ('W', k), key) == 1 or ('asked', k, key) in st.ts
            if self.iso == 1 and not have and fr is not True: self.rep('nolatch:' + k, c, 'a %s is read at serialisable level without its shared latch, so another transaction may change it unnoticed' % TXT[k], st)
            lloc = S.loc(c.F, c.frame, st, {}, c.n['args'][6])
            ts = frozenset(x for x in st.ts if x[0] != 'lit')
            no = lambda v: (v, ts | {('asked', k, key)}, [('set', (lloc, C0))])
            out = [no(C1), no(C0)]
            if fr is not False and self.iso == 1:
                out.append((C1, ts | {('asked', k, key), ('held', k, key)} | ({('owe', k, key)} if ('ins', k, key) not in ts and self.isin(ts, ('R', k), key) != 1 else frozenset()), [('set', (lloc, C1))]))
            return out
        return self.set_call(S, st, c)

def readers(ctx, P):
    fwd = [F for F in P.cls_fns('KVstore') if F.blocks and any(is_ask(n) for _, n in F.calls())]
    ctx.need(len(fwd), 1, 'functions that read versions for a transaction')
    up = P.reach(lambda F: F in fwd) if False else None
    seeds = {F.u for F in fwd}
    todo = list(seeds)
    while todo:
        u = todo.pop()
        for v in P.callers.get(u, ()):
            if v not in seeds and P.fns[v].cls == 'KVstore': seeds.add(v); todo.append(v)
    ents = [F for F in P.cls_fns('KVstore') if F.u in seeds and any('Transaction' in p['t'] for p in F.params) and F.blocks
            and (F.name in READERS or (not F.name.endswith('_vacuum') and not (P.callers.get(F.u, set()) - {F.u})))]
    ctx.need(len([F for F in ents if F.name in READERS]), 6, 'transactional readers')
    for F in ents:
        ti = next(i for i, p in enumerate(F.params) if 'Transaction' in p['t'])
        for iso, nm in ((1, 'serialisable'), (2, 'snapshot'), (3, 'read committed')):
            r = RD(iso); S = Sim(P, r, cap=4000); bad = r.bad; n = 0
            for st, rv, kind in S.run(F, frozenset(), pre=lambda S, st: S.fact(st, ('arg', ti, F.params[ti]['n']), C0, False)):
                if kind != 'ret': continue
                n += 1
                for x in st.ts:
                    if x[0] == 'owe': bad.setdefault('owe:' + x[1], ('%s:%s' % (F.file, F.line), 'the shared latch of a %s was taken but not written down: nobody gives it back' % TXT[x[1]], trace(st)))
            if not r.sites: continue
            for k, (w, t, tr) in bad.items(): ctx.violation('%s:%s' % (F.name, k), w, '%s: %s' % (F.name, t), tr)
            ctx.use(S)
            ctx.ob('%s (%d parameters), %s: shared latch asked for unless held, written down exactly when granted (%d paths)' % (F.name, len(F.params), nm, n), not bad)

# ---------------------------------------------------------------- from the write set to the checkpoint
DK = 'Txn_manager::DirtyKeys'
class DIRTY(SetRule):
    """add_dirty_keys: every set of the write set is inserted, whole, into the dirty keys of its kind"""
    fold_inc = True; depth = 6
    def __init__(self): self.bad = {}; self.sites = set()
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return F.cls not in ('Txn_manager', 'Transaction')
    def wants(self, F, n): return self.wset(n)
    def coll(self, t):
        r = setof(t)
        if r: return r
        if t and t[0] == 'idx' and t[1][0] == 'f' and t[1][2] == DK and t[2][0] == 'c': return ('D', TYPES.get(t[2][1]))
        return None
    def rep(self, k, c, text, st): self.bad.setdefault(k, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def element(self, S, st, sx, el): return st.ts | {('cur', sx)}
    def ended(self, S, st, c, sx, el):
        ok = ('put', sx) in st.ts
        return frozenset(x for x in st.ts if x not in (('cur', sx), ('put', sx))) | (frozenset() if ok else {('miss', sx)})
    def finished(self, S, st, c, sx): return st.ts | ({('got', sx[1])} if sx[0] == 'W' and ('miss', sx) not in st.ts and ('loop', sx) in st.ts else frozenset())
    def visit(self, S, st, sx): return st.ts | {('loop', sx)}
    def on_call(self, S, st, c):
        nm = (c.f or '').split('::')[-1]
        sx = self.coll(strip(c.obj)) if c.obj and c.k == 'call' else None
        if sx and sx[0] == 'D' and nm in ('insert', 'emplace'):
            self.sites.add('%s:%s' % (c.F.file, c.line()))
            a = [strip(x) for x in c.args]
            if len(a) == 2 and a[0][0] == 'call' and a[0][1] == 'it' and a[1][0] == 'call' and a[1][1] == 'endit':
                x, y = self.coll(strip(a[0][2])), self.coll(strip(a[1][2]))
            else:
                el = a[-1]
                x = y = self.coll(strip(el[2])) if el[0] == 'call' and el[1] == 'el' else None
                if x and x == ('W', sx[1]): return [(None, st.ts | {('put', x)})]
            if x != y or not x or x[0] != 'W': return None
            if x[1] != sx[1]: self.rep('kind:' + x[1], c, 'the keys written as %s are handed to the checkpoint as %s' % (TXT[x[1]], TXT[sx[1]]), st); return [(None, st.ts)]
            return [(None, st.ts | {('got', x[1])})]
        return self.set_call(S, st, c)

class DIST(SetRule):
    """Checkpoint: the clean-up gets all dirty keys of every kind, objects split into entities and literals"""
    depth = 5; fold_inc = True
    def __init__(self, target): self.bad = {}; self.target = target; self.n = 0
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return F.cls not in ('Txn_manager',) and not (F.cls == 'Database' and F.name == 'VersionClean')
    def wants(self, F, n):
        f = n.get('f') or ''
        return n.get('k') == 'call' and (f == self.target or f.endswith(('::is_literal_ele', '::is_entity_ele')) or F.cls == 'Txn_manager' and self.wset(n) or F.cls == 'Txn_manager' and f.split('::')[-1] in ('push_back', 'emplace_back', 'insert', 'assign', 'reserve', 'copy') and 'vector<unsigned' in f)
    def coll(self, t):
        if t and t[0] == 'idx' and t[1][0] == 'f' and t[1][2] == DK and t[2][0] == 'c': return ('D', TYPES.get(t[2][1]))
        return None
    def rep(self, k, c, text, st): self.bad.setdefault(k, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def element(self, S, st, sx, el): return st.ts | {('cur', sx)}
    def ended(self, S, st, c, sx, el):
        if ('cur', sx) not in st.ts: return st.ts
        put = [x for x in st.ts if x[0] == 'put' and x[1] == el]
        lit = next((x[2] for x in st.ts if x[0] == 'lit' and x[1] == el), None)
        ts = frozenset(x for x in st.ts if not (x == ('cur', sx) or x[0] in ('put', 'lit') and x[1] == el))
        if not put: return ts | {('miss', sx, lit)}
        return ts | {('cls', x[2], sx, lit) for x in put}
    def finished(self, S, st, c, sx): return st.ts | {('full', sx)}
    def on_call(self, S, st, c):
        f = c.f or ''; nm = f.split('::')[-1]
        if f.endswith(('::is_literal_ele', '::is_entity_ele')) and c.args:
            a = c.args[0]; lit = f.endswith('literal_ele')
            for x in st.ts:
                if x[0] == 'lit' and x[1] == a: return [(('c', int(x[2] == lit)), st.ts)]
            return [(C1, st.ts | {('lit', a, lit)}), (C0, st.ts | {('lit', a, not lit)})]
        if f == self.target:
            self.n += 1
            names = ('S', 'O', 'L', 'P')
            for i, k in enumerate(names):
                v = S.loc(c.F, c.frame, st, {}, c.n['args'][i])
                fills = {x[2:] for x in st.ts if x[0] == 'cls' and x[1] == v}
                kind = 'O' if k == 'L' else k
                want = {'S': {(('D', 'S'), None)}, 'P': {(('D', 'P'), None)}, 'O': {(('D', 'O'), False)}, 'L': {(('D', 'O'), True)}}[k]
                allow = want | ({(('D', 'O'), False)} if k == 'O' else {(('D', 'O'), True)} if k == 'L' else set())
                if fills - allow: self.rep('wrong:' + k, c, 'the clean-up at a checkpoint gets the wrong keys for the %s index' % TXT[k], st)
                if not fills and ('full', ('D', kind)) not in st.ts: self.rep('none:' + k, c, 'the clean-up at a checkpoint gets no keys of the %s index' % TXT[k], st)
                if ('miss', ('D', kind), None) in st.ts or ('miss', ('D', kind), k == 'L') in st.ts: self.rep('miss:' + k, c, 'a changed key of the %s index is passed over by the checkpoint' % TXT[k], st)
            return [(None, st.ts | {('clean',)})]
        if c.k == 'call' and nm in ('insert', 'assign', 'push_back', 'emplace_back') and 'vector<unsigned' in f and c.F.cls == 'Txn_manager':
            v = strip(c.obj); a = [strip(x) for x in c.args]
            its = [x for x in a if x[0] == 'call' and x[1] in ('it', 'endit') and self.coll(strip(x[2]))]
            if len(its) == 2 and its[0][1] == 'it' and its[1][1] == 'endit' and its[0][2] == its[1][2]: return [(None, st.ts | {('cls', v, self.coll(strip(its[0][2])), None)})]
            if a and a[-1][0] == 'call' and a[-1][1] == 'el' and self.coll(strip(a[-1][2])): return [(None, st.ts | {('put', a[-1], v)})]
        return self.set_call(S, st, c)

def handover(ctx, P):
    F = P.one('Txn_manager::add_dirty_keys')
    r = DIRTY(); S = Sim(P, r, cap=2000); n = 0
    try:
        res = S.run(F, frozenset())
    except TooBig: res = None
    if res is not None and r.sites:
        for st, rv, kind in res:
            if kind != 'ret': continue
            n += 1
            for k in 'SPO':
                if ('got', k) not in st.ts: r.bad.setdefault('lost:' + k, ('%s:%s' % (F.file, F.line), 'what a committed transaction wrote (%s) is not handed to the checkpoint: it stays invisible outside transactions' % TXT[k], trace(st)))
        for k, (w, t, tr) in r.bad.items(): ctx.violation('add_dirty_keys:' + k, w, t, tr)
        ctx.ob('add_dirty_keys: write sets handed over kind by kind (%d paths)' % n, not r.bad)
    ctx.use(S); ctx.need(len(r.sites), 1, 'insertions into the dirty keys')
    F = P.one('Txn_manager::Checkpoint'); r = DIST('KVstore::IVArrayVacuum'); S = Sim(P, r, cap=2000)
    try:
        for st, rv, kind in S.run(F, frozenset()): pass
    except TooBig: ctx.notes.append('Checkpoint: distribution of the keys undecided (too many states)')
    else:
        ctx.need(r.n, 1, 'clean-ups below Txn_manager::Checkpoint')
        for k, (w, t, tr) in r.bad.items(): ctx.violation('Checkpoint:' + k, w, t, tr)
        ctx.ob('Checkpoint: the clean-up gets the dirty keys of each kind, objects split into entities and literals', not r.bad)
    ctx.use(S)

# ---------------------------------------------------------------- the checkpoint itself
V0 = 7001
class VAC(SetRule):
    """one element of each of the four key lists: read versions, merge additions, then removals, discard versions, store"""
    depth = 6; fold_inc = False
    keep_end = True
    def __init__(self, F): self.bad = {}; self.F = F; self.seen = {}; self.did = set()
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return F.cls not in ('KVstore',) or F.name.startswith(('Insert_', 'Remove_'))
    MERGE = ('Insert_', 'Remove_')
    LEAF = {'IVArray::insert': 'add', 'IVArray::modify': 'set', 'IVArray::remove': 'rm', 'IVArray::CleanDirtyKey': 'clean'}
    def wants(self, F, n):
        f = n.get('f') or ''; nm = f.split('::')[-1]
        if n.get('k') != 'call': return False
        return (is_ask(n) or f in self.LEAF or f.endswith(('::is_literal_ele', '::is_entity_ele')) or nm.startswith(self.MERGE) and f.startswith('KVstore::')
                or nm in ('push_back', 'emplace_back', 'begin', 'end', 'operator*', 'operator++', 'operator!=', 'operator->', 'size', 'empty') and F.cls == 'KVstore' and ('vector<unsigned' in f or 'pair<unsigned' in f or '__normal_iterator' in f or 'VData' in f or '_Rb_tree' in f))
    def coll(self, t):
        if t and t[0] == 'arg' and t[1] < 4: return ('K', 'SOLP'[t[1]])
        return None
    def rep(self, k, c, text, st): self.bad.setdefault(k, ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st)))
    def element(self, S, st, sx, el): return frozenset(x for x in st.ts if x[0] == 'full') | {('cur', sx)}
    def visit(self, S, st, sx): return frozenset(x for x in st.ts if x[0] == 'full')
    def finished(self, S, st, c, sx): return frozenset(x for x in st.ts if x[0] == 'full') | {('full', sx)}
    def has(self, ts, *e): return [x for x in ts if x[:len(e)] == e]
    def ended(self, S, st, c, sx, el):
        ts = st.ts
        if ('cur', sx) not in ts: return ts
        k = sx[1]; what = TXT[k]
        if not self.has(ts, 'rd'): self.rep('rd:' + k, c, 'the versions of a changed key (%s) are not read by the checkpoint' % what, st)
        if not self.has(ts, 'clean'): self.rep('clean:' + k, c, 'the versions of a changed key (%s) stay in place after they were merged: they are applied again' % what, st)
        base = self.has(ts, 'base'); zero = self.has(ts, 'zero')
        zero = {x[2] for x in zero if x[1] == self.ver(ts)}
        put = [x[1] for x in self.has(ts, 'put')]
        for s_, t_ in (('A', 'additions'), ('D', 'removals')):
            lists = {x[1] for x in self.has(ts, 'from') if x[2] == s_}
            empty = {x[1] for x in self.has(ts, 'nz') if x[2] == 0}
            if not self.has(ts, 'merged', s_):
                if lists - empty: self.rep('unmerged:' + s_ + k, c, 'the %s of a changed key (%s) are not merged into its list' % (t_, what), st)
            else: self.did.add((k, s_))
        if base and put == [] and not (zero == {1} and not base[0][1]): self.rep('nostore:' + k, c, 'the merged list of a changed key (%s) is not stored' % what, st)
        if len(put) > 1: self.rep('twice:' + k, c, 'the list of a changed key (%s) is stored more than once' % what, st)
        return frozenset(x for x in ts if x[0] == 'full')
    def ver(self, ts): return max([x[1] for x in ts if x[0] == 'ver'] or [0])
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        ln = None
        x = cond; z = tr is False
        if cond[0] == 'bin' and cond[1] in ('==', '!=', '>') and cond[3] == C0: x = cond[2]; z = tr == (cond[1] == '==')
        if x[0] == 'call' and x[1] in ('vsize', 'vempty'): return st.ts | {('nz', x[2], int(not (z if x[1] == 'vsize' else not z)))}
        def islen(t):
            for i in range(4):
                if contains(t, ('call', 'len', i)) or t == ('call', 'len', i): return i
            return None
        if cond[0] == 'bin' and cond[1] in ('==', '!=', '>', '<') and cond[3] == C0: ln = islen(cond[2]); eq = tr == (cond[1] == '==')
        elif cond[0] == 'bin' and cond[1] in ('==', '!=') and cond[2] == C0: ln = islen(cond[3]); eq = tr == (cond[1] == '==')
        else:
            ln = islen(cond); eq = not tr
        if ln is not None: return st.ts | {('zero', ln, int(eq))}
        return None
    def on_call(self, S, st, c):
        f = c.f or ''; nm = f.split('::')[-1]; ts = st.ts
        if f.endswith(('::is_literal_ele', '::is_entity_ele')) and c.args:
            a = c.args[0]; lit = f.endswith('literal_ele')
            sx = self.coll(strip(a[2])) if a[0] == 'call' and a[1] == 'el' else None
            return [(('c', int((sx is not None and sx[1] == 'L') == lit)), ts)]
        cur = next((x[1] for x in ts if x[0] == 'cur'), None)
        if is_ask(c.n) or f in self.LEAF:
            a = self.arr(c)
            if a is None: return None
            if f == 'IVArray::insert' and len(c.args) < 3: return None
            k, key = self.akey(a, c.args[0])
            if cur is None: return None
            self.seen[cur[1]] = self.seen.get(cur[1], 0) + 1
            ok = key == ('call', 'el', ('arg', 'SOLP'.index(cur[1]), self.F.params['SOLP'.index(cur[1])]['n'])) and a == cur[1] and (a != 'L' or k == 'O')
            if not ok: self.rep('key:%s:%s' % (cur[1], f), c, 'the checkpoint of a key of the %s index works on another key or index' % TXT[cur[1]], st)
            if is_ask(c.n):
                if self.has(ts, 'rd'): return None
                if self.has(ts, 'clean'): self.rep('early:' + cur[1], c, 'the versions of a key (%s) are discarded before they are read' % TXT[cur[1]], st)
                L = lambda i: S.loc(c.F, c.frame, st, {}, c.n['args'][i])
                t2 = ts | {('rd', L(3), L(4)), ('ver', 0)}
                return [(C1, t2 | {('base', 1)}, [('set', (L(1), ('c', V0))), ('set', (L(2), ('call', 'len', 0)))]),
                        (C1, t2 | {('base', 0)}, [('set', (L(1), C0)), ('set', (L(2), ('call', 'len', 0)))])]
            op = self.LEAF[f]
            if op == 'clean':
                if self.has(ts, 'clean'): self.rep('clean2:' + cur[1], c, 'the versions of a key (%s) are discarded twice: the second time discards others' % TXT[cur[1]], st)
                if not self.has(ts, 'rd'): self.rep('early:' + cur[1], c, 'the versions of a key (%s) are discarded before they are read' % TXT[cur[1]], st)
                return [(C1, ts | {('clean',)})]
            v = self.ver(ts); base = [x[1] for x in self.has(ts, 'base')]; zero = {x[2] for x in ts if x[0] == 'zero' and x[1] == v}
            if op in ('add', 'set'):
                val = c.args[1]
                want = ('c', V0 + v) if v or base == [1] else C0
                if val != want: self.rep('stale:' + cur[1], c, 'the checkpoint stores an old list of a key (%s): changes committed since are lost' % TXT[cur[1]], st)
                if base == [1] and op == 'add' or base == [0] and op == 'set': self.rep('how:' + cur[1], c, 'a list that is %s is stored as if it were %s, which does nothing' % (('new', 'there') if op == 'set' else ('there', 'new')), st)
                if zero == {1}: self.rep('empty:' + cur[1], c, 'an empty list is stored for a key (%s)' % TXT[cur[1]], st)
            if op == 'rm' and zero != {1}: self.rep('lost:' + cur[1], c, 'a key (%s) is removed although its merged list was not found empty' % TXT[cur[1]], st)
            return [(C1, ts | {('put', op, len(self.has(ts, 'put')))})]
        if f.startswith('KVstore::') and nm.startswith(self.MERGE) and cur is not None:
            L = lambda i: S.loc(c.F, c.frame, st, {}, c.n['args'][i])
            ins = nm.startswith('Insert_'); v = self.ver(ts)
            src = {x[2] for x in ts if x[0] == 'from' and x[1] == L(0)}
            ar = {'s': 'S', 'o': 'OL', 'p': 'P'}.get(nm.split('_')[1][:1], '')
            if cur[1] not in ar: self.rep('merge:' + cur[1], c, 'the list of a key (%s) is merged as one of another index' % TXT[cur[1]], st)
            if src - {'A' if ins else 'D'}: self.rep('mix:' + cur[1], c, 'the checkpoint %s the %s of a key (%s)' % (('adds', 'removals') if ins else ('removes', 'additions')) + (TXT[cur[1]],) if False else 'additions and removals of a key (%s) are mixed up' % TXT[cur[1]], st)
            base = [x[1] for x in self.has(ts, 'base')]
            want = ('c', V0 + v) if v or base == [1] else C0
            if c.args[1] != want: self.rep('old:' + cur[1], c, 'the merge of a key (%s) starts from an old list' % TXT[cur[1]], st)
            if ins and self.has(ts, 'merged', 'D'): self.rep('order:' + cur[1], c, 'removals of a key (%s) are merged before its additions: a triple added and removed stays' % TXT[cur[1]], st)
            return [(C1, ts | {('ver', v + 1), ('merged', 'A' if ins else 'D')}, [('set', (L(3), ('c', V0 + v + 1))), ('set', (L(4), ('call', 'len', v + 1)))])]
        if nm in ('size', 'empty') and c.obj and ('vector<unsigned' in f or strip(c.obj) in getattr(self, 'locs', ())) and c.k == 'call': return [(('call', 'v' + nm, strip(c.obj)), ts)]
        if nm in ('push_back', 'emplace_back') and c.args and cur is not None:
            rd = next((x for x in ts if x[0] == 'rd'), None)
            a = c.args[-1]
            if rd:
                for s_, l_ in (('A', rd[1]), ('D', rd[2])):
                    if contains(a, l_): return [(None, ts | {('from', strip(c.obj), s_)})]
            return None
        return self.set_call(S, st, c)

def vacuum(ctx, P):
    F = P.one('KVstore::IVArrayVacuum'); r = VAC(F); S = Sim(P, r, cap=6000); n = 0
    for st, rv, kind in S.run(F, frozenset()):
        if kind != 'ret': continue
        n += 1
        for k in 'SOLP':
            if ('full', ('K', k)) not in st.ts: r.bad.setdefault('all:' + k, ('%s:%s' % (F.file, F.line), 'the checkpoint does not go through every changed key of the %s index' % TXT[k], trace(st)))
    for k, (w, t, tr) in r.bad.items(): ctx.violation('vacuum:' + k, w, t, tr)
    ctx.use(S); ctx.need(n, 1, 'paths of the clean-up')
    for k in 'SOLP':
        if not r.bad: ctx.need(r.seen.get(k, 0), 3, 'steps of the clean-up on the %s index' % TXT[k])
        for s_, t_ in (('A', 'additions'), ('D', 'removals')):
            if (k, s_) not in r.did and not r.bad: ctx.violation('vacuum:never:%s%s' % (s_, k), '%s:%s' % (F.file, F.line), 'the checkpoint never merges the %s of a changed key of the %s index into its list' % (t_, TXT[k])); r.bad['x:' + k] = 1
        ctx.ob('clean-up of a key of the %s index: versions read, merged, discarded once, result stored (%d steps followed)' % (TXT[k], r.seen.get(k, 0)), not [x for x in r.bad if ':' + k in x])

def check(ctx):
    P = ctx.prog(['KVstore/KVstore.cpp', 'Util/Transaction.cpp', 'Database/Txn_manager.cpp', 'Database/Database.cpp'])
    ends(ctx, P)
    readers(ctx, P)
    handover(ctx, P)
    vacuum(ctx, P)
