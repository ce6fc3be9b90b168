"""One triple, three indexes.  (A) Every path of the two functions that put a triple into, or take it out of, the indexes changes
exactly once the list of its subject, of its object (literal or not) and of its predicate, each under the right key of the right
array and, inside a transaction, with the right pair.  (B) The batch changes start the same kind of change of the same triples for
all three indexes and wait for all of them.  (C) The grouping of a batch: what was collected for a key is applied, under that key,
before the key changes and before the end, and is never applied twice; triples are ordered by that key first."""
from common import *
RULE = 'path-sensitive effect matching of index changes (one per index), typestate of the batch grouping'
ARR = {'KVstore::subID2values': 9001, 'KVstore::objID2values': 9002, 'KVstore::preID2values': 9003, 'KVstore::objID2values_literal': 9004}
NAME = {9001: 'S', 9002: 'O', 9003: 'P', 9004: 'L'}
LEAF = {'IVArray::insert': 'put', 'IVArray::modify': 'put', 'IVArray::remove': 'del'}
FLD = {'subid': 's', 'preid': 'p', 'objid': 'o'}

class RA(Rule):
    ret_matters = True; depth = 8
    def __init__(self, lit, txn, ids):
        self.lit = lit; self.txn = txn; self.ids = ids; self.bad = {}; self.sites = set()
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2] in ARR: return ('c', ARR[l[2]])
        return None
    def wants(self, F, n):
        f = n.get('f') or ''
        return n.get('k') == 'call' and (f in LEAF or f.endswith('::is_literal_ele') or f.endswith('::is_entity_ele') or f.split('::')[-1] in ('insert', 'emplace') and 'set<std::pair<' in f)
    def no_inline(self, F, st=None): return F.cls != 'KVstore'
    def opaque_throws(self, G): return False
    def summarise(self, F): return True
    def kind(self, t):
        for k, v in self.ids.items():
            if t == v: return k
        return None
    def on_call(self, S, st, c):
        f = c.f or ''
        if f.endswith('::is_literal_ele') or f.endswith('::is_entity_ele'):
            lit = self.kind(c.args[0]) == 'o' and self.lit
            return [(('c', int(lit == f.endswith('literal_ele'))), st.ts)]
        if f in LEAF:
            w = '%s:%s' % (c.F.file, c.line()); self.sites.add(w)
            a = NAME.get(c.obj[1]) if c.obj and c.obj[0] == 'c' else NAME.get(ARR.get(c.obj[2])) if c.obj and c.obj[0] == 'f' else None
            if a is None: return None
            k = c.args[0]; kk = self.kind(k)
            if kk is None and k[0] == 'bin' and k[1] == '-' and self.kind(k[2]) == 'o' and k[3][0] == 'c': kk = 'l'
            pairs = {'S': 'po', 'O': 'ps', 'L': 'ps', 'P': 'so'}
            st_ = sorted(x[1] for x in st.ts if x[0] == 'st')
            if LEAF[f] == 'put' and not self.txn and any(x not in pairs[a] for x in st_): self.bad[w] = (a, st_, trace(st))
            pair = next((x[1] for x in st.ts if x[0] == 'pair'), None) if self.txn and any('set<std::pair<' in (c.F.nodes[x].get('t') or '') for x in c.n.get('args', [])) else None
            ent = ('ix', a, LEAF[f] , kk, pair, sum(1 for x in st.ts if x[0] == 'ix'), w)
            if f == 'IVArray::insert' or True:
                return [(('r', f, c.frame, c.nid), frozenset(x for x in st.ts if x[0] not in ('pair', 'st')) | {ent})]
        if f.split('::')[-1] in ('insert', 'emplace') and 'set<std::pair<' in f:
            v = c.args[-1] if c.args else None
            if v is not None and v[0] in ('il', 'pair'): return [(None, st.ts | {('pair', tuple(self.kind(x) for x in v[1:]))})]
            if len(c.args) == 2: return [(None, st.ts | {('pair', tuple(self.kind(x) for x in c.args))})]
            return [(None, st.ts | {('pair', None)})]
        return None
    def on_store(self, S, st, loc, val, n):
        k = self.kind(val)
        return st.ts | {('st', k)} if k and loc[0] == 'idx' else None

def partA(ctx, P):
    for q, op in (('KVstore::updateTupleslist_insert', 'put'), ('KVstore::updateTupleslist_remove', 'del')):
        F = P.one(q)
        idp = [p for p in F.params if 'Transaction' not in p['t']]
        ctx.need(len(idp), 3, 'ID parameters of ' + q)
        ids = {k: ('arg', i, p['n']) for i, (k, p) in enumerate(zip('spo', F.params))}
        ti = next(i for i, p in enumerate(F.params) if 'Transaction' in p['t'])
        for txn in (False, True):
            for lit in (False, True):
                r = RA(lit, txn, ids); S = Sim(P, r, cap=3000); n = 0; bad = set()
                tp = F.params[ti]
                pre = (lambda S, st: st.mem.__setitem__(('loc', 0, tp['v'], tp['n']), C0)) if not txn else (lambda S, st: S.fact(st, ('arg', ti, tp['n']), C0, False))
                for st, rv, kind in S.run(F, frozenset(), pre=pre):
                    if kind != 'ret' or S.truth(st, rv) is False: continue
                    n += 1
                    ev = sorted((x for x in st.ts if x[0] == 'ix'), key=lambda x: x[5])
                    want = {'S': 's', 'L' if lit else 'O': 'l' if lit else 'o', 'P': 'p'}
                    pairs = {'S': ('p', 'o'), 'O': ('p', 's'), 'L': ('p', 's'), 'P': ('s', 'o')}
                    def rep(kind, text):
                        if (kind) in bad: return
                        bad.add(kind)
                        ctx.violation('%s:%s' % (q.split('::')[1], kind), ev[0][6] if ev else '%s:%s' % (F.file, F.line), '%s (%s, %s object): %s' % (q, 'in a transaction' if txn else 'outside transactions', 'literal' if lit else 'entity', text), trace(st))
                    for a, k in want.items():
                        m = [x for x in ev if x[1] == a]
                        nm = {'S': 'subject', 'O': 'object', 'L': 'literal object', 'P': 'predicate'}[a]
                        if not m: rep('missing:' + a, 'the change is reported done although the %s index was not changed' % nm); continue
                        if len(m) > 1: rep('twice:' + a, 'the %s index is changed %d times' % (nm, len(m)))
                        for x in m:
                            if x[3] is not None and x[3] != k: rep('key:' + a, 'the %s index is changed under a wrong key' % nm)
                            if txn and x[2] != op: rep('op:' + a, 'the %s index is changed the other way round' % nm)
                            if not txn and op == 'put' and x[2] == 'del': rep('op:' + a, 'the list of the %s is removed by an insertion' % nm)
                            if txn and x[4] is not None and None not in x[4] and tuple(x[4]) != pairs[a]: rep('pair:' + a, 'the %s index gets a wrong pair' % nm)
                    for x in ev:
                        if x[1] not in want: rep('extra:' + x[1], 'an index that does not hold the triple is changed')
                for w, (a, k, tr) in r.bad.items():
                    if 'content:' + a not in bad:
                        bad.add('content:' + a)
                        ctx.violation('%s:content:%s' % (q.split('::')[1], a), w, '%s: the list of the %s index is written with the %s of the triple' % (q, a, ' and '.join({'s': 'subject', 'p': 'predicate', 'o': 'object'}[x] for x in k)), tr)
                ctx.use(S)
                ctx.need(n, 1, 'successful paths of ' + q)
                ctx.need(len(r.sites), 1, 'index changes below ' + q)
                ctx.ob('%s, %s, %s object: each of the three indexes changed once, right key%s (%d outcomes, %d change sites)' % (q, 'transaction' if txn else 'no transaction', 'literal' if lit else 'entity', ', right pair' if txn else '', n, len(r.sites)), not bad)

# ---------------------------------------------------------------- batches
class RB(Rule):
    depth = 4
    def __init__(self, kinds): self.kinds = kinds; self.seen = set()
    def fnref(self, F, n):
        st = list(n.get('args', [])); k = 0
        while st and k < 40:
            x = st.pop(); k += 1
            if x is None or x < 0: continue
            m = F.nodes[x]
            if m.get('k') == 'ref' and m.get('d') in ('func', 'method') or m.get('u'):
                if (m.get('q') or m.get('f') or '').endswith('::sub_batch_update') and m.get('k') != 'call': return True
            st += m.get('args', [])
        return False
    def wants(self, F, n):
        f = n.get('f') or ''
        if n.get('k') in ('ctor', 'new') and 'thread' in f and self.fnref(F, n): return True
        if n.get('k') == 'call' and f.split('::')[-1] in ('join', 'detach') and 'thread' in f: return True
        return n.get('k') == 'call' and f.endswith('::sub_batch_update')
    def no_inline(self, F, st=None): return F.cls != 'Database'
    def opaque_throws(self, G): return False
    def rename(self, ts, o, l): return frozenset(('run', x[1], x[2], l) if x[0] == 'run' and x[3] == o else x for x in ts)
    def on_call(self, S, st, c):
        f = c.f or ''; w = '%s:%s' % (c.F.file, c.line())
        if not self.wants(c.F, c.n): return None
        if f.split('::')[-1] in ('join', 'detach') and 'thread' in f:
            hit = [x for x in st.ts if x[0] == 'run' and x[3] == c.obj]
            return [(None, (st.ts - frozenset(hit)) | ({('det',)} if f.endswith('detach') and hit else frozenset()))]
        self.seen.add(w)
        ks = [a[1] for a in c.args if a[0] == 'c']
        ar = None
        args = c.args if c.k == 'call' else c.args[2:] if len(c.args) >= 7 or True else c.args
        ki = next((i for i, a in enumerate(c.args) if a[0] == 'c' and a[1] in self.kinds and 'UPDATE_TYPE' in (c.F.nodes[c.n['args'][i]].get('t') or '')), None)
        k = self.kinds[c.args[ki][1]] if ki is not None else '?'
        vi = next((i for i, a in enumerate(c.n['args']) if 'ID_TUPLE' in (c.F.nodes[a].get('t') or '') and 'vector' in (c.F.nodes[a].get('t') or '')), None)
        src = repr(S.loc(c.F, c.frame, st, {}, c.n['args'][vi])) if vi is not None else '?'
        n = sum(1 for x in st.ts if x[0] == 'upd')
        ts = st.ts | {('upd', k, src, n)}
        if c.k in ('ctor', 'new'):
            v = ('new', c.n['t'], c.frame, c.nid) if c.k == 'new' else ('obj', c.frame, c.nid)
            return [(v, ts | {('run', k, w, v)})]
        return [(None, ts)]

class RC(Rule):
    """grouping: E nothing collected, A collected and not applied, F applied and not cleared"""
    depth = 5
    def __init__(self, P, entry, kind):
        self.entry = entry; self.kind = kind; self.bad = {}; self.sites = set()
        self.key = {'S': 'subid', 'P': 'preid', 'O': 'objid'}[kind[0]]
        self.pair = {'S': ('preid', 'objid'), 'P': ('subid', 'objid'), 'O': ('preid', 'subid')}[kind[0]]
        self.want = 'update%s_%s2values' % ({'I': 'Insert', 'R': 'Remove'}[kind[2]], kind[0].lower())
    def rep(self, k, c, text, st):
        if k not in self.bad: self.bad[k] = ('%s:%s' % (c.F.file, c.line()) if c else '%s:%s' % (self.entry.file, self.entry.line), text, trace(st))
    def idf(self, n):   # a member of an ID tuple
        return n.get('k') == 'mem' and n.get('q', '').split('::')[-1] in FLD and 'ID_TUPLE' in n.get('q', '')
    def applies(self, n):
        f = (n.get('f') or '').split('::')[-1]
        return n.get('k') == 'call' and f[:6] == 'update' and f.endswith('2values')
    def wants(self, F, n):
        f = n.get('f') or ''
        if n.get('k') == 'call' and (self.applies(n) or f.split('::')[-1] in ('sort', 'stable_sort')): return True
        if n.get('k') == 'call' and f.split('::')[-1] in ('push_back', 'emplace_back', 'clear') and 'vector' in f: return True
        return n.get('k') in ('asg', 'decl')
    def no_inline(self, F, st=None): return F.cls != 'Database' or F.name == 'updateUmap'
    def opaque_throws(self, G): return False
    def member(self, v):
        if v[0] == 'f' and v[2].split('::')[-1] in FLD: return v[2].split('::')[-1]
        return None
    def on_call(self, S, st, c):
        f = c.f or ''; nm = f.split('::')[-1]; q, key, odd, last, srt = st.ts
        if nm in ('sort', 'stable_sort'):
            cmpf = next((a[2] for a in c.args if a[0] == 'fn'), None)
            if any('ID_TUPLE' in (c.F.nodes[x].get('t') or '') for x in c.n['args']): return [(None, (q, key, odd, last, cmpf or '?'))]
            return None
        if self.applies(c.n):
            self.sites.add('%s:%s' % (c.F.file, c.line()))
            if nm != self.want: self.rep('function', c, 'a batch of kind %s applies %s' % (self.kind, nm), st)
            if q == 'F': self.rep('again', c, 'the list of a key is applied again, or together with that of the key before it', st)
            if odd: self.rep('pairs', c, 'an incomplete pair is applied', st)
            k = c.args[0]; m = self.member(k)
            if m and m != self.key: self.rep('key', c, 'the list of a %s is applied under the %s of a triple' % (self.key, m), st)
            return [(('r', f, c.frame, c.nid), ('F', key, odd, None, srt))]
        if nm == 'clear':
            if q == 'A': self.rep('lost', c, 'what was collected for a key is dropped', st)
            return [(None, ('E', key, False, None, srt))]
        if nm in ('push_back', 'emplace_back'):
            v = c.args[0]; m = self.member(v)
            if m is None: return None
            if q == 'F': self.rep('carry', c, 'triples are collected for the next key together with those already applied', st)
            want = self.pair[1 if odd else 0]
            if m != want: self.rep('order', c, 'the pairs of the %s index are collected with the %s where the %s belongs' % (self.kind[0], m, want), st)
            if odd and last != v[1]: self.rep('mixed', c, 'a pair is collected from two different triples', st)
            return [(None, ('A', key, not odd, v[1], srt))]
        return None
    def on_store(self, S, st, loc, val, n):
        m = self.member(val)
        if m != self.key or loc[0] != 'loc': return None
        q, key, odd, last, srt = st.ts
        if q == 'A':
            if 'keychange' not in self.bad: self.bad['keychange'] = ('%s:%s' % (self.entry.file, n.get('l', self.entry.line)), 'the key changes while triples collected for the key before it are not applied', trace(st))
        return (q, True, odd, last, srt)

class Cmp(Rule):
    ret_matters = True; all_branches = True
    def __init__(self, a, b): self.v = (a, b)
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2].split('::')[-1] in FLD:
            b = strip(l[1])
            while b[0] == 'ref': b = strip(b[1])
            if b[0] == 'arg': return ('c', self.v[b[1]][l[2].split('::')[-1]])
        return None
    def opaque_throws(self, G): return False
    def inline_extra(self, F): return True
    def wants(self, F, n): return n.get('k') == 'ret'

def compare(P, F, a, b):
    out = set()
    S = Sim(P, Cmp(a, b))
    for st, rv, kind in S.run(F, 0):
        if kind == 'ret': out.add(S.truth(st, rv))
    return out

def partC(ctx, P, E):
    kinds = {}
    for nm, v in E.items():
        if '_' in nm and nm.split('_')[1] in ('INSERT', 'REMOVE'): kinds[v] = nm[0] + '_' + nm.split('_')[1][0]
    F = P.one('Database::sub_batch_update')
    ti = next(i for i, p in enumerate(F.params) if 'UPDATE_TYPE' in p['t']); xi = next(i for i, p in enumerate(F.params) if 'Transaction' in p['t'])
    for v, k in sorted(kinds.items()):
        r = RC(P, F, k); S = Sim(P, r, cap=3000); ends = set(); srts = set()
        def pre(S, st):
            p = F.params[ti]; st.mem[('loc', 0, p['v'], p['n'])] = ('c', v)
            p = F.params[xi]; st.mem[('loc', 0, p['v'], p['n'])] = C0
        n = 0
        for st, rv, kind in S.run(F, ('E', False, False, None, None), pre=pre):
            if kind != 'ret': continue
            n += 1; q, key, odd, last, srt = st.ts; srts.add(srt)
            if q == 'A': r.rep('end', None, 'batch of kind %s: what was collected for the last key is never applied' % k, st)
        ctx.use(S); ctx.need(len(r.sites), 1, 'applications for batches of kind %s' % k)
        for kk, (w, t, tr) in r.bad.items(): ctx.violation('batch:%s:%s' % (k, kk), w, t, tr)
        ok = not r.bad
        # order: the key decides first
        for s in srts:
            if s is None:
                if k[0] == 'S': continue      # sorted by subject before the batch starts, checked below
                ok = False; ctx.violation('order:' + k, '%s:%s' % (F.file, F.line), 'batch of kind %s: the triples are not ordered by the key' % k)
            elif s != '?': ok = order(ctx, P, s, r.key, k) and ok
        ctx.ob('batch of kind %s: all collected pairs are applied once under their key, keys contiguous (%d outcomes)' % (k, n), ok)
    return kinds

def order(ctx, P, q, key, what):
    Fs = [G for G in P.byname.get(q, []) if G.blocks]
    if not Fs: return True
    others = [x for x in FLD if x != key]
    for x in (0, 1):
        for y in (0, 1):
            lo = {key: 0, others[0]: x, others[1]: y}; hi = {key: 1, others[0]: 1 - x, others[1]: 1 - y}
            for a, b, w in ((lo, hi, True), (hi, lo, False)):
                o = compare(P, Fs[0], a, b)
                if (not w) in o:
                    ctx.violation('comparator:%s:%s' % (q, what), '%s:%s' % (Fs[0].file, Fs[0].line), '%s, which orders batches of kind %s, does not order by %s first' % (q, what, key))
                    return False
    return True

def check(ctx):
    P = ctx.prog(['KVstore/KVstore.cpp', 'Util/Util.cpp'])
    partA(ctx, P)
    P = ctx.prog(['Database/Database.cpp', 'Util/Util.cpp'])
    E = next((e['vals'] for q, e in P.enums.items() if q.split('::')[-1] == 'UPDATE_TYPE'), None)
    if not E: raise AnalysisBroken('no enum UPDATE_TYPE')
    kinds = partC(ctx, P, E)
    n = 0
    for q in ('Database::batch_insert', 'Database::batch_remove'):
        for F in P.get(q):
            if not any('TripleWithObjType' in p['t'] for p in F.params): continue
            xi = next(i for i, p in enumerate(F.params) if 'Transaction' in p['t'])
            r = RB(kinds); S = Sim(P, r, cap=3000); bad = set(); n += 1; m = 0
            def pre(S, st):
                p = F.params[xi]; st.mem[('loc', 0, p['v'], p['n'])] = C0
            want = {c + q[-6].upper().replace('E', 'R') for c in ()} or {'%s_%s' % (c, 'I' if q.endswith('insert') else 'R') for c in 'SPO'}
            for st, rv, kind in S.run(F, frozenset(), pre=pre):
                if kind != 'ret': continue
                up = [x for x in st.ts if x[0] == 'upd']
                def rep(kd, text):
                    if kd in bad: return
                    bad.add(kd); ctx.violation('%s:%s' % (q.split('::')[1], kd), '%s:%s' % (F.file, F.line), '%s: %s' % (q, text), trace(st))
                if any(x[0] == 'run' for x in st.ts): rep('join', 'returns while a thread that changes an index is not waited for')
                if ('det',) in st.ts: rep('join', 'a thread that changes an index is detached')
                if not up: continue
                m += 1
                got = sorted(x[1] for x in up)
                if '?' not in got and got != sorted(want): rep('kinds', 'changes %s instead of %s' % (', '.join(got), ', '.join(sorted(want))))
                if len(set(x[2] for x in up)) > 1: rep('tuples', 'the indexes are given different sets of triples')
            ctx.use(S); ctx.need(m, 1, 'paths of %s that change the indexes' % q)
            ctx.ob('%s: every path that changes an index changes all three, of the same triples, and waits' % q, not bad)
    ctx.need(n, 2, 'batch functions')
    # SUBJECT batches rely on the order in which the batch is handed over
    for q in ('Database::batch_insert', 'Database::batch_remove'):
        for F in P.get(q):
            for i, nd in F.calls():
                if (nd.get('f') or '').split('::')[-1] in ('sort', 'stable_sort') and any('ID_TUPLE' in (F.nodes[x].get('t') or '') for x in nd['args']):
                    for x in nd['args']:
                        m = F.nodes[x]
                        while m.get('k') in ('cast', 'un', 'ctor') and m.get('args'): m = F.nodes[m['args'][0]]
                        if m.get('d') == 'func': ctx.ob('%s hands over triples ordered by subject' % q, order(ctx, P, m.get('q'), 'subid', 'S'))
