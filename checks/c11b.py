"""Reading a key inside a transaction: the versions the isolation level grants (found by IVArray::search) have to be merged into the
stored list before anything is taken from it.  Every path of every transactional reader: what was collected from the additions is
merged first, then what was collected from the removals, both into the newest list, and nothing is read from an older list."""
from c10 import *

class MRG(VAC):
    depth = 4
    def __init__(self, F): VAC.__init__(self, F); self.asks = 0; self.did = set(); self.locs = {}
    def no_inline(self, F, st=None): return F.cls not in ('KVstore',) or F.name.startswith(self.MERGE) or F.name in ('intersect', 'binarySearch') or F.name in READERS
    def coll(self, t): return self.locs.get(t)
    def element(self, S, st, sx, el): return st.ts
    def visit(self, S, st, sx): return st.ts
    def finished(self, S, st, c, sx): return st.ts | {('seen', sx[1])}
    def load_value(self, S, st, l):
        return SetRule.load_value(self, S, st, l)
    def on_load(self, S, st, loc, n):
        if loc[0] == 'idx' and loc[1][0] == 'c' and V0 <= loc[1][1] < V0 + 8: self.use(S, st, loc[1], n.get('l', 0))
        elif loc[0] == 'idx' and loc[1][0] == 'bin' and contains(loc[1], ('c', V0)): self.use(S, st, ('c', V0), n.get('l', 0))
    def use(self, S, st, v, line):
        k = v[1] - V0
        if ('cur', ('K', '?')) in st.ts or self.has(st.ts, 'rd'):
            if k < self.ver(st.ts): self.bad.setdefault('stale', ('%s:%s' % (self.F.file, line), 'the answer is taken from the list before the versions of the transaction were merged', trace(st)))
            else: self.finish(S, st, 'answered')
    def finish(self, S, st, how):
        ts = st.ts
        if ('got',) not in ts: return
        for s_, t_ in (('A', 'additions'), ('D', 'removals')):
            lists = {x[1] for x in self.has(ts, 'from') if x[2] == s_}
            empty = {x[1] for x in self.has(ts, 'nz') if x[2] == 0}
            if self.has(ts, 'merged', s_): self.did.add(s_)
            elif lists - empty or not lists and ('seen', s_) not in ts and not any(self.locs.get(x) == ('V', s_) for x in empty): self.bad.setdefault('unmerged:' + s_, ('%s:%s' % (self.F.file, self.F.line), 'a key is %s without merging the %s the transaction can see' % (how, t_), trace(st)))
    def ended(self, S, st, c, sx, el): return st.ts
    def wants(self, F, n):
        return VAC.wants(self, F, n) and (n.get('f') or '') not in self.LEAF or n.get('k') == 'idx' or n.get('k') == 'call' and (n.get('f') or '').split('::')[-1] == 'binarySearch'
    def on_call(self, S, st, c):
        f = c.f or ''; nm = f.split('::')[-1]
        if is_ask(c.n):
            a = self.arr(c)
            if a is None: return None
            self.asks += 1
            ts = frozenset(x for x in st.ts if x[0] not in ('cur', 'rd', 'ver', 'from', 'nz', 'merged', 'base', 'zero', 'got', 'seen'))
            L = lambda i: S.loc(c.F, c.frame, st, {}, c.n['args'][i])
            self.locs[L(3)] = ('V', 'A'); self.locs[L(4)] = ('V', 'D')
            t2 = ts | {('cur', ('K', a)), ('rd', L(3), L(4)), ('ver', 0)}
            ln = ('set', (L(2), ('call', 'len', 0)))
            return [(C1, t2 | {('base', 1), ('got',)}, [('set', (L(1), ('c', V0))), ln]), (C1, t2 | {('base', 0), ('got',)}, [('set', (L(1), C0)), ln]), (C0, t2 | {('base', 0)}, [('set', (L(1), C0)), ln])]
        if f in self.LEAF: return None
        if f.endswith(('::is_literal_ele', '::is_entity_ele')): return None
        if nm in ('memcpy', 'binarySearch', 'memmove'):
            for a in c.args:
                for x in walkc(a):
                    if x[0] == 'c' and isinstance(x[1], int) and V0 <= x[1] < V0 + 8: self.use(S, st, x, c.line())
            return None
        return VAC.on_call(self, S, st, c)

def walkc(t):
    if isinstance(t, tuple):
        if t and t[0] == 'c' and len(t) == 2: yield t
        else:
            for x in t: yield from walkc(x)

def merging(ctx):
    P = ctx.prog(['KVstore/KVstore.cpp', 'Util/Transaction.cpp'])
    tot = 0
    for F in P.cls_fns('KVstore'):
        if not F.blocks or F.name not in READERS: continue
        ti = [i for i, p in enumerate(F.params) if 'Transaction' in p['t']]
        if not ti: continue
        ti = ti[0]
        r = MRG(F); S = Sim(P, r, cap=6000); n = 0
        for st, rv, kind in S.run(F, frozenset(), pre=lambda S, st: S.fact(st, ('arg', ti, F.params[ti]['n']), C0, False)):
            if kind != 'ret': continue
            n += 1
            r.finish(S, st, 'answered')
        if not r.asks: continue
        tot += 1
        if not r.bad:
            for s_, t_ in (('A', 'additions'), ('D', 'removals')):
                if s_ not in r.did: r.bad['never:' + s_] = ('%s:%s' % (F.file, F.line), 'the %s a transaction can see are never merged into the list it reads' % t_, [])
        for k, (w, t, tr) in r.bad.items(): ctx.violation('merge:%s:%s' % (F.name, k), w, '%s: %s' % (F.name, t), tr)
        ctx.use(S)
        ctx.ob('%s (%d parameters): visible versions merged, additions first, before the answer is taken (%d paths)' % (F.name, len(F.params), n), not r.bad)
    ctx.need(tot, 8, 'transactional readers')
