"""JSON of request bodies.  rapidjson asserts (the process aborts) when a member is looked up in something that is not an object,
when a missing member is indexed, and when a value is read as a type it does not have.  Every path of every function the HTTP
server's routes can start is explored with the typestate {value is known to be an object / a string / an int ..., member is known
to exist}, set only by the outcomes of IsObject / HasMember / IsString / IsInt / ..., and every lookup and typed read of parsed
text is an obligation to have the corresponding fact."""
from common import *
from c17 import entries
RULE = 'typestate of parsed JSON values: lookups and typed reads only after the check that makes them safe'
READ = {'GetString': ('String',), 'GetStringLength': ('String',), 'GetInt': ('Int',), 'GetUint': ('Uint',), 'GetInt64': ('Int64', 'Int'), 'GetUint64': ('Uint64', 'Uint'),
        'GetBool': ('Bool',), 'GetDouble': ('Double', 'Number', 'Int', 'LosslessDouble'), 'GetFloat': ('Float', 'Number', 'LosslessFloat'), 'GetArray': ('Array',), 'GetObject': ('Object',), 'Size': ('Array',),
        'Begin': ('Array',), 'End': ('Array',), 'Empty': ('Array',), 'MemberBegin': ('Object',), 'MemberEnd': ('Object',), 'MemberCount': ('Object',), 'HasMember': ('Object',), 'FindMember': ('Object',)}
def jn(n):
    f = n.get('f') or ''
    if n.get('k') == 'call' and f.startswith('rapidjson::Generic') and ('GenericValue' in f.split('<')[0] or 'GenericDocument' in f.split('<')[0]): return f.split('::')[-1]
    return None
def tested(nm): return nm[2:] if nm.startswith('Is') and nm[2:3].isupper() else None

class R32(Rule):
    exc = True
    depth = 6
    def __init__(self, P):
        self.P = P; self.found = {}; self.sites = {}; self.ok = {}; self.live = {}
        self.scope = P.reach(lambda F: F.file.startswith('Main/') and any(jn(n) == 'Parse' or jn(n) in READ for i, n in F.calls()))
    def wants(self, F, n):
        j = jn(n)
        return F.file.startswith('Main/') and j is not None and (j in READ or j == 'operator[]' or tested(j) is not None or j in ('Parse', 'SetObject', 'SetArray', 'AddMember'))
    def opaque_throws(self, G): return False
    def keys(self, F):
        """block -> string keys looked up in what is reachable from it (None: some lookup with another key)"""
        if F.u in self.live: return self.live[F.u]
        g = {}
        def lits(i, d=0):
            if i is None or i < 0 or d > 6: return set()
            n = F.nodes[i]
            if n.get('k') == 'str': return {n['s']}
            r = set()
            for a in list(n.get('args', [])) + [n.get('o', -1)]: r |= lits(a, d + 1)
            return r
        for bid, b in F.blocks.items():
            s = set()
            for e in b['e']:
                if isinstance(e, int):
                    n = F.nodes[e]
                    if n and n.get('k') in ('call', 'ctor', 'new'):
                        if jn(n):
                            for a in n.get('args', []): s |= lits(a)
                        elif n.get('u') in self.scope: s.add(None)
            g[bid] = s
        ch = True
        while ch:
            ch = False
            for bid, b in F.blocks.items():
                s = set(g[bid])
                for x in b.get('s', b.get('succs', [])):
                    if isinstance(x, int) and x in g: s |= g[x]
                if s != g[bid]: g[bid] = s; ch = True
        self.live[F.u] = g
        return g
    def prune_ts(self, F, bid, ts):
        if not ts or F.new or F.u not in self.scope: return ts      # what a helper finds out is used by its caller
        g = self.keys(F).get(bid, {None})
        def keep(x):
            if x[0] == 'parsed' or x[1] == 'Object': return True
            k = x[2] if x[0] == 'has' else x[2][2] if x[2][:1] == ('jv',) else None
            return k is None or k[0] != 's' or k[1] in g
        return frozenset(x for x in ts if keep(x))
    def root(self, v):
        while v and v[0] == 'jv': v = v[1]
        return v
    def isparsed(self, ts, v): return ('parsed', self.root(v)) in ts
    def oblige(self, S, st, c, ok, kind, text):
        w = '%s:%s' % (c.F.file, c.line())
        k = (c.F.q, w, kind)
        self.ok[k] = self.ok.get(k, True) and ok
        if not ok and k not in self.found: self.found[k] = (w, text, trace(st))
    def on_call(self, S, st, c):
        j = jn(c.n); ts = st.ts
        if j is None or not c.F.file.startswith('Main/') or c.obj is None: return None
        o = strip(c.obj)
        if j == 'Parse':
            t2 = frozenset(x for x in ts if x[0] == 'parsed' or self.root(x[1] if x[0] == 'has' else x[2]) != o) | {('parsed', o)}
            return [(('addr', o), t2)]
        if j in ('SetObject', 'AddMember'): return [(('addr', o), ts | {('is', 'Object', o)})] if self.isparsed(ts, o) else None
        if j == 'SetArray': return None
        t = tested(j)
        p = self.isparsed(ts, o)
        if t:
            if not p: return None
            if ('is', t, o) in ts: return [(C1, ts)]
            return [(C1, ts | {('is', t, o)}), (C0, ts)]
        if j == 'operator[]':
            k = strip(c.args[0])
            v = ('jv', o, k)
            if not p: return [(v, ts)]
            ints = k[0] == 'c' or c.F.nodes[c.n['args'][0]].get('t', '') in ('int', 'unsigned int', 'rapidjson::SizeType')
            if ints: self.oblige(S, st, c, ('is', 'Array', o) in ts, 'element', 'an element of request JSON is looked up without checking that it is an array')
            else: self.oblige(S, st, c, ('has', o, k) in ts, 'member', 'member %s of request JSON is looked up without having been found to exist: a request without it aborts the server' % show(k))
            return [(v, ts)]
        if j in READ:
            if not p: return None
            self.oblige(S, st, c, any(('is', x, o) in ts for x in READ[j]), j, '%s of %s without having checked that it is %s: a request with something else there aborts the server' % (j, self.nm(o), ' or '.join(READ[j])))
            if j == 'HasMember':
                k = strip(c.args[0])
                t2 = ts | {('is', 'Object', o)}
                if ('has', o, k) in ts: return [(C1, t2)]
                return [(C1, t2 | {('has', o, k)}), (C0, t2)]
            return [(('r', j, o), ts)] if False else None
        return None
    def nm(self, o): return 'member %s' % show(o[2]) if o[0] == 'jv' else 'request JSON'

def check(ctx):
    P = ctx.prog(['Main/ghttp.cpp'])
    r = R32(P); S = Sim(P, r, cap=3000)
    n = 0
    for F in entries(P):
        if F.u not in S.interesting: continue
        S.run(F, frozenset()); n += 1
    ctx.use(S)
    for k, ok in sorted(r.ok.items()): ctx.ob('%s in %s (%s)' % (k[2], k[0], k[1]), ok)
    for k, (w, t, tr) in r.found.items(): ctx.violation('%s:%s:%s' % (k[2], k[0], k[1]), w, t, tr)
    ctx.need(n, 1, 'request entry points that read JSON'); ctx.need(len(r.ok), 20, 'lookups and reads of request JSON')
