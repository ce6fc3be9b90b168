"""Answers of the HTTP server.  Every path (exceptional ones included) of every function a route starts, of every function it
starts as a thread, and of every queued task is explored counting the answers begun (a status line written to the response).  A
path that hands the response to a thread or a queued task counts as answered there, and that work is an entry of its own.  Every
path must end with exactly one answer, and no exception may leave a function that runs as a thread or task."""
from common import *
from c17 import entries
RULE = 'path-sensitive counting of answers per request, exceptional paths included'

TUS = ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'Database/Database.cpp', 'Database/Txn_manager.cpp', 'Parser/QueryParser.cpp', 'Parser/SPARQL/SPARQLParser.cpp', 'Parser/RDFParser.cpp',
       'Parser/TurtleParser.cpp', 'Query/GeneralEvaluation.cpp', 'Query/PathQueryHandler.cpp', 'Query/TempResult.cpp', 'Database/Executor.cpp', 'Database/Optimizer.cpp', 'Util/EvalMultitypeValue.cpp',
       'Database/Join.cpp', 'KVstore/KVstore.cpp', 'StringIndex/StringIndex.cpp', 'Util/Util.cpp']

class R25(Rule):
    exc = True
    depth = 6
    def __init__(self, P):
        self.P = P; self.sites = set(); self.found = {}; self.handoff = set()
        self.runs = {}          # class -> methods that answer (queued work)
        self.ans = P.reach(lambda F: any(self.status(F, n) for i, n in F.calls()))
        for u in self.ans:
            F = P.fns[u]
            if F.cls and not F.cls.startswith('std') and F.file.startswith('Main/') and F.name != F.cls.split('::')[-1] and '(anonymous' not in F.cls: self.runs.setdefault(F.cls, set()).add(u)
    def text(self, F, i, d=0):
        if i is None or i < 0 or d > 4: return ''
        n = F.nodes[i]
        if n.get('k') == 'str': return n['s']
        if n.get('k') in ('ctor', 'cast') and n.get('args'): return self.text(F, n['args'][0], d + 1)
        if n.get('k') == 'call' and n.get('op') == '+':
            a = ([n['o']] if n.get('o', -1) >= 0 else []) + n.get('args', [])
            return self.text(F, a[0], d + 1)
        return ''
    def status(self, F, n):
        if n.get('k') != 'call' or n.get('op') != '<<': return False
        return any(self.text(F, a).startswith('HTTP/') for a in n.get('args', []))
    def given(self, F, n):
        """the response is handed to work that runs elsewhere: a thread, or an object whose class answers"""
        if n.get('k') not in ('ctor', 'new'): return False
        f = n.get('f') or ''
        if n['k'] == 'ctor' and any(m.get('k') == 'new' and m.get('u') == n.get('u') and m.get('args') == n.get('args') for m in F.nodes): return False
        hasresp = any('Response' in (F.nodes[a].get('t') or '') for a in n.get('args', []) if a >= 0)
        if not hasresp: return False
        if 'std::thread' in f or f.endswith('thread::thread'): return True
        c = self.P.fns.get(n.get('u'))
        return c is not None and c.cls in self.runs
    def wants(self, F, n): return F.u in self.ans and (self.status(F, n)) or self.given(F, n)
    def opaque_throws(self, G): return True
    def on_call(self, S, st, c):
        if c.k == 'call' and self.status(c.F, c.n) or self.given(c.F, c.n):
            w = '%s:%s' % (c.F.file, c.line())
            self.sites.add(w)
            if c.k != 'call': self.handoff.add(w)
            v = None
            if c.k == 'new': v = ('new', c.n['t'], c.frame, c.nid)
            if c.k == 'ctor': v = ('obj', c.frame, c.nid)
            return [(v, min(st.ts + 1, 2))]
        return None

def check(ctx):
    P = ctx.prog(TUS)
    r = R25(P); S = Sim(P, r, cap=60)
    ents = [(F, 'route') for F in entries(P)]
    threads = set()
    for F in P.fns.values():
        for i, n in F.calls():
            if r.given(F, n) and 'thread' in (n.get('f') or ''):
                for a in n.get('args', []):
                    m = F.nodes[a]
                    while m.get('k') in ('un', 'cast', 'ctor') and m.get('args'): m = F.nodes[m['args'][0]]
                    if m.get('u') in P.fns: threads.add(m['u'])
    es = dict((F.u, (F, w)) for F, w in ents)
    for u in threads: es[u] = (P.fns[u], 'thread')
    handed = {P.fns[n['u']].cls for F in P.fns.values() for i, n in F.calls() if r.given(F, n) and n.get('u') in P.fns}
    for c, us in r.runs.items():
        if c not in handed: continue
        for u in us:
            if not any(u in P.callees.get(v, ()) for v in us - {u}): es[u] = (P.fns[u], 'task')
    n = 0
    for F, w in sorted(es.values(), key=lambda x: x[0].line):
        if F.u not in r.ans and F.u not in S.interesting: 
            ctx.violation('none:' + F.name, '%s:%s' % (F.file, F.line), '%s is a route but never answers' % F.q) if w != 'route' or False else None
            continue
        n += 1; bad = False
        for st, rv, kind in S.run(F, 0):
            if kind == 'ret':
                if st.ts == 1: continue
                k = 'none' if st.ts == 0 else 'twice'
                t = '%s: a request gets no answer on some path' % F.q if st.ts == 0 else '%s: a request is answered twice on some path' % F.q
            else:
                if w == 'route' and st.ts == 1: continue     # the HTTP library drops the exception
                k = 'throw'; t = '%s (%s): an exception of type %s escapes: %s' % (F.q, w, kind[1], 'the server process ends' if w != 'route' else 'the request gets no answer')
            bad = True
            last = [x for x in trace(st)]
            ctx.violation('%s:%s:%s' % (k, F.q, (kind[1] if kind != 'ret' else '') ), '%s:%s' % (F.file, F.line), t, last)
        ctx.ob('%s (%s, line %d): exactly one answer on every path, no exception escapes' % (F.q, w, F.line), not bad)
    ctx.use(S)
    for w in sorted(r.sites): ctx.ob('%s at %s' % ('answer handed over' if w in r.handoff else 'answer', w))
    ctx.need(n, 5, 'entry points that answer'); ctx.need(len(r.sites), 5, 'answer sites')
