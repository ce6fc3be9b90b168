"""Names that are not there.  In every function of the server that a request can start, each lookup in a registry (map find), each
pointer obtained from one of the registry getters (loaded database, database entry, transaction manager, transaction), and each
opened file is followed on every path: it may only be dereferenced (or handed to a stream function) on paths where the lookup is
known to have found something.  A pointer that is null on a path may be passed on only to a function that does not dereference it
(the callee is analysed with that parameter null)."""
from common import *
from c17 import entries, tasks
RULE = 'path-sensitive null / end-iterator dereference analysis of lookups, with callee summaries for null arguments'
TUS = ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'Database/Txn_manager.cpp', 'Util/Util.cpp']
OPEN = {'fopen', 'fopen64', 'popen', 'opendir'}
FILEFN = {'fputs', 'fputc', 'fprintf', 'fclose', 'fgets', 'fgetc', 'getc', 'fread', 'fwrite', 'fflush', 'fseek', 'ftell', 'rewind', 'feof', 'fscanf', 'pclose', 'readdir', 'closedir', 'fileno', 'ferror', 'setvbuf', 'flock', 'vfprintf'}
SAFE = {'fclose': False}
def short(f): return (f or '').split('::')[-1]
def inscope(F): return F.file.startswith(('Main/', 'GRPC/', 'Util/', 'Database/Txn'))
def isfind(n):
    f = n.get('f') or ''
    return n.get('k') == 'call' and short(f) == 'find' and ('map<' in f or 'set<' in f)
def source(n): return n.get('k') == 'call' and (isfind(n) or ((n.get('f') or '').replace('std::', '') in OPEN))
def ptr(t): return t.strip().endswith('*') or 'shared_ptr<' in t

class R29(Rule):
    depth = 3
    ret_matters = True; all_branches = True
    def __init__(self, P, getters):
        self.P = P; self.getters = getters; self.found = {}; self.sites = {}; self.memo = {}; self.quiet = 0
    def wants(self, F, n):
        k = n.get('k')
        if k == 'call':
            f = n.get('f') or ''
            if source(n) or f in FILEFN or f.startswith('std::') and short(f) in FILEFN or n.get('u') in self.getters: return True
            if short(f) in ('insert', 'emplace', 'erase', 'clear', 'operator->', 'operator*') and ('map<' in f or '_Rb_tree' in f or 'shared_ptr' in f): return True
            G = self.P.fns.get(n.get('u'))
            return G is not None and (any(ptr(q['t']) for q in G.params) or n.get('a') or not f.startswith('std::') and n.get('o', -1) >= 0)
        if k == 'mem': return bool(n.get('a')) or 'pair<' in (n.get('q') or '')
        return k == 'un' and n.get('op') == '*' or k == 'ret' and (ptr(F.rt) or F.rt == 'bool') or k == 'asg' and ptr(n.get('t', ''))
    def opaque_throws(self, G): return False
    def no_inline(self, F, st=None): return not (F.new or F.u in self.getters)
    def missing(self, S, st, x):
        """x is dereferenced: None fine, else what is wrong"""
        if x is None: return None
        if x[0] == 'find':
            h = ('has', x[1], x[2])
            t = True if h in st.ts else False if ('hasnot',) + h[1:] in st.ts else S.truth(st, h)
            if t is True or ('insd', x[1]) in st.ts: return None
            return 'the entry for %s is used although the lookup may have found nothing' % show(x[2]) if t is None else 'the entry for %s is used where the lookup found nothing' % show(x[2])
        if x[0] in ('c', 'cat') or x == ('null',): return 'a null pointer is dereferenced' if x in (C0, ('null',)) else None
        if x[0] in ('h', 'f', 'r', 'arg') and (S.truth(st, x) is False or ('null', x) in st.ts): return 'a pointer that is null on this path is dereferenced (%s)' % show(x)
        return None
    def site(self, S, st, F, line, x, what):
        if self.quiet: k = ('q', F.q, what)
        w = '%s:%s' % (F.file, line)
        t = self.missing(S, st, x)
        k = (F.q, w, what)
        if x is not None and (x[0] == 'find' or t): self.sites[k] = self.sites.get(k, True) and not t
        if t and k not in self.found: self.found[k] = (w, t, trace(st))
    def on_load(self, S, st, l, n):
        if l[0] in ('f', 'deref') and l[1][0] in ('find', 'c', 'r', 'f', 'arg', 'loc', 'unk', 'h'):
            if l[0] == 'f' and l[1] == ('this',): return
            F = self.cur
            if l[0] == 'f' and l[1][0] != 'find' and not self.arrow(n): return
            self.site(S, st, F, n.get('l', 0), l[1], short(l[2]) if l[0] == 'f' else '*')
    def arrow(self, n): return n.get('a') or n.get('k') == 'un'
    def isset(self, m):
        """membership in a set: its iterators are only compared"""
        if m[0] != 'f': return False
        c, f = m[2].rsplit('::', 1) if '::' in m[2] else ('', m[2])
        return any(x['n'] == f and 'set<' in x['t'] and 'map<' not in x['t'] for x in self.P.records.get(c, {}).get('fields', []))
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'bin' and (cond[1] == '&&' and tr or cond[1] == '||' and not tr):
            for x in cond[2:4]:
                ts = self.on_branch(S, st, x, tr)
                if ts is not None: st = st.copy(); st.ts = ts
            return st.ts
        if cond[0] == 'has' and self.isset(cond[1]): return None
        if cond[0] == 'has': return frozenset(x for x in st.ts if x[1:3] != cond[1:3]) | {('has' if tr else 'hasnot', cond[1], cond[2])}
        if cond[0] == 'bin' and cond[1] == '==' and cond[3] == C0: cond = cond[2]; tr = not tr
        if cond[0] in ('h', 'f', 'r', 'arg') and not tr: return st.ts | {('null', cond)}
        return None
    def on_call(self, S, st, c):
        if isfind(c.n): return None
        f = c.f or ''
        if f.startswith('std::') and short(f) in (FILEFN | OPEN): f = short(f)
        if c.obj is not None and short(f) in ('insert', 'emplace') and 'map<' in f: return [(None, frozenset(x for x in st.ts if x[0] != 'hasnot' or x[1] != c.obj) | {('insd', c.obj)})]
        if c.obj is not None and short(f) in ('erase', 'clear') and 'map<' in f: return [(None, frozenset(x for x in st.ts if not (x[0] in ('has', 'insd') and x[1] == c.obj)))]
        if f in OPEN:
            h = ('h', c.F.u, c.n.get('l', 0), c.nid)
            return [(h, st.ts, [(h, True)]), (C0, st.ts)]
        if f in FILEFN:
            for i, a in enumerate(c.args):
                a = strip(a)
                at = 0 if f in ('fprintf', 'vfprintf', 'fscanf', 'fseek', 'setvbuf', 'flock') else len(c.args) - 1
                if a == C0 and f not in ('fflush',) and i == at or a[0] == 'h' and S.truth(st, a) is False:
                    self.site(S, st, c.F, c.line(), a, f)
            return None
        if c.obj is not None and short(f) not in ('operator==', 'operator!=', 'reset', 'get', 'operator bool', 'swap', 'operator='):
            o = c.obj
            if o[0] == 'find' or (o == C0 or S.truth(st, o) is False) and not o[0] in ('s', 'find', 'has', 'cmp3'): self.site(S, st, c.F, c.line(), o, short(f))
        G = self.P.fns.get(c.n.get('u'))
        if G is not None and not self.quiet and not G.new and c.k == 'call':
            for i, a in enumerate(c.args):
                if i < len(G.params) and ptr(G.params[i]['t']) and (a == C0 or S.truth(st, a) is False and a[0] in ('h', 'f', 'r')):
                    bad, rv = self.nullarg(G, i)
                    if rv is not None and not bad: return [(rv, st.ts)]
                    if bad:
                        k = (c.F.q, '%s:%s' % (c.F.file, c.line()), 'null:' + G.name)
                        self.sites[k] = False
                        if k not in self.found: self.found[k] = (k[1], '%s is handed a null pointer, which it dereferences' % G.name, trace(st))
        if G is not None and c.n.get('t') == 'bool' and not G.new and G.u not in self.getters: return [(C1, st.ts), (C0, st.ts)]
        return None
    def nullarg(self, G, i):
        """(is parameter i dereferenced when it is null, the constant answer in that case)"""
        if (G.u, i) in self.memo: return self.memo[G.u, i]
        self.memo[G.u, i] = (False, None)
        r = R29(self.P, self.getters); r.quiet = 1; r.memo = self.memo
        S = Sim(self.P, r, cap=2000)
        r.cur = G
        rvs = set()
        def pre(S, st):
            S.assume(st, ('arg', i, G.params[i]['n']), False)
        try:
            for st, rv, kind in S.run(G, frozenset({('null', ('arg', i, G.params[i]['n']))}), pre=pre):
                if kind == 'ret': rvs.add(rv)
            rv = rvs.pop() if len(rvs) == 1 else None
            self.memo[G.u, i] = (any('null' in v[1] for v in r.found.values()), rv if rv in (C0, C1) else None)
        except TooBig: pass
        return self.memo[G.u, i]

def check(ctx):
    P = ctx.prog(TUS)
    ents = entries(P) + tasks(P)
    reach = P.forward([F.u for F in ents])
    scope = [P.fns[u] for u in sorted(reach) if u in P.fns and inscope(P.fns[u])]
    getters = set()
    for F in scope:
        if any(source(n) for i, n in F.calls()) and (ptr(F.rt) or any(q['t'].replace(' ', '').endswith('*&') for q in F.params)): getters.add(F.u)
    roots = [F for F in scope if not F.new and (any(source(n) or n.get('u') in getters for i, n in F.calls()))]
    r = R29(P, getters)
    S = Sim(P, r, cap=3000)
    big = []
    for F in roots:
        r.cur = F
        try: S.run(F, frozenset())
        except TooBig: big.append(F.q)
    ctx.use(S)
    for k, ok in sorted(r.sites.items()): ctx.ob('%s: %s at %s' % (k[0], k[2], k[1]), ok)
    for k, (w, t, tr) in r.found.items(): ctx.violation('%s:%s' % (k[0], k[2]), w, t, tr)
    ctx.notes.append('getters: ' + ', '.join(sorted(P.fns[u].q for u in getters)))
    if big: ctx.notes.append('too large: ' + ', '.join(big))
    ctx.need(len(r.sites), 20, 'uses of looked up entries')
