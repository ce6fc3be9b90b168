"""Guarded-by: every access to a guarded field happens while its lock is held in a sufficient mode, on every path from every
entry point (the lock set is the flow-sensitive one of LockRule)."""
from locks import *
READ_METH = {'find', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'count', 'at', 'lower_bound', 'upper_bound', 'equal_range',
             'back', 'front', 'get', 'load', 'c_str', 'length', 'data', 'top', 'substr'}

def parents(F):
    p = F.__dict__.get('_par')
    if p is None:
        p = {}
        for i, n in enumerate(F.nodes):
            if not n or n.get('k') == 'mref': continue
            ks = list(n.get('args', []))
            for k in ('o', 'b', 'fn', 'sz'):
                if k in n and isinstance(n[k], int) and n[k] >= 0: ks.append(n[k])
            for v in n.get('vars', []):
                if v['e'] >= 0: ks.append(v['e'])
            for j in ks: p.setdefault(j, i)
        F._par = p
    return p

def access_mode(F, nid, follow=lambda n, i: False):
    """'W' if the object named by node nid is modified in the expression around it (structure or content), else 'R'"""
    par = parents(F)
    x = nid; addr = False
    if F.nodes[nid].get('t', '').rstrip().endswith('*'):
        # a pointer: what it points to is another object, only the pointer itself is guarded here
        p = par.get(x); n = F.nodes[p] if p is not None else None
        while n and n.get('k') == 'cast': x = p; p = par.get(x); n = F.nodes[p] if p is not None else None
        if n and (n['k'] in ('idx', 'mem') or (n['k'] == 'un' and n['op'] == '*') or (n['k'] == 'call' and n.get('o') == x)): return 'R'
    while True:
        p = par.get(x)
        if p is None: return 'R'
        n = F.nodes[p]; k = n.get('k')
        if k == 'asg': return 'W' if n['args'][0] == x else 'R'
        if k == 'un':
            if n['op'] in ('++', '--', 'p++', 'p--'): return 'W'
            if n['op'] == '&': x = p; addr = True; continue
            if n['op'] == '*': x = p; continue
            return 'R'
        if k == 'idx':
            if n['args'] and n['args'][0] == x or n.get('b') == x: x = p; continue
            return 'R'
        if k == 'mem': x = p; continue
        if k == 'delete': return 'W'
        if k == 'decl':
            for v in n['vars']:
                if v['e'] == x and (v.get('ref') or addr): return 'N'     # a name for it; judged where that name is used
            return 'R'
        if k == 'call':
            if n.get('o') == x:
                nm = n.get('f', '').split('::')[-1]
                if n.get('op'):
                    if n['op'] == '[]':
                        t = F.nodes[x].get('t', '')
                        if 'map<' in t.split('::')[-1] or 'std::map<' in t or 'std::unordered_map<' in t: return 'M'   # may insert
                        x = p; continue
                    if n['op'] in ('=', '+=', '++', '--', '<<'): return 'W'
                    if n['op'] in ('->', '*'): return 'R'
                    return 'R'
                if nm in ('end', 'cend'): return 'N'      # the past-the-end position does not depend on the content
                if n.get('cm') or nm in READ_METH: return 'R'
                return 'W'
            pm = n.get('pm', '')
            args = n.get('args', [])
            off = len(pm) - len(args)
            for i, a in enumerate(args):
                if a == x and follow(n, i): return 'N'      # judged inside the callee
                if a == x and pm:
                    ch = pm[i + off] if 0 <= i + off < len(pm) else 'v'
                    return 'W' if ch == 'r' else 'R'
            if n.get('op') in ('=', '+=', '>>') and args and args[0] == x: return 'W'
            return 'R'
        return 'R'

class Guard:
    def __init__(self, lock, write='X', read='S', ignore=(), only=None, subst=None, addr_ok=True):
        self.lock = lock if isinstance(lock, (tuple, list, set)) else (lock,)
        self.write = write; self.read = read; self.ignore = set(ignore); self.only = only

class GuardRule(LockRule):
    report_reacquire = False
    report_badunlock = False
    all_branches = True
    keep_end = True
    def __init__(self, P, guards):
        LockRule.__init__(self)
        self.guards = guards; self.P = P
        self.idx = {}; self.done = set(); self.sites = {}; self.bad = {}
    def types(self):
        t = getattr(self, '_types', None)
        if t is None:
            t = set()
            for q in self.guards:
                c, f = q.rsplit('::', 1)
                for x in self.P.records.get(c, {}).get('fields', []):
                    if x['n'] == f and ('<' in x['t']) and not x['t'].startswith('std::basic_string') and 'atomic' not in x['t']: t.add(x['t'])
            self._types = t
        return t
    def alias(self, F, n):
        """a reference or pointer variable through which a guarded container may be reached"""
        if n.get('k') != 'ref' or 'v' not in n or n.get('d') in ('global', 'slocal'): return False
        a = F.__dict__.get('_alias_' + str(id(self)))
        if a is None:
            a = set()
            T = self.types()
            def ok(v):
                t = v.get('t', '').replace('const ', '')
                return (v.get('ref') or t.rstrip().endswith('*')) and t.rstrip('&* ').strip() in T
            for p in F.params:
                if ok(p): a.add(p['v'])
            for m in F.nodes:
                if m and m.get('k') == 'decl':
                    for v in m['vars']:
                        if ok(v): a.add(v['v'])
            setattr(F, '_alias_' + str(id(self)), a)
        return n['v'] in a
    def wants(self, F, n):
        if lock_prim(n) is not None: return True
        k = n.get('k')
        if k in ('mem', 'ref'):
            q = n.get('q')
            g = self.guards.get(q)
            al = self.alias(F, n)
            if g is None and not al: return False
            if g is not None:
                H = [self.P.fns[u] for u in self.P.home(F)] or [F]      # a helper is judged as part of what it was extracted from
                if all(h.q in g.ignore or h.name in g.ignore for h in H): return False
                if g.only is not None and not any(g.only(h) for h in H): return False
            if F.u not in self.done:
                self.done.add(F.u)
                for i, m in enumerate(F.nodes):
                    if m and m.get('k') in ('mem', 'ref') and (m.get('q') in self.guards or self.alias(F, m)): self.idx[id(m)] = (F, i)
            return True
        return False
    def on_load(self, S, st, l, n):
        w = self.idx.get(id(n))
        if w is None: return
        F, nid = w
        q = n.get('q')
        if q not in self.guards:
            l = strip(S.rd(st, l)) if l[0] == 'loc' else strip(l)
            q = l[2] if l[0] == 'f' else l[1] if l[0] == 'g' else None
            if q not in self.guards: return
        g = self.guards[q]
        H = S.home(F)
        if H.q in g.ignore or H.name in g.ignore or (g.only is not None and not g.only(H)): return
        def follow(c, i):
            G = S.P.fns.get(c.get('u'))
            if G is None or G.u not in S.interesting or i >= len(G.params): return False
            p = G.params[i]
            return (p.get('ref') or p['t'].rstrip().endswith('*')) and p['t'].replace('const ', '').rstrip('&* ').strip() in self.types()
        m = access_mode(F, nid, follow)
        if m == 'N': return
        need = g.write if m in ('W', 'M') else g.read
        if m == 'M' and self.present(S, st, F, nid, l): need = g.read
        ok = any((md == 'X' or need == 'S') and any(z in fields(h) or h == ('g', z) for z in g.lock) for (h, md, o) in st.ts[0])
        key = (F.q, len(F.params), q, 'write' if m in ('W', 'M') else 'read')
        self.sites.setdefault(key, set()).add((F.file, n.get('l', 0)))
        if not ok and key not in self.bad:
            held = sorted(lockname(h) + ':' + md for (h, md, o) in st.ts[0])
            self.bad[key] = ('%s:%s' % (F.file, n.get('l', 0)), '%s of %s in %s without holding %s%s (held: %s)' % (
                'write' if m in ('W', 'M') else 'read', q, F.q, '/'.join(g.lock), ' exclusively' if need == 'X' else '', ', '.join(held) or 'nothing'), trace(st), getattr(self, 'cur', F).q)
    def present(self, S, st, F, nid, l):
        """a map index on a key already known to be present does not insert"""
        par = parents(F); p = par.get(nid)
        n = F.nodes[p]
        return self.key_present(S, st, F, n, l)
    def key_present(self, S, st, F, n, l):
        # a dominating find(k) != end() / count(k) on the same container
        for t, f in st.facts.items():
            if t[0] == 'has' and t[1] == l and ((f[0] == 'ne' and C0 in f[1]) or (f[0] == 'eq' and f[1] != C0)): return True
        return False
    def run_entries(self, S, entries):
        for F in entries:
            if F.u not in S.interesting: continue
            self.cur = F
            S.run(F, self.init_ts())
