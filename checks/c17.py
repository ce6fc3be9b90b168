"""Request gate of the HTTP server.  Every function the server's routes can start is explored path by path with the typestate
{address checked, failures checked, credentials verified for U, privilege of U for operation O on database D}; the results of
the four gate calls are the only thing that can set a flag.  Wherever a path hands the request to code that reaches the
databases, the transaction managers or the management operations, the flags must be set for exactly the user, operation and
database that are handed over, and what that code can reach (transitively) must be among the effects the granted operation is for.
The data-changing switch of Database::query is traced back to the argument that controls it: that argument may only have its
permissive value on paths where the user's update privilege on the database was checked."""
from gate import *
RULE = 'typestate of the request gate; operation -> effect table over the call graph; flag provenance of the update switch'
OPS = {
 'APIUtil::user_add': 'usermanage', 'APIUtil::user_delete': 'usermanage', 'APIUtil::user_pwd_alert': 'usermanage userpassword',
 'APIUtil::add_privilege': 'userprivilegemanage', 'APIUtil::del_privilege': 'userprivilegemanage', 'APIUtil::clear_user_privilege': 'userprivilegemanage',
 'APIUtil::get_user_info': 'showuser', 'APIUtil::delete_from_already_build': 'drop rename', 'APIUtil::copy_privilege': 'rename',
 'APIUtil::delete_from_databases': 'drop unload', 'APIUtil::db_checkpoint': 'unload', 'Database::load': 'load build', 'Database::build': 'build',
 'Database::BuildEmptyDB': 'build', 'Database::batch_insert': 'batchInsert build', 'Database::batch_remove': 'batchRemove',
 'Database::save': 'batchInsert batchRemove checkpoint build', 'Database::export_db': 'export', 'Database::query': 'query', 'Database::backup': 'backup',
 'APIUtil::db_copy': 'restore', 'APIUtil::init_privilege': 'build restore', 'APIUtil::build_db_user_privilege': 'build restore',
 'APIUtil::begin_process': 'begin', 'Txn_manager::Query': 'tquery', 'Txn_manager::Commit': 'commit', 'Txn_manager::Rollback': 'rollback',
 'Txn_manager::Checkpoint': 'checkpoint', 'APIUtil::get_transactionlog': 'txnlog', 'APIUtil::get_query_log': 'querylog', 'APIUtil::get_query_log_files': 'querylog querylogdate',
 'APIUtil::get_access_log': 'accesslog', 'APIUtil::get_access_log_files': 'accesslog accesslogdate', 'APIUtil::ip_list': 'ipmanage', 'APIUtil::ip_save': 'ipmanage',
 'APIUtil::fun_query': 'funquery', 'APIUtil::fun_create': 'funcudb', 'APIUtil::fun_update': 'funcudb', 'APIUtil::fun_delete': 'funcudb', 'APIUtil::fun_build': 'funcudb',
 'APIUtil::fun_review': 'funreview', 'APIUtil::reset_access_ip_error_num': 'login'}
# the operations that may be asked for by an address with too many failures
FREE = {'login', 'testConnect'}

def rootref(F, x):
    """the parameter / member an argument expression is a plain copy of"""
    for _ in range(12):
        if x is None or x < 0: return None
        n = F.nodes[x]; k = n.get('k')
        if k == 'ref' and 'v' in n: return ('v', n['v'])
        if k == 'mem': return ('f', n['q'])
        if k in ('ctor', 'ilist', 'cast') and n.get('args'): x = n['args'][0]; continue
        if k == 'call' and n.get('f', '').startswith('std::') and n.get('f', '').split('::')[-1] in ('move', 'forward', 'ref', 'cref') and n.get('args'): x = n['args'][0]; continue
        return None

class R17(GateRule):
    def setup(self):
        self.events = {}; self.eff = {}; self.uflag = {}
        self.opsseen = set()
    def effects(self, t, c):
        """protected names reachable from what is dispatched"""
        if isinstance(t, str) and t in OPS or t.split('::')[0] in ('APIUtil', 'Database', 'Txn_manager') and protected(c.n): return {t}
        us = [F.u for F in self.cls.get(t, [])] if c.k in ('ctor', 'new') else [c.n['u']]
        k = (t, tuple(us))
        if k not in self.eff:
            s = set()
            for u in self.P.forward(us):
                for i, n in self.P.fns[u].calls():
                    if protected(n): s.add(n['f'])
            self.eff[k] = s
        return self.eff[k]
    def handed(self, c, t):
        """[(handler, {param index: dispatch argument index})]"""
        P = self.P
        if c.k == 'call':
            G = P.fns.get(c.n.get('u'))
            return [(G, {i: i for i in range(len(c.args))})] if G else []
        G = P.fns.get(c.n.get('u')); r = []
        if not G: return r
        pidx = {p['v']: i for i, p in enumerate(G.params)}
        fmap = {}
        for n in G.nodes:
            if not n: continue
            a = b = None
            if n.get('k') == 'asg': a, b = n['args']
            elif n.get('k') == 'call' and n.get('op') == '=' and 'o' in n: a, b = n['o'], n['args'][0]
            if a is None: continue
            x, y = rootref(G, a), rootref(G, b)
            if x and y and x[0] == 'f' and y[0] == 'v' and y[1] in pidx: fmap[x[1]] = pidx[y[1]]
        for b in G.blocks.values():
            for e in b['e']:
                if isinstance(e, dict) and e['k'] == 'init' and e.get('q'):
                    y = rootref(G, e['x'])
                    if y and y[0] == 'v' and y[1] in pidx: fmap[e['q']] = pidx[y[1]]
        for M in self.cls.get(t, []):
            for i, n in M.calls():
                H = P.fns.get(n.get('u'))
                if H and H.u in self.prot and not H.cls:
                    m = {}
                    for j, a in enumerate(n.get('args', [])):
                        y = rootref(M, a)
                        if y and y[0] == 'f' and y[1] in fmap: m[j] = fmap[y[1]]
                    r.append((H, m))
        return r
    def update_param(self, H):
        """(reaches the switch, [(parameter, value with which nothing can be changed)])"""
        if H.u in self.uflag: return self.uflag[H.u]
        P = self.P
        reach = P.reach(lambda F: any(n.get('f') == 'Database::query' for i, n in F.calls()))
        if H.u not in reach: self.uflag[H.u] = (False, []); return self.uflag[H.u]
        def possible(pre):
            u = UFlag(P); S = Sim(P, u)
            S.run(H, 0, pre); self.S2.append(S)
            return u.poss
        res = []
        if not possible(None): self.uflag[H.u] = (False, []); return self.uflag[H.u]
        for i, p in enumerate(H.params):
            t = p['t']
            for v in ((('s', '0'), ('s', '')) if 'string' in t else (C0,) if t in ('bool', 'const bool', 'int') else ()):
                if not possible(lambda S, st: st.mem.__setitem__(('loc', 0, p['v'], p['n']), v)): res.append((i, v))
        self.uflag[H.u] = (True, res)
        return self.uflag[H.u]
    def event(self, S, st, c, t, where):
        ts = st.ts
        priv = [x for x in ts if x[0] == 'priv']
        op = None
        for x in sorted(priv, key=lambda x: S.const(x[2])):     # the request's own operation before constants
            k = S.known(st, x[2])
            if k is not None and k[0] == 's': op = k[1]; D = x[3]; U = x[1]; break
        eff = self.effects(t, c)
        if not eff: return None
        if c.k == 'call' and op is None and not protected(c.n): return False      # not decided yet: look inside
        where = '%s (%s)' % (where, t)
        self.events.setdefault((c.F.q, t), set()).add(op)
        self.opsseen.add(op)
        ok = lambda cond, kind, text: None if cond else self.report(kind, (t, op), where, text, st)
        ips = [x for x in ts if x[0] == 'ip']
        ok(any(x[1] in (0, 1) for x in ips), 'address', '%s is reached without the address list having been consulted' % t)
        opk = None
        if op not in FREE: ok(any(x[1] in (0, 2) for x in ips), 'lockout', '%s is reached without the failure count of the address having been checked' % t)
        ok(len(set(x[2] for x in ips)) <= 1 and all(S.known(st, x[2]) is None for x in ips), 'addressof', 'the address checks before %s are made for different or constant addresses' % t)
        auth = [x[1] for x in ts if x[0] == 'auth']
        ok(bool(auth), 'credentials', '%s is reached without the credentials having been verified' % t)
        ok(bool(priv), 'privilege', '%s is reached without a privilege check' % t)
        if not auth or not priv: return None
        ok(op is not None, 'operation', '%s is reached although the operation whose privilege was checked is not known to be one this work belongs to' % t)
        if op is None: return None
        ok(U in auth, 'user', 'the privilege before %s is checked for %s but the credentials were verified for %s' % (t, show(U), ', '.join(show(x) for x in auth)))
        for e in sorted(eff):
            if e in OPS: ok(op in OPS[e].split(), 'effect', 'operation "%s" reaches %s, which belongs to %s' % (op, e, OPS[e].replace(' ', ', ')))
        for H, m in self.handed(c, t):
            for j, p in enumerate(H.params):
                if j not in m: continue
                v = c.args[m[j]]
                if p['n'] == 'db_name': ok(v == D, 'database', '%s gets database %s but the privilege was checked for %s' % (H.q, show(v), show(D)))
                if p['n'] == 'username' and op not in ('usermanage', 'userprivilegemanage'): ok(v == U, 'username', '%s gets user %s but the privilege was checked for %s' % (H.q, show(v), show(U)))
            need, ctl = self.update_param(H)
            if need:
                self.seen.setdefault('update switch', set()).add(H.q)
                good = any(x[0] == 'priv' and x[1] == U and x[3] == D and S.known(st, x[2]) == ('s', 'update') for x in ts)
                for j, safe in ctl:
                    if j in m and (c.args[m[j]] == safe or S.known(st, c.args[m[j]]) == safe): good = True
                ok(good, 'update', '%s is started with data changes allowed although the update privilege was not checked' % H.q)
        return None

class UFlag(Rule):
    def __init__(self, P): self.P = P; self.poss = False
    def wants(self, F, n): return n.get('k') == 'call' and n.get('f') == 'Database::query'
    def on_call(self, S, st, c):
        if c.f != 'Database::query' or len(c.args) < 4: return None
        t = S.truth(st, c.args[3])
        if t is not False: self.poss = True
        return None

def entries(P):
    direct = set(n['u'] for F in P.fns.values() for i, n in F.calls() if n.get('u') in P.fns)
    fw = P.forward([F.u for F in P.get('main')])
    return [F for u, F in P.fns.items() if u in fw and u not in direct and any('Request' in p['t'] for p in F.params)]

def tasks(P):
    """work queued for a request: methods of classes that keep the request, other than construction"""
    held = set(q for q, r in P.records.items() if any('Request' in f['t'] for f in r['fields']))
    return [F for F in P.fns.values() if F.cls in held and F.name not in (F.cls.split('::')[-1], '~' + F.cls.split('::')[-1]) and not F.new and any(n.get('u') in P.fns for i, n in F.calls())]

def check(ctx):
    P = ctx.prog(['Main/ghttp.cpp'])
    ents = entries(P)
    r = R17(P, ents); r.setup(); r.S2 = []
    S = Sim(P, r, cap=2000)
    n = 0
    for F in ents:
        if F.u not in S.interesting: ctx.ob('%s (line %d) starts no protected work' % (F.q, F.line)); continue
        S.run(F, frozenset()); n += 1
    ctx.use(S)
    for S2 in r.S2: ctx.use(S2)
    bad = set((k[1][0], k[1][1]) for k in r.found)
    for (fn, t), ops in sorted(r.events.items(), key=str):
        for op in sorted(ops, key=str):
            ctx.ob('%s starts %s for operation %s: address, failures, user, privilege, database, effects' % (fn, t, op), (t, op) not in bad)
    for k in sorted(r.seen): ctx.ob('%s at %d site(s)' % (k, len(r.seen[k])))
    for (kind, key), (w, text, tr) in r.found.items():
        ctx.violation('%s:%s:%s' % (kind, key[0], key[1]), w, text, tr)
    ctx.need(n, 2, 'request entry points that start protected work')
    ctx.need(len(r.opsseen), 20, 'operations dispatched')
    ctx.need(len(r.seen.get('update switch', ())), 1, 'handlers that reach the data-changing switch')
