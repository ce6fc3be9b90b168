"""Stopping the server.  Every path of every entry point of the HTTP server to a construct that ends the process (an exit call, or
the registration of a completion callback whose body ends it or destroys the shared state) is preceded by: address list and
failure count checked, the requested user equal to the system user, the system password verified."""
from gate import *
from c17 import entries
RULE = 'typestate: process-ending effects only behind the system-user gate'
ENDS = {'exit', '_exit', '_Exit', 'abort', 'quick_exit', 'kill', 'raise', 'terminate', 'pthread_kill'}
class R30(GateRule):
    def prep(self):
        P = self.P
        self.ender = P.reach(lambda F: any((n.get('f') or '').split('::')[-1] in ENDS and not (n.get('f') or '').split('::')[0] in P.records and len((n.get('f') or '').split('::')) <= 2 for i, n in F.calls())
                             or any(n and n.get('k') == 'delete' and 'APIUtil' in F.nodes[n['args'][0]].get('t', '') for n in F.nodes if n and n.get('k') == 'delete' and n.get('args')))
        self.ender &= P.forward(self.ent)
    def lams(self, F, n):
        r = []
        for a in n.get('args', []):
            st = [a]; k = 0
            while st and k < 30:
                x = st.pop(); k += 1
                if x is None or x < 0: continue
                m = F.nodes[x]
                if m.get('k') in ('lambda', 'ref') and m.get('u') in self.P.fns and (m['k'] == 'lambda' or m.get('d') == 'func'): r.append(m['u'])
                st += m.get('args', []) if m.get('k') in ('ctor', 'cast', 'un', 'ilist', 'call') else []
                if m.get('k') == 'call' and m.get('o', -1) >= 0: st.append(m['o'])
        return r
    def wants(self, F, n):
        if F.u not in self.ender: return False
        k = n.get('k')
        if k == 'call' and (n.get('f') in GATES or n.get('f') == 'APIUtil::get_system_username'): return True
        if k in ('call', 'ctor', 'new') and ((n.get('f') or '').split('::')[-1] in ENDS and n.get('u') not in self.P.fns or any(u in self.ender for u in self.lams(F, n))): return True
        return False
    def no_inline(self, F, st=None): return F.u not in self.ender
    def target(self, n): return None
    def on_call(self, S, st, c):
        if c.k in ('call', 'ctor', 'new') and c.f not in GATES and ((c.f or '').split('::')[-1] in ENDS and c.n.get('u') not in self.P.fns or any(u in self.ender for u in self.lams(c.F, c.n))):
            if 'thread::thread' in c.f: return None       # work started elsewhere is an entry of its own
            ts = st.ts; where = '%s:%s' % (c.F.file, c.line())
            self.seen.setdefault('end', set()).add(where)
            ok = lambda cond, kind, text: None if cond else self.report(kind, (c.F.name,), where, text, st)
            ips = [x for x in ts if x[0] == 'ip']
            ok(any(x[1] in (0, 1) for x in ips), 'address', 'the server is stopped without the address list having been consulted')
            ok(any(x[1] in (0, 2) for x in ips), 'lockout', 'the server is stopped without the failure count of the address having been checked')
            ok(('srv',) in ts, 'password', 'the server is stopped without the system password having been verified')
            ok(('sys',) in ts, 'user', 'the server is stopped for a user who is not the system user')
            return None
        return GateRule.on_call(self, S, st, c)
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        g = ('g', 'system username')
        if cond[0] == 'bin' and cond[1] == '==' and g in cond[2:] and tr: return st.ts | {('sys',)}
        return None
def check(ctx):
    P = ctx.prog(['Main/ghttp.cpp'])
    ents = entries(P)
    r = R30(P, ents); r.prep()
    S = Sim(P, r, cap=1000); n = 0
    for F in ents:
        if F.u not in r.ender: ctx.ob('%s (line %d) cannot end the process' % (F.q, F.line)); continue
        before = len(r.found)
        S.run(F, frozenset()); n += 1
        ctx.ob('%s (line %d): the process ends only behind the system-user gate' % (F.q, F.line), len(r.found) == before)
    ctx.use(S)
    for (kind, key), (w, text, tr) in r.found.items():
        ctx.violation('%s:%s' % (kind, key[0]), w, text, tr)
    for w in sorted(r.seen.get('end', ())): ctx.ob('process end at %s' % w)
    ctx.need(len(r.seen.get('end', ())), 1, 'process-ending constructs reachable from requests')
    # the two primitives: the password comparison and the user name
    P = ctx.prog(['GRPC/APIUtil.cpp'])
    class Pw(Rule):
        ret_matters = True; all_branches = True
        def wants(self, F, n): return n.get('k') == 'ret'
        def on_branch(self, S, st, cond, tr):
            while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
            if cond[0] == 'bin' and cond[1] == '==' and any(x[0] == 'f' and x[2] == 'APIUtil::system_password' for x in cond[2:]) and any(x[0] == 'arg' for x in cond[2:]):
                return st.ts | {tr}
            return None
    F = P.one('APIUtil::check_server_indentity'); S = Sim(P, Pw()); bad = False
    for st, rv, kind in S.run(F, frozenset()):
        e = S.truth(st, ('call', 'empty', rv))
        if e is not False and st.ts != frozenset([True]) or e is False and True in st.ts:
            bad = True; ctx.violation('compare', '%s:%s' % (F.file, F.line), 'check_server_indentity accepts a password that was not compared equal to the system password (or refuses the right one)', trace(st))
    ctx.ob('check_server_indentity accepts exactly the system password', not bad); ctx.use(S)
