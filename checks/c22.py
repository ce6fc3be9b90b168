"""Failure counting.  Server side: on every path of every entry point of the HTTP server on which a credential check fails, the
failure is recorded for the address the request was admitted for before the path ends.  Table side: what check_access_ip answers
is enumerated over every level and every outcome of the two address predicates; ip_error_num_check is explored once for every
recorded count 0..12; update_access_ip_error_num must raise the count of that address by exactly one on every path; nothing else
lowers a count or forgets an address except the reset operation, which only an authenticated login reaches (C17)."""
from gate import *
from c17 import entries
RULE = 'typestate (failed credential check must be counted); exhaustive case enumeration of the admission table'
LIMIT = 4

class R22(GateRule):
    def event(self, S, st, c, t, where): return None
    def wants(self, F, n):
        if F.u not in self.gated or n.get('k') != 'call': return False
        return n.get('f', '') in GATES or n.get('f') == 'APIUtil::update_access_ip_error_num'
    def no_inline(self, F, st=None): return F.u not in self.gated
    def target(self, n): return None

class Admit(Rule):
    """check_access_ip / ip_error_num_check / counters"""
    ret_matters = True
    def __init__(self, P, count=None):
        self.P = P; self.count = count
    def wants(self, F, n):
        f = n.get('f', '')
        return f in ('APIUtil::ip_check', 'APIUtil::ip_error_num_check') if self.count is None else F.cls in ('APIUtil', 'IpInfo') and n.get('k') in ('mem', 'call', 'ret')
    def load_value(self, S, st, loc):
        if self.count is not None and loc[0] == 'f' and loc[2].endswith('IpInfo::errorNum'): return ('c', self.count)
        return None
    def on_call(self, S, st, c):
        if self.count is None:
            if c.f == 'APIUtil::ip_check': return [(C1, st.ts | {'listed'}), (C0, st.ts | {'blocked'})]
            if c.f == 'APIUtil::ip_error_num_check': return [(C1, st.ts | {'few'}), (C0, st.ts | {'many'})]
        return None
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'has' and not tr: return st.ts | {'fresh'}
        return None

class Count(Rule):
    """every path must add exactly one to the counter of one entry"""
    def __init__(self): self.bad = []
    def wants(self, F, n):
        if n.get('k') == 'asg' or n.get('k') == 'un' and n['op'] in ('++', 'p++', '--', 'p--'):
            if 'args' not in n: return n.get('q', '').endswith('IpInfo::errorNum')
            t = F.nodes[n['args'][0]]
            return t.get('k') == 'mem' and t['q'].endswith('IpInfo::errorNum')
        return False
    def on_store(self, S, st, loc, val, n):
        if loc[0] == 'f' and loc[2].endswith('IpInfo::errorNum'):
            if val == ('upd', '+', C1) or val[:2] in (('upd', '++'), ('upd', 'p++')) or val[0] == 'bin' and val[1] == '+' and C1 in val[2:]: return st.ts + 1
            if val == C0 and st.ts == 0 and (loc[1][0] in ('new', 'obj')): return st.ts
            if val == C1 and loc[1][0] == 'new' and st.ts == 0: return 1
            return 99
        return None

def check(ctx):
    P = ctx.prog(['Main/ghttp.cpp'])
    ents = entries(P)
    r = R22(P, ents); S = Sim(P, r, cap=2000); n = 0
    for F in ents:
        if F.u not in S.interesting: continue
        n += 1; bad = 0
        for st, rv, kind in S.run(F, frozenset()):
            ts = st.ts
            if ('bad',) in ts:
                ips = set(x[2] for x in ts if x[0] == 'ip'); cnt = set(x[1] for x in ts if x[0] == 'counted')
                if not cnt:
                    bad += 1; ctx.violation('uncounted:%s' % F.q, '%s:%s' % (F.file, F.line), 'a failed credential check is not recorded for the address of the request in %s' % F.q, trace(st))
                elif not cnt <= ips:
                    bad += 1; ctx.violation('wrongip:%s' % F.q, '%s:%s' % (F.file, F.line), 'a failed credential check in %s is recorded for another address than the one admitted' % F.q, trace(st))
        ctx.ob('%s (line %d): every failed credential check is recorded for the admitted address' % (F.q, F.line), not bad)
    ctx.use(S)
    ctx.need(n, 3, 'request entry points with gate calls')
    ctx.need(len(r.seen.get('check_indentity', ())), 1, 'credential checks')
    P = ctx.prog(['GRPC/APIUtil.cpp'])
    F = P.one('APIUtil::check_access_ip')
    for lv in (0, 1, 2, 3):
        a = Admit(P); S = Sim(P, a)
        def pre(S, st): st.mem[('loc', 0, F.params[1]['v'], F.params[1]['n'])] = ('c', lv)
        bad = False
        outs = S.run(F, frozenset(), pre)
        for st, rv, kind in outs:
            e = S.truth(st, ('call', 'empty', rv)) if rv is not None else None
            ts = st.ts
            if lv == 3: want = True
            else:
                deny = 'blocked' in ts if lv < 2 else False
                deny = deny or (lv in (0, 2) and 'many' in ts)
                want = not deny
                if want and (lv < 2 and 'listed' not in ts or lv in (0, 2) and 'few' not in ts): e = None
            if e is not want:
                bad = True
                ctx.violation('admission:%d' % lv, '%s:%s' % (F.file, F.line), 'check_access_ip level %d %s although the predicates say %s' % (lv, 'admits' if e else 'refuses' if e is False else 'answers', ', '.join(sorted(ts)) or 'nothing'), trace(st))
        ctx.ob('check_access_ip level %d: %d outcome(s) agree with the address list and the failure count' % (lv, len(outs)), not bad); ctx.use(S)
    F = P.one('APIUtil::ip_error_num_check')
    for N in range(0, 13):
        a = Admit(P, N); S = Sim(P, a); bad = False
        for st, rv, kind in S.run(F, frozenset()):
            t = S.truth(st, rv) if rv is not None else None
            if 'fresh' in st.ts:
                if t is not True: bad = True; ctx.violation('count:new', '%s:%s' % (F.file, F.line), 'an address never seen before is refused', trace(st))
            elif t is not (N <= LIMIT):
                bad = True
                ctx.violation('count:%d' % N, '%s:%s' % (F.file, F.line), 'an address with %d recorded failures is %s' % (N, 'admitted' if t else 'refused' if t is False else 'not decided'), trace(st))
        ctx.ob('ip_error_num_check with %d recorded failures' % N, not bad); ctx.use(S)
    F = P.one('APIUtil::update_access_ip_error_num')
    a = Count(); S = Sim(P, a); bad = False
    outs = S.run(F, 0)
    for st, rv, kind in outs:
        if st.ts != 1:
            bad = True; ctx.violation('record', '%s:%s' % (F.file, F.line), 'update_access_ip_error_num changes the failure count %s on a path' % ('not at all' if st.ts == 0 else 'by something other than one'), trace(st))
    ctx.ob('update_access_ip_error_num: %d path(s), each adds exactly one failure' % len(outs), not bad); ctx.use(S)
    # who lowers a count or forgets an address
    low = P.reach(lambda F: False)
    for F in P.fns.values():
        if F.cls not in ('APIUtil',) or F.name in ('~APIUtil', 'reset_access_ip_error_num'): continue
        for i, n in F.calls():
            f = n.get('f', '')
            if f == 'IpInfo::setErrorNum':
                ctx.violation('lower:%s' % F.name, '%s:%s' % (F.file, n['l']), '%s sets the failure count of an address' % F.q)
            if 'o' in n and F.nodes[n['o']].get('k') == 'mem' and F.nodes[n['o']].get('q') == 'APIUtil::ips' and f.split('::')[-1] in ('erase', 'clear', 'swap', 'operator='):
                ctx.violation('forget:%s' % F.name, '%s:%s' % (F.file, n['l']), '%s removes recorded addresses' % F.q)
    ctx.ob('no operation but reset_access_ip_error_num and the destructor lowers a count or forgets an address')
