"""The request gate of the HTTP server as a typestate: address check, credential check, privilege check, dispatch."""
from common import *
SAFE = set('''check_access_ip check_indentity check_privilege check_server_indentity update_access_ip_error_num write_access_log check_param_value
get_system_username get_root_username get_default_port get_thread_pool_num get_upload_max_body_size get_upload_path get_system_path get_Db_path get_Db_suffix
get_backup_path get_query_result_path get_configure_value get_max_output_size check_upload_allow_extensions check_upload_allow_compress_packages string_suffix
initialize getAnsNum'''.split())
GATES = ('APIUtil::check_access_ip', 'APIUtil::check_indentity', 'APIUtil::check_privilege', 'APIUtil::check_server_indentity')
CLS = ('APIUtil::', 'Database::', 'Txn_manager::')

def api(n):
    f = n.get('f', '') or ''
    for c in CLS:
        if f.startswith(c): return f
    return None
def protected(n):
    f = api(n)
    return f if f and f.split('::')[1] not in SAFE and f.split('::')[0] != f.split('::')[1] else None

class GateRule(Rule):
    """ts = frozenset of flags: ('ip',level,ip) ('auth',U) ('priv',U,O,D) ('sys',) ('srv',) ('bad',ip) ('counted',ip)"""
    exc = True
    def __init__(self, P, entries):
        self.P = P; self.found = {}; self.ev = {}; self.seen = {}
        self.prot = P.reach(lambda F: any(protected(n) for i, n in F.calls()))
        self.gated = P.reach(lambda F: any((n.get('f') in GATES) for i, n in F.calls()))
        self.ent = set(F.u for F in entries)
        # classes whose objects run protected work later
        self.cls = {}
        for u in self.prot:
            F = P.fns[u]
            if F.cls and F.name not in (F.cls.split('::')[-1],) and not F.name.startswith('~') : self.cls.setdefault(F.cls, []).append(F)
        self.dispatched = P.forward([F.u for F in entries])
    def report(self, kind, key, where, text, st):
        k = (kind, key)
        if k not in self.found: self.found[k] = (where, text, trace(st))
    def target(self, n):
        """the protected work a call starts: list of functions, or the protected name itself"""
        p = protected(n)
        if p: return p
        u = n.get('u')
        F = self.P.fns.get(u)
        if n.get('k') in ('ctor', 'new') and F is not None and F.cls in self.cls: return F.cls
        if n.get('k') == 'call' and F is not None and u in self.prot and u not in self.gated: return F.q
        return None
    def wants(self, F, n):
        if F.u not in self.dispatched or n.get('k') not in ('call', 'ctor', 'new'): return False
        f = n.get('f', '')
        if F.u not in self.gated and F.u not in self.ent and F.u not in self.prot: return False
        return f in GATES or f == 'APIUtil::update_access_ip_error_num' or self.target(n) is not None or f == 'APIUtil::get_system_username'
    def no_inline(self, F, st=None): return F.u not in self.gated and F.u not in self.prot
    def on_call(self, S, st, c):
        f = c.f; ts = st.ts
        where = '%s:%s' % (c.F.file, c.line())
        if c.k == 'throw': return None
        if f == 'APIUtil::check_access_ip':
            lv = S.known(st, c.args[1]); lv = lv[1] if lv else 0
            self.seen.setdefault('check_access_ip', set()).add(where)
            return [(('s', ''), ts | {('ip', lv, c.args[0])}), (('s', 'denied'), ts)]
        if f == 'APIUtil::check_indentity':
            self.seen.setdefault('check_indentity', set()).add(where)
            return [(('s', ''), ts | {('auth', c.args[0])}), (('s', 'denied'), ts | {('bad',)})]
        if f == 'APIUtil::check_server_indentity':
            self.seen.setdefault('check_server_indentity', set()).add(where)
            return [(('s', ''), ts | {('srv',)}), (('s', 'denied'), ts | {('bad',)})]
        if f == 'APIUtil::check_privilege':
            self.seen.setdefault('check_privilege', set()).add(where)
            o = S.known(st, c.args[1]) or c.args[1]
            return [(C1, ts | {('priv', c.args[0], c.args[1], c.args[2])}), (C0, ts)]
        if f == 'APIUtil::get_system_username': return [(('g', 'system username'), ts)]
        if f == 'APIUtil::update_access_ip_error_num':
            return [(None, ts | {('counted', c.args[0])})]
        t = self.target(c.n)
        if t is not None and not (c.k == 'call' and c.n.get('u') in self.gated):
            if self.event(S, st, c, t, where) is False: return None
            return [(('new', c.n['t'], c.frame, c.nid) if c.k == 'new' else None, ts)]
        return None
    def event(self, S, st, c, t, where): pass
