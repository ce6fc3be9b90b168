"""Privilege matrix.  check_privilege is explored once for every operation of the interface (plus an unknown one) x {root, other
account} x {system database, other database}: its parameters are fixed to the case, every lookup in a privilege set is left open,
and the answer on every path must be the one of the documented matrix - in particular the granted paths are exactly those on
which the right set of the right account was found to contain the right database."""
from common import *
RULE = 'exhaustive case enumeration of the decision function (path-sensitive constant and set-membership propagation)'
NEED = {'query': 'query', 'monitor': 'query', 'update': 'update', 'batchInsert': 'update', 'batchRemove': 'update', 'begin': 'update', 'tquery': 'update',
        'commit': 'update', 'rollback': 'update', 'checkpoint': 'update', 'load': 'load', 'unload': 'unload', 'restore': 'restore', 'backup': 'backup', 'export': 'export'}
FREE = 'login testConnect getCoreVersion funquery funcudb funreview check show userpassword upload download'.split()
ROOT = 'build drop usermanage userprivilegemanage showuser rename txnlog ipmanage querylog querylogdate accesslog accesslogdate backuppath stat shutdown no_such_operation'.split()

class R18(Rule):
    ret_matters = True; all_branches = True; keep_end = True
    def __init__(self): self.loads = []
    def wants(self, F, n): return n.get('k') == 'ret' or n.get('k') == 'mem' and n['q'].startswith('DBUserInfo::')
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'has': return st.ts | {(cond, tr)}
        return None

def check(ctx):
    P = ctx.prog(['GRPC/APIUtil.cpp'])
    F = P.one('APIUtil::check_privilege')
    names = [p['n'] for p in F.params]
    root = next((('s', g['s']) for q, g in P.globals.items() if q.split('::')[-1] == 'ROOT_USERNAME' and 's' in g), None)
    sysdb = next((('s', g['s']) for q, g in P.globals.items() if q.split('::')[-1] == 'SYSTEM_DB_NAME' and 's' in g), None)
    W = '%s:%s' % (F.file, F.line)
    npaths = 0
    for op in list(NEED) + FREE + ROOT:
        for user in ('root', 'other'):
            for db in ('system', 'other'):
                def pre(S, st):
                    a = [('arg', i, p['n']) for i, p in enumerate(F.params)]
                    S.fact(st, a[1], ('s', op), True)
                    for t, n in ((('s', 'root'), 0),): S.fact(st, a[n], t, user == 'root')
                    S.fact(st, a[2], ('s', 'system'), db == 'system')
                    if user != 'root' and root and root != ('s', 'root'): S.fact(st, a[0], root, False)
                R = R18(); S = Sim(P, R, cap=2000)
                R.keep = None
                bad = False
                outs = [o for o in S.run(F, frozenset(), pre)]
                if user == 'root' and root and root != ('s', 'root') or db == 'system' and sysdb and sysdb != ('s', 'system'): outs = []
                grant = False
                for st, rv, kind in outs:
                    npaths += 1
                    t = S.truth(st, rv) if rv is not None else None
                    sets = {}
                    odd = False
                    for h, tr in st.ts:
                        f = [x for x in fields(h[1]) if x.startswith('DBUserInfo::')]
                        if f and f[-1].endswith('_priv'):
                            sets[f[-1].split('::')[-1][:-5]] = tr
                            if tr and h[2] != ('arg', 2, names[2]): odd = True
                            if tr and not contains(h[1], ('arg', 0, names[0])): odd = True
                    if db == 'system': want = False
                    elif user == 'root' or op in FREE: want = True
                    elif op in NEED: want = sets.get(NEED[op]) is True
                    else: want = False
                    if t is not want or want and odd:
                        bad = True
                        ctx.violation('matrix:%s:%s:%s' % (op, user, db), W, 'operation "%s" by %s on %s is %s%s' % (op, 'root' if user == 'root' else 'an ordinary account', 'the system database' if db == 'system' else 'a database',
                            'granted' if t else 'refused' if t is False else 'not decided', ' on %s' % ', '.join('%s privilege %s' % (k, 'held' if v else 'not held') for k, v in sorted(sets.items())) if sets else ''), trace(st))
                    grant = grant or t is True
                if outs and op in NEED and user == 'other' and db == 'other' and not grant:
                    bad = True; ctx.violation('matrix:%s:never' % op, W, 'operation "%s" is never granted to an ordinary account' % op)
                ctx.ob('"%s" by %s on %s: %d path(s)' % (op, user, db, len(outs)), not bad)
                ctx.use(S)
    ctx.need(npaths, 100, 'paths of check_privilege')
