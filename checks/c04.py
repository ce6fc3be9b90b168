"""Guarded-by: the flow-sensitive lock set at every access of the shared server registries (accounts, loaded databases, build
catalogue, transaction managers, client addresses, and each account's seven privilege sets) contains the lock of that registry,
exclusively for modifications, on every path from every server operation.  A map index counts as a modification unless the key
is known present on the path."""
from common import *
from guards import *
from api_iface import *
RULE = 'guarded-by: registry access => registry lock held (exclusive for writes)'
A = 'APIUtil::'

def check(ctx):
    P = ctx.prog(['GRPC/APIUtil.cpp', 'Util/Latch.cpp', 'Util/SpinLock.cpp'])
    start = ('APIUtil', '~APIUtil', 'initialize')     # single-threaded construction / start-up / destruction
    G = {A + 'users': Guard(A + 'users_map_lock', ignore=start), A + 'databases': Guard(A + 'databases_map_lock', ignore=start),
         A + 'txn_managers': Guard(A + 'txn_m_lock', ignore=start), A + 'ips': Guard(A + 'ips_map_lock', ignore=start),
         A + 'already_build': Guard(A + 'already_build_map_lock', ignore=start)}
    for x in KINDS: G['DBUserInfo::%s_priv' % x] = Guard('DBUserInfo::%s_priv_set_lock' % x, ignore=start + ('DBUserInfo',), only=lambda F: F.cls != 'DBUserInfo')
    for q in G:
        c, f = q.rsplit('::', 1)
        if not any(x['n'] == f for x in P.records.get(c, {}).get('fields', [])): raise AnalysisBroken('field %s no longer exists' % q)
    R = GuardRule(P, G); S = Sim(P, R)
    R.run_entries(S, roots(P, 'APIUtil', API))
    ctx.use(S)
    finish_guards(ctx, R)
    ctx.need(len(R.sites), 60, 'guarded accesses')
