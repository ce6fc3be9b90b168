"""Lock-set typestate over every path of every operation of the shared server state (accounts, databases, build catalogue,
transaction managers, address table, access / query / transaction logs, user functions, system database, backup log).  On every
exit the locks taken must have been given back; only the operations that exist to hand a database lock to their caller are exempt
(their callers are decided by the handler property)."""
from common import *
from api_iface import *
RULE = 'typestate: lock set empty on every exit; no re-acquisition of a held lock; no release of an unheld lock'

class R(LockRule):
    exc = True
    def allow_shared_recursion(self, t): return False
    def no_inline(self, F, st=None): return F.file.startswith('Database/') or F.file.startswith('Query/')

def check(ctx):
    P = ctx.prog(['GRPC/APIUtil.cpp', 'Util/Latch.cpp', 'Util/SpinLock.cpp', 'Database/Database.cpp', 'Database/Txn_manager.cpp'])
    r = R(); S = Sim(P, r)
    n = 0
    start = [F for F in roots(P, 'APIUtil', API) if F.name == 'initialize']      # a start-up that fails ends the process
    for cls, base in (('APIUtil', API), ('DatabaseInfo', None), ('IpInfo', None), ('DBUserInfo', None), ('TransactionLog', None)):
        n += run_lock_entries(ctx, P, r, S, [F for F in roots(P, cls, base) if F.name not in TRANSFER and F not in start], 'server locks')
    r.exc = False; S = Sim(P, r)
    n += run_lock_entries(ctx, P, r, S, start, 'server locks (start-up)')
    report_locks(ctx, r)
    ctx.need(n, 30, 'locking server operations'); ctx.need(len(r.acq), 60, 'lock acquisition sites')
    P = ctx.prog(['Util/Util.cpp'])
    r = R(); S = Sim(P, r)
    m = run_lock_entries(ctx, P, r, S, roots(P, 'Util', 'init_backuplog add_backuplog update_backuplog delete_backuplog query_backuplog'.split()), 'backup log lock')
    report_locks(ctx, r)
    ctx.need(m, 3, 'backup log operations')
