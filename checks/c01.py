"""Lock-set typestate over every path of every operation of the in-memory/on-disk storage layer (value arrays, string arrays, block
managers, version chains, graph latches, string tree, string index, query cache, ID allocators, dirty-key and log registers).
Each operation is explored path-sensitively with the calls that can lock inlined; on every normal, error and exceptional exit the
set of locks the operation acquired must be empty, and no path may re-acquire a lock it holds or release one it does not hold."""
from common import *
RULE = 'typestate: lock set empty on every exit; no re-acquisition; no release of an unheld lock'
TUS1 = ['KVstore/IVArray/IVArray.cpp', 'KVstore/IVArray/IVEntry.cpp', 'KVstore/IVArray/IVBlockManager.cpp', 'KVstore/ISArray/ISArray.cpp',
        'KVstore/ISArray/ISEntry.cpp', 'KVstore/ISArray/ISBlockManager.cpp', 'KVstore/SITree/SITree.cpp', 'Util/Latch.cpp', 'Util/SpinLock.cpp',
        'Util/GraphLock.cpp', 'Util/Version.cpp', 'Util/Transaction.cpp', 'Query/QueryCache.cpp', 'StringIndex/StringIndex.cpp']
CLS1 = {'IVArray': 'search insert remove modify save PinCache TryExclusiveLatch ReleaseLatch Rollback CleanDirtyKey',
        'ISArray': 'search insert remove modify save', 'IVBlockManager': 'ReadValue WriteValue FreeBlocks SaveFreeBlockList',
        'ISBlockManager': 'ReadValue WriteValue FreeBlocks SaveFreeBlockList',
        'IVEntry': 'getLatestVersion ReadVersion InvalidExlusiveLatch UnLatch CleanAllVersion GetExclusiveLatch WriteVersion',
        'GLatch': 'is_own_latch tryexclusivelatch trysharedlatch unlatch tryupgradelatch trydowngradelatch',
        'SITree': 'Search Insert Modify Remove Save', 'QueryCache': 'tryCaching checkCached clear',
        'StringIndex': 'flush searchBuffer randomAccess addRequest trySequenceAccess change disable save load clear', 'Transaction': ''}
TUS2 = ['Database/Database.cpp', 'Util/SpinLock.cpp', 'Util/Latch.cpp']
DBFN = ('allocEntityID', 'freeEntityID', 'allocLiteralID', 'freeLiteralID', 'allocPredicateID', 'freePredicateID')

class R1(LockRule): pass

def check(ctx):
    P = ctx.prog(TUS1)
    R = R1(); S = Sim(P, R)
    n = 0
    for cls, base in CLS1.items():
        n += run_lock_entries(ctx, P, R, S, roots(P, cls, base.split()), 'storage locks')
    report_locks(ctx, R)
    P2 = ctx.prog(['Database/Database.cpp', 'Util/SpinLock.cpp', 'Util/Latch.cpp'])
    class R2(LockRule):
        def wants(self, F, x): return lock_prim(x) is not None and F.cls != 'KVstore'
    R = R2(); S = Sim(P2, R)
    n += run_lock_entries(ctx, P2, R, S, [F for F in P2.cls_fns('Database') if F.name in DBFN or F.name in ('write_update_log',)], 'identifier allocation locks')
    report_locks(ctx, R)
    ctx.need(n, 20, 'locking storage operations')
    ctx.need(len(R.acq) + 0, 3, 'lock acquisition sites in the identifier allocators')
