"""Guarded-by over the storage layer: the flow-sensitive lock set at every access of shared storage state contains the lock that
protects it, exclusively where the access changes it: the entry table and its size under the table lock in every transactional
operation, the replacement chain and cache accounting under the cache lock, the version chain of a key under its latch, the owner
and reader count of a graph latch under its spin lock, the free-block maps under the index lock, the string arrays, the string
tree, the query cache, the dirty-key registers, the transaction table, the identifier free lists and the string-index tables under theirs."""
from common import *
from guards import *
from c01 import TUS1, CLS1
RULE = 'guarded-by: access of shared storage state => its lock held (exclusive for changes)'

def txnop(F):
    return any('Transaction' in p['t'] for p in F.params) or F.name == 'CleanDirtyKey'

def check(ctx):
    P = ctx.prog(TUS1)
    iv = ('IVArray', '~IVArray', 'save', 'PinCache', 'PreLoad')       # construction, destruction, checkpointed save, load-time pinning
    ive = ('IVEntry', '~IVEntry', 'Copy')                            # construction and the move to a larger table
    isx = ('ISArray', '~ISArray', 'save', 'PreLoad')
    G = {'IVArray::array': Guard('IVArray::ArrayLock', only=txnop), 'IVArray::CurEntryNum': Guard('IVArray::ArrayLock', only=txnop),
         'IVArray::cache_head': Guard('IVArray::CacheLock', ignore=iv), 'IVArray::cache_tail_id': Guard('IVArray::CacheLock', ignore=iv),
         'IVArray::CurCacheSize': Guard('IVArray::CacheLock', ignore=iv),
         'IVEntry::value': Guard('IVArray::CacheLock', ignore=ive), 'IVEntry::cacheFlag': Guard('IVArray::CacheLock', ignore=ive),
         'IVEntry::prevID': Guard('IVArray::CacheLock', ignore=ive), 'IVEntry::nextID': Guard('IVArray::CacheLock', ignore=ive),
         'IVEntry::vList': Guard('IVEntry::rwLatch', ignore=('IVEntry', '~IVEntry', 'Copy')),
         'GLatch::_TID': Guard('GLatch::latch', ignore=('GLatch', 'operator=', 'is_exclusive_latched', 'is_shared_latched', 'is_latched', 'get_readers', 'get_TID', 'tryupgradelatch')),
         'GLatch::_RCNT': Guard('GLatch::latch', ignore=('GLatch', 'operator=', 'is_exclusive_latched', 'is_shared_latched', 'is_latched', 'get_readers', 'get_TID')),
         'IVBlockManager::index_len_map': Guard('IVBlockManager::indexlock', ignore=('IVBlockManager', '~IVBlockManager', 'SaveFreeBlockList')),
         'IVBlockManager::len_index_map': Guard('IVBlockManager::indexlock', ignore=('IVBlockManager', '~IVBlockManager', 'SaveFreeBlockList')),
         'IVBlockManager::cur_block_num': Guard('IVBlockManager::indexlock', ignore=('IVBlockManager', '~IVBlockManager', 'SaveFreeBlockList')),
         'QueryCache::cache': Guard('QueryCache::query_cache_lock', ignore=('QueryCache', '~QueryCache')),
         'QueryCache::lru': Guard('QueryCache::query_cache_lock', ignore=('QueryCache', '~QueryCache')),
         'QueryCache::time_now': Guard('QueryCache::query_cache_lock', ignore=('QueryCache', '~QueryCache')),
         'QueryCache::total_memory_used': Guard('QueryCache::query_cache_lock', ignore=('QueryCache', '~QueryCache')),
         }
    for x in ('array', 'CurEntryNum', 'cache_head', 'cache_tail_id', 'CurCacheSize'): G['ISArray::' + x] = Guard('ISArray::AccessLock', ignore=isx)
    for x in ('index_table', 'num', 'empty_offset'):
        G['StringIndexFile::' + x] = Guard('StringIndex::latch', ignore=('StringIndexFile', '~StringIndexFile', 'save', 'load', 'clear', 'setNum'))
    for x in ('value', 'cacheFlag', 'prevID', 'nextID'): G['ISEntry::' + x] = Guard('ISArray::AccessLock', ignore=('ISEntry', '~ISEntry', 'Copy'))
    for x in ('root_', 'height_', 'request_'): G['SITree::' + x] = Guard('SITree::access_lock_', ignore=('SITree', '~SITree', 'PrintTree', 'Print', 'Save'))
    for q in G:
        c, f = q.rsplit('::', 1)
        if not any(x['n'] == f for x in P.records.get(c, {}).get('fields', [])): raise AnalysisBroken('field %s no longer exists' % q)
    class ER(GuardRule):
        def on_load(self, S, st, l, n):
            # saving and load-time pinning work on an array no request uses (C06, C07)
            if (n.get('q') or '').startswith(('IVEntry::', 'ISEntry::')) and n['q'] != 'IVEntry::vList' and self.cur.name in iv + isx: return
            return GuardRule.on_load(self, S, st, l, n)
    R = ER(P, G); S = Sim(P, R)
    once = ('PreLoad', 'PinCache', 'Print', 'PrintTree', 'GetHeight', 'SetHeight', 'GetRoot', 'setBstr', 'getBstr')     # load time, single threaded; accessors of the builder
    for cls, base in CLS1.items():
        R.run_entries(S, [F for F in roots(P, cls, base.split()) if F.name not in once and F.name not in (cls, '~' + cls)])
    ctx.use(S); finish_guards(ctx, R)
    ctx.need(len(R.sites), 60, 'guarded accesses')
    P = ctx.prog(['Database/Txn_manager.cpp', 'Util/Latch.cpp', 'Util/SpinLock.cpp'])
    T = 'Txn_manager::'
    G = {T + 'txn_table': Guard(T + 'table_lock', ignore=('Txn_manager', '~Txn_manager')),
         T + 'DirtyKeys': Guard((T + 'DirtyKeys_lock', T + 'checkpoint_lock'), ignore=('Txn_manager', '~Txn_manager')),
         T + 'out': Guard(T + 'log_lock', ignore=('Txn_manager', '~Txn_manager')), T + 'out_all': Guard(T + 'log_lock', ignore=('Txn_manager', '~Txn_manager'))}
    R = GuardRule(P, G); S = Sim(P, R)
    R.run_entries(S, roots(P, 'Txn_manager', 'Begin Commit Query Rollback Checkpoint Get_Transaction find_latest_txn abort_all_running print_txn_dataset restore'.split()))
    ctx.use(S); finish_guards(ctx, R)
    P = ctx.prog(['Database/Database.cpp', 'Util/Latch.cpp', 'Util/SpinLock.cpp'])
    G = {}
    D = 'Database::'
    names = 'allocEntityID freeEntityID allocLiteralID freeLiteralID allocPredicateID freePredicateID updateUmap'.split()
    for k in ('Entity', 'Literal', 'Predicate'):
        l = D + 'alloc%sID_lock' % k
        for f in ('freelist_%s' % k.lower(), 'limitID_%s' % k.lower(), '%s_num' % ('entity' if k == 'Entity' else 'literal' if k == 'Literal' else 'pre')):
            G[D + f] = Guard(l, only=lambda F: F.name in names)
    G[D + 'umap'] = Guard(D + 'umap_lock', only=lambda F: F.name in names)
    for q in G:
        c, f = q.rsplit('::', 1)
        if not any(x['n'] == f for x in P.records.get(c, {}).get('fields', [])): raise AnalysisBroken('field %s no longer exists' % q)
    R = GuardRule(P, G)
    w0 = R.wants
    R.wants = lambda F, n: F.cls != 'KVstore' and w0(F, n)
    S = Sim(P, R)
    R.run_entries(S, [F for F in P.cls_fns('Database') if F.name in names])
    ctx.use(S); finish_guards(ctx, R)
    ctx.need(len(R.sites), 12, 'guarded allocator accesses')
