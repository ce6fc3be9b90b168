PROPS = []
NOTE = ('Decided on the source of every listed translation unit for every path up to the stated abstraction (loops summarised by state merging, unknown callees havocked); '
        'assumes no undefined behaviour elsewhere corrupts the modelled state and trusts the clang front end and the analysis engine.')
def P(id, title, statement, over, text, why, files, mech, technique=None, note=NOTE, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech)
    if na: d['na'] = na
    else: d['technique'] = technique; d['note'] = note
    PROPS.append(d)

P('C01', 'Storage operations give back every lock they take',
  'Every operation of the storage layer (value lists, string tables, block space, version chains, row latches, string dictionary tree, string index, query cache, identifier allocation) that takes one of its internal locks has released it when it returns, on every success, failure and error path, never takes a lock it already holds and never releases one it does not hold. A failed read, write or allocation therefore never leaves later requests hanging.',
  ['inputs', 'histories', 'fault_sequences'], 'every storage operation, every input and every outcome of the I/O, allocation and conflict checks inside it',
  'The tests run the success paths of a few databases; error exits of individual storage operations (short reads, full cache, conflicting latches) are not reached, and a leaked lock only shows when another thread needs it.',
  ['KVstore/IVArray', 'KVstore/ISArray', 'KVstore/SITree', 'StringIndex/StringIndex.cpp', 'Query/QueryCache.cpp', 'Util/Latch.cpp', 'Util/GraphLock.cpp', 'Database/Database.cpp'],
  [('cache, table and access locks', 'KVstore/IVArray/IVArray.cpp, KVstore/ISArray/ISArray.cpp'), ('row latch spin lock', 'Util/GraphLock.cpp'), ('identifier locks', 'Database/Database.cpp alloc*/free*')],
  technique='path-sensitive lock typestate (dataflow over clang CFGs)')
P('C02', 'Shared storage state is only touched under its lock',
  'Concurrent readers, writers and transactions never access shared storage state - value-list tables during transactions, replacement chains and cache accounting, version chains, row latch owner and reader counts, free-space maps, string tables, the string tree, the query cache, the transaction table, dirty-key registers, identifier free lists - without holding the lock that protects it. Accesses that change the state hold that lock exclusively.',
  ['schedules', 'histories'], 'every interleaving of storage operations; decided per access on every path',
  'Unguarded accesses are schedule-dependent data races; the tests run queries one at a time.',
  ['KVstore/IVArray', 'KVstore/ISArray', 'KVstore/SITree', 'StringIndex', 'Query/QueryCache.cpp', 'Database/Txn_manager.cpp', 'Database/Database.cpp', 'Util/GraphLock.cpp'],
  [('table / cache / latch locks', 'KVstore/IVArray/IVArray.h, IVEntry.h'), ('table_lock, DirtyKeys_lock, log_lock', 'Database/Txn_manager.h')],
  technique='guarded-by analysis (flow-sensitive lock sets, interprocedural)')
P('C03', 'Server management operations give back every lock they take',
  'Every management operation of the server (accounts, privileges, loaded databases, build catalogue, transactions, addresses, access/query/transaction logs, user functions, system database, backup log) has released all its internal locks when it returns, on every success and failure path, including empty or missing files, unknown names and system-database queries that fail with an exception. Only the operations whose purpose is to hand a database lock to the request that asked for it may keep that one lock.',
  ['inputs', 'histories', 'fault_sequences'], 'every management operation, every argument and every file / registry state it may meet',
  'A leaked lock blocks a later request, not the one under test; the tests do not drive empty logs, unknown users or failing files through the server layer.',
  ['GRPC/APIUtil.cpp', 'GRPC/APIUtil.h', 'Util/Util.cpp'],
  [('registry and log locks', 'GRPC/APIUtil.cpp pthread_rwlock_*'), ('backup log lock', 'Util/Util.cpp *_backuplog')],
  technique='path-sensitive lock typestate (dataflow over clang CFGs)')
P('C04', 'Server registries are only touched under their lock',
  'The account table, the table of loaded databases, the catalogue of built databases, the table of transaction managers, the client address table and each account\'s seven privilege sets are only read while the lock of that registry is held, and only changed while it is held exclusively, in every operation the server offers after start-up.',
  ['schedules', 'histories'], 'every interleaving of management requests from any number of clients; decided per access on every path',
  'The races need two simultaneous requests; the tests do not issue concurrent management requests.',
  ['GRPC/APIUtil.cpp', 'GRPC/APIUtil.h'],
  [('registry locks', 'GRPC/APIUtil.h users_map_lock, databases_map_lock, already_build_map_lock, txn_m_lock, ips_map_lock'), ('privilege set locks', 'GRPC/APIUtil.h DBUserInfo')],
  technique='guarded-by analysis (flow-sensitive lock sets, interprocedural)')
P('C06', 'Every request gives the databases it uses back',
  'An HTTP request that locks a database (shared to query, export or inspect it, exclusively to load, unload, drop, rename, back up, restore, checkpoint or change it in bulk) has given exactly that lock back when its processing ends, on every success, refusal, failure and exception path; it never takes the lock of a database it already holds. Work on a database happens only while the lock is held in the mode it needs, on the database as it was found under that lock, and a database is registered as loaded only if it was found not to be loaded under its exclusive lock.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every request, every refusal and failure inside it, every engine exception',
  'A request that keeps a lock only blocks a later load, drop or query; use of a database that another request unloads meanwhile needs two simultaneous requests. The tests do not drive the server.',
  ['Main/ghttp.cpp'], [('requests', 'Main/ghttp.cpp *_thread_new'), ('database locks', 'GRPC/APIUtil.cpp trywrlock_database, rdlock_database, unlock_database, *_databaseinfo')],
  technique='path-sensitive lock typestate with exceptional control flow')
P('C07', 'Queries and updates of a database exclude each other',
  'Outside a transaction a query reads the stored data only while it holds the database\'s update lock, and an update changes stored data only while it holds that lock exclusively, so no query sees half of an update; the clean-up at a checkpoint is such an update. A query whose caller may not update never reaches a step that changes data, inside or outside a transaction. Every exit of a query, including every failure and every exception of evaluation, gives the lock back.',
  ['inputs', 'schedules', 'fault_sequences'], 'every query and update text, every interleaving, every failure inside evaluation',
  'Needs an update and a query at the same time, or an evaluation that fails half way followed by an update; the tests run one successful query at a time.',
  ['Database/Database.cpp'], [('query execution', 'Database/Database.cpp query'), ('lock', 'Database/Database.h update_lock')],
  technique='path-sensitive lock typestate with effect analysis of callees and exceptional control flow')
P('C19', 'What is recorded about accounts and databases is what is in force',
  'After every management operation (add, delete account, change password, grant, revoke, clear and copy privileges, register a built database, drop one) the changes written to the system database and the changes made to the running server are the same set: same account, privilege kind, database and password, nothing recorded without taking effect, nothing in effect without being recorded, whether the operation succeeds or fails. At startup every recorded privilege is read back as the privilege of that kind.',
  ['inputs', 'histories'], 'every management operation, each of the seven privilege kinds, every name including names the system database rejects',
  'A disagreement only shows after a restart or after a failed statement; the tests neither restart the server nor make statements fail.',
  ['GRPC/APIUtil.cpp'], [('operations', 'GRPC/APIUtil.cpp user_add, user_delete, user_pwd_alert, add_privilege, del_privilege, clear_user_privilege, copy_privilege, add_already_build, delete_from_already_build'), ('startup', 'GRPC/APIUtil.cpp initialize')],
  technique='effect agreement over path-sensitive symbolic statement texts, case enumeration over privilege kinds')
P('C17', 'No request reaches an effect it was not admitted for',
  'Every HTTP request that reaches the databases, transactions or management operations has before passed, on that path, the address list check, the failure-count check (login and testConnect excepted), the verification of its credentials, and the privilege check of that very user for the very operation requested on the very database worked on. What the operation then reaches belongs to that operation (only user management changes accounts, only drop and rename remove databases, and so on), and a query runs with data changes allowed only if the user\'s update privilege was checked.',
  ['inputs', 'programs'], 'every request of every method, every operation name and every combination of parameters',
  'Over thirty operations share one gate; the tests do not drive the HTTP server at all, and a bypass shows only for a user who lacks a privilege.',
  ['Main/ghttp.cpp'], [('request gate and dispatch', 'Main/ghttp.cpp request_thread'), ('route table', 'Main/ghttp.cpp initialize'), ('query task', 'Main/ghttp.cpp Task, query_thread_new')],
  technique='path-sensitive gate typestate + effect analysis over the call graph')
P('C18', 'The privilege check implements the documented matrix',
  'An account other than root is allowed an operation exactly when it needs no privilege (login, testConnect, getCoreVersion, check, show, userpassword, the function operations, upload, download) or when the account holds, for the database named in the request, the one privilege the operation needs: query for query and monitor; update for update, batchInsert, batchRemove and the transaction operations; load, unload, restore, backup and export for the operation of that name. Every other operation is reserved for root, root may do everything, and nobody may operate on the system database.',
  ['inputs', 'histories'], 'every operation name, account and database, any content of the privilege sets',
  'The matrix has over 150 cells, none exercised by the tests.',
  ['GRPC/APIUtil.cpp'], [('decision', 'GRPC/APIUtil.cpp check_privilege')],
  technique='exhaustive case enumeration by abstract interpretation of the decision function')
P('C22', 'Failed log-ins lock an address out',
  'Every failed credential check on any HTTP entry point (requests, shutdown, upload, download) is counted, exactly once per recorded failure, for the address the request came from; an address with more than four recorded failures is refused and one with at most four is not; address-list and failure refusals apply exactly at the admission levels they are specified for; only a successful login resets the count.',
  ['inputs', 'histories'], 'every sequence of requests from an address, every admission level',
  'Brute-force protection only shows after several failures from one address; no test makes failing requests.',
  ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'GRPC/APIUtil.h'], [('admission', 'GRPC/APIUtil.cpp check_access_ip, ip_error_num_check'), ('counting', 'GRPC/APIUtil.cpp update_access_ip_error_num')],
  technique='path-sensitive typestate + exhaustive case enumeration')
P('C24', 'File transfer stays behind the gate and inside its folders',
  'The HTTP server writes an uploaded file only for an admitted address with verified credentials, an allowed suffix and an announced size within the limit, and only directly inside the upload folder whatever name the client sends. It hands out a file only for an admitted address with verified credentials and only if the resolved path of exactly that file lies inside the home directory.',
  ['inputs'], 'every upload and download request, every file name and path',
  'Path traversal and unauthenticated transfer need crafted requests; the tests make none.',
  ['Main/ghttp.cpp'], [('upload', 'Main/ghttp.cpp upload_handler'), ('download', 'Main/ghttp.cpp download_handler, start_with')],
  technique='path-sensitive typestate with value provenance')
P('C30', 'Only the system user can stop the server',
  'No HTTP request makes the server process end unless its address passed the address list and failure checks, it names the system user, and the password it carries was compared equal to the system password.',
  ['inputs'], 'every request on every route',
  'Needs requests with wrong users, wrong passwords or locked addresses, which the tests do not make.',
  ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp'], [('shutdown', 'Main/ghttp.cpp shutdown_handler'), ('comparison', 'GRPC/APIUtil.cpp check_server_indentity')],
  technique='path-sensitive typestate over process-ending effects')
P('C31', 'An update request does what its form says',
  'INSERT DATA adds exactly its triples; DELETE DATA removes exactly its triples; DELETE WHERE removes its pattern instances; DELETE and/or INSERT with WHERE removes what its DELETE template yields, then adds what its INSERT template yields; all inside the transaction the request belongs to, only if the caller permitted updates, with every change counted in the reported number. A query form changes nothing.',
  ['inputs'], 'every update form, with and without transaction, permitted or not',
  'The tests never use the combined form, and a misrouted template is only seen by comparing the data before and after.',
  ['Parser/QueryParser.cpp', 'Database/Database.cpp'], [('collection', 'Parser/QueryParser.cpp visitModify, visitInsertData, visitDeleteData, visitDeleteWhere, visitTriplesSameSubject'), ('application', 'Database/Database.cpp query')],
  technique='case enumeration by path-sensitive dataflow, composition of parser and engine tables')
P('C25', 'Every request is answered exactly once and no failure ends the server',
  'Every HTTP request gets exactly one answer, on every path through its handler: refusals, failures of the engine, and exceptions of every type that evaluation or the management code throws. No exception leaves a function that runs as a thread or as a queued task, so no request makes the server process end by an error.',
  ['inputs', 'fault_sequences'], 'every route, every operation, every combination of parameters and failures',
  'The paths concerned are error paths of over forty handlers; the tests do not drive the HTTP server.',
  ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'Database/Database.cpp', 'Parser/QueryParser.cpp'], [('handlers', 'Main/ghttp.cpp *_thread_new, *_handler'), ('answers', 'Main/ghttp.cpp sendResponseMsg'), ('queued queries', 'Main/ghttp.cpp Task, ThreadPool')],
  technique='path-sensitive counting of answers with exceptional control flow and an exception-type escape analysis')
P('C32', 'The body of a request cannot end the server',
  'Whatever JSON a client sends in the body of a request, before or after it logged in, the server reads a member only if it exists and reads a value as a string, number or object only if it is one. Such a read is undefined, or ends the process, otherwise.',
  ['inputs'], 'every request body: no JSON, JSON that is no object, missing members, members of every type',
  'Needs bodies no regular client sends; the tests send none.',
  ['Main/ghttp.cpp'], [('request parsing', 'Main/ghttp.cpp request_thread, shutdown_handler, download_handler, querylog_thread_new')],
  technique='path-sensitive type-state of JSON values (dominating member and type tests)')
P('C12', 'The three indexes hold the same triples',
  'Adding or removing a triple changes, exactly once each, the entry of its subject (predicate and object), of its object (predicate and subject; entity objects and literal objects in their own arrays) and of its predicate (subject and object), each under its own key, with and without a transaction, so a triple is found from all three sides or from none. A batch starts the same kind of change of the same triples for all three indexes and waits for all of them; while the batch is grouped by key, what was collected for a key is applied under that key before the next key begins and before the batch ends, never twice and never under another key.',
  ['inputs', 'histories'], 'every triple (entity or literal object, new or known), every batch size and key distribution, with and without transaction',
  'A triple missing from one index shows only in queries whose plan uses that index; the tests run a fixed set of plans over data built in one go, not over indexes after updates.',
  ['KVstore/KVstore.cpp', 'Database/Database.cpp'], [('single changes', 'KVstore/KVstore.cpp updateTupleslist_insert, updateTupleslist_remove'), ('batches', 'Database/Database.cpp batch_insert, batch_remove, sub_batch_update')],
  technique='path-sensitive effect matching over inlined index operations, typestate of the batch grouping')
P('C13', 'Names and IDs stay one to one',
  'An entity, literal or predicate gets an ID only when its name is not known yet; the ID can then be found by the name and the name by the ID, in the tables of its kind, before it is used in an index. An update that introduces it also hands it to the string index that answers are printed from, in the table of its kind. An ID is given up only when no triple uses it any more, counted after the change; both directions are removed under the name the ID has, and the ID is given back exactly once, also when it is subject and object of the removed triple, occurs twice in a batch, or was given up before.',
  ['inputs', 'histories'], 'every insert, removal, batch and checkpoint, over every combination of new and known, entity and literal, shared and last-used names',
  'A lost or doubled ID surfaces only later, when the ID is handed out again to another name: the tests never remove a triple and then insert others.',
  ['Database/Database.cpp'], [('single updates', 'Database/Database.cpp insertTriple, removeTriple'), ('batches', 'Database/Database.cpp batch_insert, batch_remove'), ('clean-up at checkpoint', 'Database/Database.cpp VersionClean')],
  technique='path-sensitive typestate of name/ID pairs with recorded branch evidence')
P('C11', 'A transaction sees exactly the versions its isolation level grants',
  "A transaction reads a key as the stored list with the committed versions its isolation level makes visible - the newest committed state at read committed, the state when it began at snapshot and serialisable - plus its own changes, and never another transaction's uncommitted change. It may change a key only if no other transaction has an uncommitted version of it and, except at read committed, nobody committed one after it began; at serialisable level it also needs the key's shared or exclusive latch, which is granted, upgraded, downgraded and released by the latch's state table. A commit stamps its version as beginning, and the one before as ending, at the commit; a roll-back takes exactly its own version away; a refusal leaves nothing behind and aborts the transaction; growing the array keeps versions and latches.",
  ['inputs', 'histories', 'schedules'], 'every combination of time stamps, latch states and isolation levels of one key, every order of calls',
  'The outcome depends on which transaction tests the time stamps or latch first: the tests run one transaction at a time.',
  ['KVstore/IVArray/IVEntry.cpp', 'KVstore/IVArray/IVArray.cpp', 'Util/GraphLock.cpp'], [('versions of one key', 'KVstore/IVArray/IVEntry.cpp ReadVersion, GetExclusiveLatch, UnLatch, InvalidExlusiveLatch, WriteVersion, CleanAllVersion, Copy'), ('latch', 'Util/GraphLock.cpp GLatch'), ('array', 'KVstore/IVArray/IVArray.cpp search, TryExclusiveLatch, ReleaseLatch, Rollback, CleanDirtyKey, insert, remove'), ('readers', 'KVstore/KVstore.cpp get*list*')],
  technique='path outcomes of an abstract interpretation against the decision table of the isolation levels and the latch state table')
P('C08', 'A transaction begins once, ends once, and a checkpoint waits for it',
  'A transaction begins under a number no other transaction has, only while its database is open, and holds checkpoints back while it runs. It ends at most once, committed or rolled back; committing, rolling back or querying a transaction that is unknown or has ended has no effect and is refused. Commands to one transaction arriving at the same time act one after the other. A query that is refused or aborted ends its transaction by rolling it back. What a committed transaction changed is recorded for the checkpoint before the checkpoint can run. A database is let go only after every transaction on it was rolled back and no further one can begin.',
  ['inputs', 'histories', 'schedules'], 'every order and interleaving of begin, query, commit, rollback, checkpoint, unload and drop',
  'Two commands to one transaction at the same time, or an unload between two of them, need an interleaving; the tests issue one command after the other.',
  ['Database/Txn_manager.cpp', 'Database/Transaction.cpp'], [('life cycle', 'Database/Txn_manager.cpp Begin, Commit, Rollback, Query, Checkpoint, abort_all_running, Close'), ('record', 'Database/Transaction.h')],
  technique='typestate of the transaction record narrowed under its lock, with release epochs and lock sets')
P('C09', 'A change inside a transaction takes all its locks or none',
  'An insertion or removal inside a transaction happens only after its subject, its predicate and its object (entity or literal) are all held for writing, by this or an earlier change of the transaction. If one is refused, the change is not made, the ones just taken are given back exactly as they were before (shared where the transaction had read the key, free otherwise), nothing held before is touched, and the transaction is aborted. Whether the triple exists is read only after the locks are held. Afterwards every lock taken is either in the write set of the transaction, or given back with the transaction aborted.',
  ['inputs', 'histories', 'schedules'], 'every triple, every combination of keys read and written before, every combination of grants and refusals',
  'A refusal needs a second transaction holding one of the three keys at that moment; the tests run one transaction at a time.',
  ['KVstore/KVstore.cpp', 'Database/Database.cpp', 'Util/Transaction.cpp'], [('taking and giving back', 'KVstore/KVstore.cpp try_exclusive_lock, ReleaseExclusiveLock'), ('changes', 'Database/Database.cpp insertTriple, removeTriple')],
  technique='all-or-nothing typestate of three resources, forking on membership and grant')
P('C10', 'What a transaction held is given back, what it committed reaches the stored data',
  'A serialisable transaction reads a subject, predicate or object only with its shared latch, and writes each granted latch, and no other, into its read set under the right kind. When it commits, every key of its write set gets its version stamped as committed in the index of its kind; when it is rolled back, every one loses exactly its own version; either way every key only read gives its shared latch back, every key exactly once. The keys a committed transaction wrote are handed to the checkpoint by kind, objects split into entities and literals; the checkpoint merges for each of them first the additions, then the removals of all versions into the stored list, discards the versions once, and stores the result, or removes the key when nothing is left.',
  ['inputs', 'histories', 'schedules'], 'every read and write set, every isolation level, every combination of additions and removals of a key',
  'A latch left behind or a version not merged shows only when a later transaction or checkpoint meets the key; the tests run single transactions.',
  ['KVstore/KVstore.cpp', 'Database/Txn_manager.cpp', 'Util/Transaction.cpp'], [('ends', 'KVstore/KVstore.cpp ReleaseAllLocks, TransactionInvalid'), ('reads', 'KVstore/KVstore.cpp get*list*'), ('hand-over', 'Database/Txn_manager.cpp add_dirty_keys, Checkpoint'), ('merge', 'KVstore/KVstore.cpp IVArrayVacuum, *_vacuum')],
  technique='universal-element typestate over set loops, key/kind/array matching, version-order tracking')
P('C29', 'What is not there is never used',
  'Whatever name a request carries - of a database, an account, a transaction, an address, a privilege - and whatever was dropped, unloaded or deleted since the name was checked: the server uses the entry of a registry, a loaded database, a transaction manager, a transaction or an opened file only where the lookup or the opening is known to have succeeded. Otherwise the request is refused; the process is never ended by a null pointer or an end iterator.',
  ['inputs', 'histories', 'schedules'], 'every name, every order of drops, unloads and deletions between the checks of a request and its use, every failing open',
  'Needs names nobody has, or a drop between two steps of another request; the tests use existing names one at a time.',
  ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'Util/Util.cpp', 'Database/Txn_manager.cpp'], [('registries', 'GRPC/APIUtil.cpp get_database, get_databaseinfo, get_Txn_ptr, check_privilege, users'), ('handlers', 'Main/ghttp.cpp *_thread_new'), ('logs', 'GRPC/APIUtil.cpp *_transactionlog; Util/Util.cpp *_backuplog')],
  technique='path-sensitive null-pointer / end-iterator dereference analysis with callee summaries')
P('C26', 'The text of a request is data: it is never run as a command or a statement',
  'Whatever characters a request carries: no word of it is ever interpreted by the shell, and none changes which statement is run on the system database. A database name, a new name or an account name becomes part of a command or a statement only after it was found free of the characters that end a name or a word, found among the existing databases or accounts, or belongs to the account whose credentials were verified; a password only after it was found free of the characters that end a literal; a path reaches the shell only as one quoted word. The operations that by their purpose compile and load functions written by a client are not covered.',
  ['inputs'], 'every value of every parameter of every operation of the HTTP server and the management API',
  'Needs a value with a quote, a space or a semicolon in the right parameter; the tests use plain names.',
  ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'Util/Util.cpp'], [('examination', 'GRPC/APIUtil.cpp check_param_value'), ('statements', 'GRPC/APIUtil.cpp user_add, user_delete, add_privilege, build_db_user_privilege, init_privilege'), ('commands', 'Main/ghttp.cpp backup_thread_new, restore_thread_new; GRPC/APIUtil.cpp db_copy')],
  technique='path-sensitive taint analysis over the call graph, sanitisers judged by what they examine')
P('C15', 'A stored database is read back as it was written',
  'Whatever data a database holds: each of its files - the counters, the free IDs, the string index, the string and list arrays with their blocks and free lists, the trees - is read in the order, width and place in which it was written, and each counter comes back into the counter it was written from. Saving a database saves every store of the key-value store, the counters, the free IDs and the string index before it discards the update log; loading it restores each of them or fails.',
  ['inputs', 'histories'], 'every number of entries, every string length and block count, every path of the saving and loading code',
  'An order, width or place that differs shows only for certain sizes (a string that ends at a block, a second block, a freed ID, a replaced string) or only after a reload.',
  ['Database/Database.cpp', 'KVstore/KVstore.cpp', 'KVstore/IVArray', 'KVstore/ISArray', 'KVstore/SITree/storage', 'Util/VList.cpp', 'StringIndex/StringIndex.cpp'], [('counters', 'Database/Database.cpp saveDBInfoFile, loadDBInfoFile, saveIDinfo, readIDinfo'), ('arrays', 'KVstore/IVArray, KVstore/ISArray: save, open, ReadValue, WriteValue, SaveFreeBlockList'), ('trees', 'KVstore/SITree/storage/SIStorage.cpp ReadNode, WriteNode, WriteTree'), ('parts', 'Database/Database.cpp save, load; KVstore/KVstore.cpp flush')],
  technique='extraction of write and read automata from all paths, language and place-map comparison, must-reach of every part')
exec(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'props_na.py')).read())
