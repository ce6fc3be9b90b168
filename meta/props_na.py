P('N01', 'Queries return exactly the SPARQL solutions of the data',
  'For every graph and every supported query, the answer set equals the solution multiset defined by the SPARQL algebra over the current triples. No solution is missing, added or duplicated beyond the algebra.',
  ['inputs', 'programs'], 'all graphs, all queries', 'Tests compare a fixed list of queries on fixed data.',
  ['Query', 'Parser', 'Database/Executor.cpp', 'Database/Join.cpp'], [('evaluation', 'Query/GeneralEvaluation.cpp'), ('joins', 'Database/Executor.cpp')],
  na='Equality of two answer multisets quantifies over runtime data and query plans; no dataflow or type argument in reach bounds it, and structural rules over the evaluator would not decide it.')
P('N02', 'Every join plan gives the same answers',
  'Whatever join order, plan shape or index choice the optimiser makes, the answer is the same.',
  ['inputs', 'programs'], 'all plans for all queries', 'Tests see one plan per query.',
  ['Query/topk', 'Database/Optimizer.cpp', 'Database/PlanGenerator.cpp'], [('plan enumeration', 'Database/PlanGenerator.cpp')],
  na='Needs an equivalence proof over runtime tables; outside what static analysis of this code base can decide.')
P('N03', 'A crash at any point loses no acknowledged update',
  'After a crash at any instant, restarting recovers every acknowledged update and no partial one.',
  ['crash_points', 'histories'], 'all crash points', 'Tests never crash the process.',
  ['Database/Database.cpp', 'KVstore'], [('update log', 'Database/Database.cpp write_update_log')],
  na='The on-disk files are overwritten in place without a write-ahead protocol for them, so the full property is false by design. That everything is saved before the update log is discarded is claimed (C15).')
P('N04', 'Committed transactions are serialisable',
  'Any set of concurrent committed transactions at the strictest isolation level is equivalent to some serial order.',
  ['schedules', 'histories'], 'all interleavings', 'Tests run transactions one after another.',
  ['Database/Txn_manager.cpp', 'KVstore/IVArray/IVEntry.cpp'], [('row latches', 'KVstore/IVArray/IVEntry.cpp')],
  na='A global property of histories (phantoms, predicate reads, real-time order) that needs a model of all interleavings of data values; the local protocol obligations that are statically decidable are claimed (C08-C11).')
P('N05', 'Loading and exporting a graph is lossless',
  'For every valid N-Triples/Turtle input, the set of triples exported equals the set loaded, with identical terms.',
  ['inputs'], 'all documents', 'Tests load a few files.', ['Parser/RDFParser.cpp', 'Parser/TurtleParser.cpp', 'Database/Database.cpp'], [('parser', 'Parser/TurtleParser.cpp')],
  na='Escaping and lexical fidelity is a property of string values produced at run time.')
P('N06', 'Path and graph functions compute their definition',
  'Shortest path, cycle, k-hop and analytic functions return what their mathematical definition prescribes on every graph.',
  ['inputs'], 'all graphs', 'Tests use small graphs.', ['Query/PathQueryHandler.cpp', 'Query/CSR.cpp'], [('algorithms', 'Query/PathQueryHandler.cpp')],
  na='Functional correctness of numeric/graph algorithms over runtime graphs; not a property a sound static analysis in reach decides.')
P('N07', 'No input makes the engine read or write out of bounds',
  'No query, update, document or request makes the process access memory out of bounds or after release.',
  ['inputs'], 'all inputs', 'Tests use benign inputs.', ['Parser', 'Query', 'KVstore', 'Main'], [('manual memory management', 'whole tree')],
  na='Whole-program memory safety of this C++ code (raw pointers, manual buffers, unbounded sizes) is not provable with the available analyses without drowning in alarms.')
P('N08', 'Requests finish in bounded time',
  'Every request terminates and a client is never starved by others.',
  ['schedules', 'inputs'], 'all schedules', 'Tests see only terminating runs.', ['Main/ghttp.cpp', 'Database'], [('thread pool', 'Main/ghttp.cpp')],
  na='Liveness and run-time bounds depend on data sizes and scheduling; absence of lock-order deadlock is claimed separately.')
