NOTES = 'See DESIGN.md. No hooks are needed: the checks compile /repo sources as they are.'
P = []
def p(id, title, statement, over, qtext, why, files, mech, note=None, na=None, observe=None):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if observe: d['anchors']['observe_at'] = observe
    d['level_note'] = note; d['na'] = na
    P.append(d)
BOUND = ' Exhaustive within the stated bounds when the evidence says so; says nothing beyond them. Trusts clang, z3, the engine and the library stand-ins listed in the evidence.'
NOTESTS = 'The three stable tests exercise a few fixed inputs (dictionary comparison, one hash, one scratch test); none reaches this code with more than a handful of values. '

p('P01', 'A triple pattern over any index returns exactly the matching triples',
  'For every stored set of triples and every choice of indices to keep (one, three, four or all six orders, tables skipped because their reverse holds the same triples, flat or B+-tree term maps, any table layout, any split over files), reading a pattern in any of the six orders returns exactly the matching triples in that order. The terms of a position are listed once each with their counts, grouped reading returns each pair once with its multiplicity, and seeks, marks and resets within such an answer neither lose nor repeat a triple.',
  ['inputs', 'histories'], 'every set of up to 3 (4 in some configurations) triples over a domain of 2 ids near and far apart, every pattern of present and absent ids, all orders and index selections, every short sequence of step, seek, mark and reset',
  NOTESTS + 'Which code answers a pattern depends on the order, the bound positions, the indices kept and the sizes of individual tables; their combinations are far beyond a list of examples.',
  ['src/trident/kb/querier.cpp', 'src/trident/kb/kb.cpp', 'src/trident/kb/inserter.cpp', 'src/trident/iterators/scanitr.cpp', 'src/trident/iterators/termitr.cpp', 'src/trident/iterators/reorderitr.cpp', 'src/trident/iterators/reordertermitr.cpp', 'src/trident/iterators/aggritr.cpp', 'src/trident/tree/flatroot.cpp', 'src/trident/binarytables/tableshandler.cpp'],
  [('pattern to iterator', 'src/trident/kb/querier.cpp'), ('scan over all keys', 'src/trident/iterators/scanitr.cpp'), ('orders that are not stored', 'src/trident/iterators/reorderitr.cpp'), ('term lists', 'src/trident/iterators/termitr.cpp'), ('flat term map', 'src/trident/tree/flatroot.cpp'), ('writing the tables', 'src/trident/kb/inserter.cpp')],
  'Solver-decided on whole knowledge bases written by the inserter and reopened: all sets of 2 and 3 triples over 2 ids, 12 configurations.' + BOUND)
p('P07', 'Cardinalities and existence tests agree with the stored triples',
  'For every triple pattern the reported exact cardinality is the number of matching triples, existence and emptiness tests say whether there is one, the number of distinct values of a free position is exact, and estimates are exact when at most one position is bound and an index holds it and never zero for a pattern with matches. Asking one pattern never changes the answer to another.',
  ['inputs', 'histories'], 'every set of up to 3 (4 in some configurations) triples over a domain of 2 ids, every pattern of present and absent ids one after the other on the same querier, all index selections',
  NOTESTS + 'The query planner trusts these numbers blindly, and they are computed from cached lookups of the previous question.',
  ['src/trident/kb/querier.cpp', 'include/trident/kb/querier.h', 'src/trident/tree/flatroot.cpp'],
  [('cardinalities', 'src/trident/kb/querier.cpp')],
  'Solver-decided on whole knowledge bases: all sets of 2 and 3 triples over 2 ids, all patterns, 12 configurations.' + BOUND)
p('P05', 'An updated knowledge base answers as if it held exactly the resulting triples',
  'After any sequence of additions and deletions of triples (effective or not, overlapping, undoing each other), every triple pattern over every order, grouped reading, the lists of terms with their counts, cardinalities, estimates, existence tests and the size of the knowledge base are those of a knowledge base that holds exactly the resulting triples. The same is true after the updates are read again when the knowledge base is opened, after they are merged into one addition and one deletion, and after further updates on top of that.',
  ['inputs', 'histories'], 'every set of 1 or 2 triples over 2 ids, every sequence of 2 (for some sets 3 or 4) additions or deletions of one or two triples, ids near and far apart, all patterns of present and absent ids, with and without merging and reopening',
  NOTESTS + 'Answers are composed from the base tables and one small index per update; a fault needs a particular overlap of updates and a particular pattern.',
  ['src/trident/kb/diffindex3.cpp', 'src/trident/kb/querier.cpp', 'src/trident/kb/updater.cpp', 'src/trident/kb/kb.cpp', 'src/trident/iterators/compositeitr.cpp', 'src/trident/iterators/compositescanitr.cpp', 'src/trident/iterators/compositetermitr.cpp', 'src/trident/iterators/diffscanitr.cpp', 'src/trident/iterators/difftermitr.cpp', 'src/trident/iterators/rmitr.cpp'],
  [('index of one update', 'src/trident/kb/diffindex3.cpp'), ('composition of answers', 'src/trident/kb/querier.cpp'), ('adding and removing', 'src/trident/iterators/compositescanitr.cpp, rmitr.cpp'), ('merging', 'src/trident/kb/kb.cpp mergeUpdates'), ('effective part of an update', 'src/trident/kb/updater.cpp match')],
  'Solver-decided on whole knowledge bases with up to 4 updates of 1 or 2 triples over 2 ids. Updates are given as ids, not as text. Needs the three main orders or all six to be stored (otherwise the code throws "not yet implemented").' + BOUND)
p('P02', 'Every table layout returns exactly the sorted pairs that were written to it',
  'A table of sorted pairs stored in any of the physical layouts (column, row, cluster, with any field widths that fit the values, or the layout the system picks itself) reads back exactly those pairs in order. Restricting to a first value or a pair, grouping on the first value, asking for cardinalities, and any mix of step, seek, mark and reset give the results computed on the plain list of pairs, without reading outside the table. The difference of two columns is exact.',
  ['inputs', 'histories'], 'every sorted table up to the stated size and every value its field widths allow, every layout and width, every sequence of operations up to the stated length, every search key',
  NOTESTS + 'Layouts differ per predicate and value range, so a fault sits in one combination of width, layout and seek position.',
  ['include/trident/binarytables/newcolumntable.h', 'include/trident/binarytables/newrowtable.h', 'include/trident/binarytables/newclustertable.h', 'src/trident/binarytables/storagestrat.cpp', 'src/trident/binarytables/tableshandler.cpp', 'src/trident/binarytables/newcolumntableinserter.cpp', 'src/trident/binarytables/newclustertableinserter.cpp', 'src/trident/binarytables/newrowtableinserter.cpp', 'include/trident/binarytables/binarytablereaders.h', 'include/trident/binarytables/factorytables.h'],
  [('table readers', 'include/trident/binarytables/newcolumntable.h, newrowtable.h, newclustertable.h'), ('table writers', 'src/trident/binarytables/*inserter.cpp'), ('choice of layout', 'src/trident/binarytables/storagestrat.cpp')],
  'Solver-decided: tables of 2 to 4 arbitrary pairs in every layout, 3 operations, and 150-row tables with arbitrary keys.' + BOUND)
p('P03', 'The on-disk index map finds every key stored in it and no other',
  'After any sequence of insertions, in order or out of order, with any distances between the keys, the tree that maps terms to their tables (or to their numbers) returns for each key what was last stored under it and reports every other key as absent. Iterating returns the keys in ascending order with their values. Both hold before and after the tree is closed and reopened, whatever the cache size and however many levels and files it has.',
  ['inputs', 'histories'], 'every insertion order of up to 6 keys, every small distance between keys, every looked-up key, several cache and file sizes, every stored field value',
  NOTESTS + 'Nodes switch representation (consecutive, stepped, explicit keys) with the distances between keys and are evicted and reloaded in between, so faults need particular keys in a particular order.',
  ['src/trident/tree/root.cpp', 'src/trident/tree/node.cpp', 'src/trident/tree/leaf.cpp', 'src/trident/tree/intermediatenode.cpp', 'src/trident/tree/nodemanager.cpp', 'src/trident/tree/cache.cpp', 'src/trident/tree/treeitr.cpp'],
  [('keys of a node', 'src/trident/tree/node.cpp'), ('values of a leaf', 'src/trident/tree/leaf.cpp'), ('splitting and child lookup', 'src/trident/tree/intermediatenode.cpp'), ('nodes on disk', 'src/trident/tree/nodemanager.cpp')],
  'Solver-decided with 4 keys per node: 11 ascending keys in 8 distance patterns, every order of 6 keys, every distance up to 300.' + BOUND)
p('P04', 'Every term keeps its number and every number its term, across restarts',
  'Whatever terms are added to the dictionary, in whatever order, in order or not, more than once or not, each term is found under exactly the number it was given and each number is turned back into exactly its term, byte for byte; terms and numbers never added are reported as absent. This holds for terms of any length, also when they share their first letters, span or end exactly at the edge of a block, while blocks are compressed in the background under any interleaving, for terms added by updates (small ones kept in one file, large ones in a dictionary of their own), and after closing and reopening. Comparing a stored term with a string gives their byte order. Opening, filling and closing always ends.',
  ['inputs', 'histories', 'schedules'], 'every position of the terms relative to block edges, every contents of the new terms, every order and repetition of the last terms added, every schedule of the compression thread with one preemption (two in the thorough tier) at its synchronisation points',
  NOTESTS + 'Faults sit at block edges, in shared prefixes and in the timing of the compression thread.',
  ['src/trident/tree/stringbuffer.cpp', 'include/trident/tree/stringbuffer.h', 'src/trident/kb/dictmgmt.cpp', 'src/trident/tree/root.cpp', 'src/trident/tree/leaf.cpp', 'src/trident/tree/intermediatenode.cpp', 'src/trident/tree/node.cpp'],
  [('blocks of terms and their compression thread', 'src/trident/tree/stringbuffer.cpp'), ('terms to numbers and back', 'src/trident/kb/dictmgmt.cpp'), ('search by term', 'src/trident/tree/leaf.cpp, intermediatenode.cpp, node.cpp'), ('terms added by updates', 'src/trident/kb/dictmgmt.cpp putInUpdateDict, addUpdates')],
  'Solver-decided on the real sources with blocks of 32 bytes and 4 keys per node: symbolic terms at every block offset, dictionaries of up to 9 terms out of 14, two threads that switch at locks, waits and notifications. LZ4 is replaced by a literal-only encoder in the symbolic run (the real library in the replay). Terms with a line break, which no parser produces, are outside.' + BOUND)
p('P06', 'In-memory answers and their differences keep order, grouping and seeks',
  'An answer materialised in memory yields exactly its rows, in order, restricted to the bound values, whatever mix of step, seek, mark, reset and duplicate-skipping calls is made. Subtracting one sorted answer from another yields exactly the rows only the first holds, and grouped views report each group once with its exact size.',
  ['inputs', 'histories'], 'every sorted pair array up to the stated size, every combination of bound columns, every sequence of operations up to the stated length',
  NOTESTS + 'Seeks, marks and resets interact through iterator state, so a fault shows only for particular sequences.',
  ['src/trident/iterators/arrayitr.cpp', 'src/trident/iterators/rmitr.cpp', 'include/trident/iterators/arrayitr.h', 'include/trident/iterators/rmitr.h'],
  [('materialised answer iterator', 'src/trident/iterators/arrayitr.cpp'), ('difference iterator', 'src/trident/iterators/rmitr.cpp')],
  'Solver-decided over arrays of up to 4 pairs of arbitrary 64-bit values and 4 operations.' + BOUND)
p('P10', 'SPARQL joins return exactly the combinations the query asks for',
  'Joining two inputs yields every combination of rows that agree on the join variables, with the product of their multiplicities, and nothing else. When one side is optional, every row of the other side appears at least once, with the missing variables unbound. What a join tells the scans of the query about the values its variables can take never excludes one it produces. Starting a join again, as a join above it may do, yields the same rows again.',
  ['inputs'], 'every pair of inputs up to the stated number of rows, every value including the largest ids, all multiplicities, both optional sides',
  NOTESTS + 'The SPARQL runtime has no test at all; duplicates, empty sides and exhausted inputs in the middle of a group need inputs nobody wrote down.',
  ['rdf3x/src/rts/MergeJoin.cpp', 'rdf3x/src/rts/HashJoin.cpp', 'rdf3x/src/rts/CartProd.cpp', 'rdf3x/src/rts/NestedLoopJoin.cpp'],
  [('merge join', 'rdf3x/src/rts/MergeJoin.cpp'), ('hash join', 'rdf3x/src/rts/HashJoin.cpp'), ('cartesian product', 'rdf3x/src/rts/CartProd.cpp'), ('nested loop join', 'rdf3x/src/rts/NestedLoopJoin.cpp')],
  'Solver-decided against a reference bag semantics for up to 3x2 rows of arbitrary 64-bit values.' + BOUND)
p('P11', 'SPARQL row operators (union, minus, group, limit, filter) keep the right rows',
  'Each row operator of the query runtime returns exactly the rows its SPARQL meaning prescribes: unions add multiplicities, differences remove the matching rows, grouping and duplicate elimination report every distinct row once with its count, offsets and limits cut exactly, and filters keep exactly the rows that satisfy them. Restarting an operator yields the same rows again.',
  ['inputs'], 'every input up to the stated number of rows and columns and every 64-bit value, every duplicate mode, offset and limit',
  NOTESTS + 'None of the operators is tested; boundary rows, empty inputs and repeated values decide their correctness.',
  ['rdf3x/src/rts/MergeUnion.cpp', 'rdf3x/src/rts/Union.cpp', 'rdf3x/src/rts/Minus.cpp', 'rdf3x/src/rts/GroupBy.cpp', 'rdf3x/src/rts/HashGroupify.cpp', 'rdf3x/src/rts/DuplLimit.cpp', 'rdf3x/src/rts/ValuesScan.cpp', 'rdf3x/src/rts/Filter.cpp', 'rdf3x/src/rts/NestedLoopFilter.cpp', 'rdf3x/src/rts/Assignment.cpp'],
  [('unions', 'rdf3x/src/rts/Union.cpp, rdf3x/src/rts/MergeUnion.cpp'), ('difference', 'rdf3x/src/rts/Minus.cpp'), ('grouping', 'rdf3x/src/rts/GroupBy.cpp, rdf3x/src/rts/HashGroupify.cpp'), ('limits and duplicates', 'rdf3x/src/rts/DuplLimit.cpp'), ('inline values', 'rdf3x/src/rts/ValuesScan.cpp'), ('value filters', 'rdf3x/src/rts/Filter.cpp, rdf3x/src/rts/NestedLoopFilter.cpp')],
  'Solver-decided against reference bag semantics for up to 3 rows of arbitrary 64-bit values.' + BOUND)
p('P12', 'Index scans and their skip hints never lose or invent a triple',
  'A scan over one of the sort orders returns exactly the triples matching its bound positions, with the right counts for aggregated scans. Information passed sideways (the current position of a merge partner, or a summary of values seen elsewhere) may skip triples that cannot contribute but never one that still can, and a query-local dictionary gives equal terms equal ids and resolves each id to its term.',
  ['inputs', 'histories'], 'every small set of triples, every sort order, every combination of bound positions, every merge position and value summary',
  NOTESTS + 'Skipping is an optimisation whose faults silently drop answers for particular value layouts only.',
  ['rdf3x/src/rts/IndexScan.cpp', 'rdf3x/src/rts/AggregatedIndexScan.cpp', 'rdf3x/src/rts/FullyAggregatedIndexScan.cpp', 'rdf3x/src/rts/DomainDescription.cpp', 'rdf3x/src/rts/TemporaryDictionary.cpp'],
  [('index scans', 'rdf3x/src/rts/IndexScan.cpp, rdf3x/src/rts/AggregatedIndexScan.cpp, rdf3x/src/rts/FullyAggregatedIndexScan.cpp'), ('value summaries', 'rdf3x/src/rts/DomainDescription.cpp'), ('query dictionary', 'rdf3x/src/rts/TemporaryDictionary.cpp')],
  'Solver-decided over up to 2 stored triples (3 thorough), all 12 orders and 8 binding patterns, 2 summarised values.' + BOUND)
p('P13', 'FILTER expressions evaluate to what SPARQL defines, for every value',
  'For every pair of values that a row can bind (numbers carried in the id, numbers and strings stored as typed or plain literals, IRIs, unbound variables) a FILTER comparison (=, !=, <, <=, >, >=) is the comparison of numbers by value or of plain strings by text, and does not depend on which side is a constant; an unbound or malformed operand never satisfies an order and never crashes the query. &&, ||, !, bound, isIRI, isLiteral, isBlank, str, contains (on untyped terms) and + - * / on numbers give the values SPARQL defines, xsd:date and xsd:dateTime compare by time, and a selection lets through exactly the rows for which its expression is true, with their multiplicity. Integers from -2^61 to 2^61-1 and single precision numbers survive the encoding into an id, and their order is that of the numbers. Comparing a number with a string, and text functions over typed literals, are not part of this property.',
  ['inputs'], 'every integer and float an id can carry, all digits of stored numbers up to 2 (3 thorough) digits, short strings of arbitrary bytes, every nesting of two connectives',
  NOTESTS + 'An operator that looks at the wrong side, a sign that is lost or a quote that is parsed as a digit only show for particular values.',
  ['rdf3x/src/rts/Selection.cpp', 'rdf3x/include/rts/operator/Selection.hpp', 'include/trident/kb/dictmgmt.h'],
  [('expression operators', 'rdf3x/src/rts/Selection.cpp'), ('numbers in ids', 'include/trident/kb/dictmgmt.h')],
  'Solver-decided over the values stated; strings and digits are symbolic bytes, ids are symbolic numbers.' + BOUND)
p('P14', 'ORDER BY sorts and the aggregates count, sum and compare every row once',
  'ORDER BY returns exactly the rows it was given, each with its multiplicity, in an order in which no row precedes one that should come before it (by several keys, ascending or descending; unbound first, then terms by kind and text, numbers carried in ids by value, or by multiplicity). GROUP BY with COUNT, SUM, MIN, MAX and AVG returns one row for every group (one for all rows without GROUP BY, also without any row), with the value computed over the bound values of the group, each as often as its row occurs or once with DISTINCT; MIN and MAX of nothing are unbound, COUNT, SUM and AVG of nothing are 0, several functions over one variable do not disturb one another and the key of a group stays what it was.',
  ['inputs'], 'up to 3 rows (4 thorough), every combination of keys, all multiplicities up to 3, numbers in ids, typed integers and doubles, unbound values, both directions of every key',
  NOTESTS + 'Group boundaries, ties, missing values and multiplicities decide whether a row is counted twice or not at all.',
  ['rdf3x/src/rts/Sort.cpp', 'rdf3x/src/rts/GroupBy.cpp', 'rdf3x/src/rts/AggrFunctions.cpp', 'src/trident/sparql/aggrhandler.cpp'],
  [('sorting', 'rdf3x/src/rts/Sort.cpp'), ('groups', 'rdf3x/src/rts/GroupBy.cpp, rdf3x/src/rts/AggrFunctions.cpp'), ('aggregate functions', 'src/trident/sparql/aggrhandler.cpp')],
  'Solver-decided against a reference computed in the harness. SUM and AVG with concretely enumerated multiplicities.' + BOUND)
p('P18', 'A SPARQL query returns exactly its solutions, each as often as it should',
  'For every stored set of triples, a SELECT query made of triple patterns (also with repeated variables), FILTER with =, !=, NOT IN, bound, && and ||, OPTIONAL, UNION, MINUS, FILTER NOT EXISTS, VALUES, nested groups and subselects (with DISTINCT, LIMIT and OFFSET) parses, and returns the rows the SPARQL algebra defines, each with the right multiplicity (once with DISTINCT), with unbound variables unbound, whatever the estimates that steer the choice of plan say. Terms that do not occur match nothing. The order of rows is not part of this property.',
  ['inputs', 'configurations'], 'every set of triples of the stated size over the stated terms, every query of the listed set, every tried set of estimates',
  NOTESTS + 'The plan, and with it the operators that run, depends on the query and on estimates; a wrong plan, a lost binding or a mixed-up register only shows for particular data.',
  ['rdf3x/src/cts/SPARQLParser.cpp', 'rdf3x/src/cts/SemanticAnalysis.cpp', 'rdf3x/src/cts/QueryGraph.cpp', 'rdf3x/src/cts/PlanGen.cpp', 'rdf3x/src/cts/CodeGen.cpp', 'rdf3x/src/rts/HashJoin.cpp', 'rdf3x/src/rts/MergeJoin.cpp', 'rdf3x/src/rts/Minus.cpp', 'rdf3x/src/rts/Selection.cpp', 'rdf3x/src/rts/Union.cpp', 'rdf3x/src/rts/DuplLimit.cpp'],
  [('text to query graph', 'rdf3x/src/cts/SPARQLParser.cpp, rdf3x/src/cts/SemanticAnalysis.cpp'), ('join edges', 'rdf3x/src/cts/QueryGraph.cpp'), ('choice of plan', 'rdf3x/src/cts/PlanGen.cpp'), ('plan to operators', 'rdf3x/src/cts/CodeGen.cpp')],
  'Solver-decided for 127 queries over every set of 3 triples (two predicates, four terms); six queries are known findings. An in-memory store stands in for the indices (their own properties are P01 to P07).' + BOUND)
p('P27', 'Queries over the stored indices return exactly what the stored triples give',
  'For every knowledge base on disk, a scan requested by the query engine (any of the twelve orders, with zero, one or two trailing columns left out, with any leading columns bound, started once or again) returns exactly the matching rows, in order, each with the number of triples it stands for; the number of matches of a pattern is reported exactly; and a SPARQL query evaluated over the indices, with the skipping of rows that joins request from the scans, returns the rows that the SPARQL algebra gives for the stored triples, each as often as it should.',
  ['inputs', 'configurations'], 'every set of triples of the stated size over two nodes and two predicates, every order, aggregation and binding, several index configurations, every query of the list',
  NOTESTS + 'Whether a row is skipped depends on the plan, on the estimates of the real indices and on where the other side of a join stands, so a lost or repeated row needs particular data and a particular query.',
  ['src/layers/TridentLayer.cpp', 'include/layers/TridentLayer.hpp', 'rdf3x/src/rts/IndexScan.cpp', 'rdf3x/src/rts/AggregatedIndexScan.cpp', 'rdf3x/src/rts/FullyAggregatedIndexScan.cpp', 'rdf3x/src/rts/HashJoin.cpp', 'rdf3x/src/rts/MergeJoin.cpp', 'rdf3x/src/cts/CodeGen.cpp', 'src/trident/kb/querier.cpp', 'src/trident/iterators/scanitr.cpp', 'src/trident/iterators/reordertermitr.cpp'],
  [('scans over the indices', 'src/layers/TridentLayer.cpp'), ('skipping rows', 'rdf3x/src/rts/IndexScan.cpp, rdf3x/src/rts/MergeJoin.cpp, rdf3x/src/rts/HashJoin.cpp'), ('which variables share a value summary', 'rdf3x/src/cts/CodeGen.cpp')],
  'Solver-decided: every choice of 3 triples (4 for some queries) out of 8 is a symbolic choice, 121 queries, knowledge bases are built by the real loader code. Names of terms come from a list (the dictionary is not part of it).' + BOUND)
p('P19', 'Bulk loading gives the same knowledge base whatever the number of threads',
  'For every input of triples and every choice of threads, partitions and buffer sizes, loading stores exactly the distinct triples of the input in every requested order and gives every term one number.',
  ['inputs', 'schedules', 'configurations'], 'every input, number of threads and interleaving of the sorting and merging threads',
  NOTESTS + 'Races and partition borders depend on the schedule and on sizes.',
  ['src/trident/kb/loader.cpp', 'src/trident/kb/permsorter.cpp'],
  [('parallel sort and merge', 'src/trident/kb/permsorter.cpp, src/trident/kb/loader.cpp')], None,
  na='The sorting and dictionary compression go through KOGNAC, a library that is not in the repository, and through file sorts over threads and buffers sized from the machine; encoding it symbolically is out of reach. What loading writes is covered from Inserter on by P01 to P03, and the dictionary by P04.')
p('P20', 'Training and testing of embeddings are reproducible and rank correctly',
  'For a fixed seed, training visits every triple once per epoch and never reads outside the embedding matrices, and the filtered rank of a test triple counts exactly the better answers that are not known triples.',
  ['inputs', 'schedules'], 'every knowledge base, model and schedule of the learner threads',
  NOTESTS + 'Depends on floating point iteration and on lock-free updates by several threads.',
  ['src/trident/ml/learner.cpp', 'src/trident/ml/tester.cpp', 'src/trident/ml/batch.cpp'],
  [('training', 'src/trident/ml/learner.cpp'), ('testing', 'include/trident/ml/tester.h')], None,
  na='Randomised floating point iteration with intentional lock-free races (Hogwild); neither the engine (no symbolic floating point arithmetic of that size) nor an exact oracle is available.')
P.sort(key=lambda x: x['id'])
