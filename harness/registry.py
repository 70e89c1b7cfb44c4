COMMON_ASSUMPTIONS = [
 'The code is compiled with clang 18 -O1 for x86-64 and its LLVM IR is executed symbolically; clang, its optimiser at -O1, z3 and the engine in symx/ are trusted, and the engine is cross-checked on every run by replaying solved paths on a native ASan build of the same sources',
 'operator new and malloc never fail; the file system model is in memory and does not fail unless the harness injects a fault',
 'logging, iostream formatting and locale are replaced by the shims in symx/include (text output is kept, formatting flags are not)',
 'KOGNAC is not available offline: /verif/kognac holds a small stand-in with the interface the sources use',
]
PROPS = {}
def prop(id, level='model_checking', assumptions=(), **kw):
    PROPS[id] = {'runs': [], 'level': level, 'assumptions': list(assumptions)}
    PROPS[id].update(kw)
    return PROPS[id]['runs']
def run(harness, entry, sources=(), **kw):
    return dict(harness=harness, entry=entry, sources=list(sources), **kw)

r = prop('P06')
AI = ['src/trident/iterators/arrayitr.cpp', 'src/trident/iterators/rmitr.cpp']
r.append(run('iters_array.cpp', 'h_array_ops', AI, shards=[{'n': n, 'cons': c, 'k': 4} for n in (0, 1, 3) for c in (0, 1, 2)], reach=['seek', 'reset']))
r.append(run('iters_array.cpp', 'h_array_groups', AI, shards=[{'n': 4}], reach=['groups']))
r.append(run('iters_array.cpp', 'h_rm_diff', AI, shards=[{'n': 3}], reach=['difference']))
r.append(run('iters_array.cpp', 'h_rm_groups', AI, shards=[{'n': 4}], reach=['group difference']))
r.append(run('iters_array.cpp', 'h_rm_seek', AI, shards=[{'n': 3}], reach=['seek']))
RT = 'rdf3x/src/rts/'
def rts(*n): return [RT + x + '.cpp' for x in ('Operator', 'Runtime', 'DomainDescription', 'PlanPrinter') + n] + ['rdf3x/src/infra/Mutex.cpp', 'rdf3x/src/infra/Pool.cpp']
OPS = rts('MergeJoin', 'HashJoin', 'CartProd', 'MergeUnion', 'Union', 'Minus', 'GroupBy', 'HashGroupify', 'DuplLimit', 'ValuesScan', 'Filter', 'NestedLoopFilter', 'NestedLoopJoin', 'Assignment', 'EmptyScan', 'SingletonScan', 'Scheduler')
r = prop('P10')
H = 'rts_ops.cpp'
sz = [{'nl': a, 'nr': b} for a, b in ((0, 2), (2, 0), (2, 2), (3, 2), (2, 3))]
r.append(run(H, 'h_merge_join', OPS, shards=sz + [{'nl': 2, 'nr': 2, 'noskip': 1}], reach=['several rows']))
r.append(run(H, 'h_merge_join_ro', OPS, shards=sz, reach=['several rows']))
r.append(run(H, 'h_merge_join_lo', OPS, shards=sz, reach=['several rows']))
r.append(run(H, 'h_hash_join_domains', OPS, shards=[{'nl': n, 'nr': m, 'pre': p, 'ro': o} for n, m, o in ((3, 2, 0), (2, 1, 1)) for p in (0, 1, 3)] + [{'onkey': 0}], reach=['several rows']))
for e in ('h_hash_join', 'h_hash_join_ro', 'h_hash_join_lo'): r.append(run(H, e, OPS, shards=sz, reach=['several rows']))
r.append(run(H, 'h_cart_prod', OPS, shards=[dict(s, lo=lo, ro=ro) for s in sz for lo, ro in ((0, 0), (1, 0), (0, 1))], reach=['product']))
r.append(run(H, 'h_nested_loop_join', OPS, shards=sz, reach=['product']))
r = prop('P11')
r.append(run(H, 'h_merge_union', OPS, shards=sz, reach=['both inputs']))
r.append(run(H, 'h_union', OPS, shards=[{'parts': 0}, {'parts': 2}, {'parts': 3}], reach=['several parts']))
r.append(run(H, 'h_minus', OPS, shards=[{'nl': 3, 'nr': 2, 'w': 1}, {'nl': 2, 'nr': 2, 'w': 2}, {'nl': 2, 'nr': 0}], reach=['some rows removed']))
r.append(run(H, 'h_group_by', OPS, shards=[{'n': 3, 'distinct': d, 'order': o} for d in (0, 1) for o in (0, 1, 2)] + [{'n': 0}], reach=['several rows']))
r.append(run(H, 'h_hash_groupify', OPS, shards=[{'n': 3, 'w': 1}, {'n': 3, 'w': 2, 'nk': 2}, {'n': 3, 'w': 2, 'nk': 3, 'kmask': 1}], reach=['grouped']))
r.append(run(H, 'h_hash_groupify_grow', OPS, reach=['grown']))
r.append(run(H, 'h_dupl_limit', OPS, shards=[{'dup': d, 'n': n} for d in (0, 1) for n in (0, 2)], reach=['offset and rows']))
r.append(run(H, 'h_values_scan', OPS, shards=[{'n': n, 'w': w} for n, w in ((0, 1), (3, 1), (3, 2), (2, 3))], reach=['rows']))
r.append(run(H, 'h_filter', OPS, shards=[{'n': 2, 'nv': v, 'exclude': e, 'domain': d} for v in (0, 2) for e, d in ((0, 0), (1, 0), (0, 1))], reach=['rows']))
r.append(run(H, 'h_nested_loop_filter', OPS, reach=['rows']))
r.append(run(H, 'h_trivial_ops', OPS, reach=['assigned']))

SC = rts('IndexScan', 'AggregatedIndexScan', 'FullyAggregatedIndexScan', 'TemporaryDictionary')
r = prop('P12')
H = 'scans.cpp'
r.append(run(H, 'h_index_scan', SC, shards=[{'n': 2, 'order': o, 'bound': b, 'exact': (o + b) & 1} for o in range(12) for b in range(8)], thorough_shards=[{'n': 3, 'order': o, 'bound': b, 'exact': e} for o in range(12) for b in range(8) for e in (0, 1)], reach=['rows']))
r.append(run(H, 'h_aggregated_scan', SC, shards=[{'n': 2, 'order': o, 'bound': b, 'exact': (o + b) & 1} for o in range(12) for b in range(8)], thorough_shards=[{'n': 3, 'order': o, 'bound': b, 'exact': e} for o in range(12) for b in range(8) for e in (0, 1)], reach=['rows']))
r.append(run(H, 'h_fully_aggregated_scan', SC, shards=[{'n': 2, 'order': o, 'bound': b, 'exact': e} for o in range(12) for b in (0, 7) for e in (0, 1)], reach=['rows']))
r.append(run(H, 'h_scan_hint', SC, shards=[{'bound': b, 'merge': m, 'dom': d, 'kind': k} for k in (0, 1, 2) for b in (0, 1, 3) for m in (1, 2, 5) for d in (0, 1) if not (d and m == 5)], thorough_shards=[{'bound': b, 'merge': m, 'dom': d, 'kind': k} for k in (0, 1, 2) for b in (0, 1, 2, 3) for m in (0, 1, 2, 3, 4, 5, 7) for d in (0, 1)], reach=['hint']))
r.append(run(H, 'h_domain', SC, shards=[{'n': 0}, {'n': 1}] + [{'n': 2, 'qlo': q} for q in (0, 2, 7)], thorough_shards=[{'n': 0}, {'n': 1}] + [{'n': 2, 'qlo': q} for q in range(8)], reach=['values']))
r.append(run(H, 'h_temp_dict', SC, shards=[{'k': 3, 'w0': w} for w in range(4)], thorough_shards=[{'k': 4, 'w0': w} for w in range(4)], reach=['dictionary']))

BT = 'src/trident/binarytables/'
TAB = [BT + x + '.cpp' for x in ('binarytableinserter', 'clustertableinserter', 'columntableinserter', 'fileindex', 'newclustertableinserter', 'newcolumntable', 'newcolumntableinserter', 'newrowtableinserter', 'rowtableinserter', 'storagestrat', 'tableshandler')] + ['src/trident/files/filedescriptor.cpp']
r = prop('P02')
H = 'tables.cpp'
LAY = [(0, 3, 3), (0, 0, 2), (1, 0, 0), (1, 1, 2), (1, 2, 3), (1, 3, 1), (1, 3, 3), (2, 0, 1), (2, 1, 0), (2, 2, 2), (2, 3, 3), (3, 1, 3), (4, 3, 0)]
L = [{'layout': a, 'w1': b, 'w2': c} for a, b, c in LAY]
LALL = [{'layout': a, 'w1': b, 'w2': c} for a in (1, 2, 3) for b in range(4) for c in range(4)] + [{'layout': 0, 'w1': b, 'w2': c} for b in range(4) for c in range(4)] + [{'layout': 4, 'w1': 3, 'w2': 0}]
r.append(run(H, 'h_table_roundtrip', TAB, shards=[dict(x, n=3) for x in L], thorough_shards=[dict(x, n=n) for x in LALL for n in (1, 4)], reach=['read back', 'pair present', 'first value present']))
r.append(run(H, 'h_table_strategy', TAB, shards=[{'n': 2, 'cluster': c} for c in (1, 2, 3)], thorough_shards=[{'n': 3, 'cluster': c} for c in (1, 2, 3, 4)], reach=['read back']))
r.append(run(H, 'h_table_ops', TAB, shards=[dict(x, n=3, k=3, mode=m) for x in [{'layout': 0, 'w1': 1, 'w2': 2}, {'layout': 1, 'w1': 1, 'w2': 2}, {'layout': 2, 'w1': 1, 'w2': 2}] for m in (0, 1, 2)], reach=['seek', 'reset']))
r.append(run(H, 'h_table_big', TAB, shards=[{'layout': a, 'n': 150, 'per': p} for a in (0, 1, 2) for p in (1, 3)] + [{'layout': 1, 'n': 150, 'per': 75}], reach=['first value present', 'pair present', 'seek found']))
r.append(run(H, 'h_column_difference', TAB, shards=[{'a': a, 'b': b, 'stop': s} for a in (1, 2) for b in (1, 2) for s in (0, 1)], reach=['difference']))

TREE = ['src/trident/tree/' + x + '.cpp' for x in ('cache', 'intermediatenode', 'leaf', 'node', 'nodemanager', 'root', 'treeitr', 'stringbuffer')] + ['src/trident/files/filedescriptor.cpp']
r = prop('P03')
H = 'tree.cpp'
r.append(run(H, 'h_tree_ascending', TREE, shards=[{'gaps': g, 'append': (g + c + u) & 1, 'cache': c, 'num': u, 'n': 11} for g in range(8) for u, c in ((0, 1), (1, 2))], thorough_shards=[{'gaps': g, 'append': a, 'cache': c, 'num': u, 'n': n, 'fmax': f} for g in range(8) for a in (0, 1) for u in (0, 1) for c in (1, 3) for n, f in ((5, 64), (26, 300), (13, 1 << 20))], reach=['reopened', 'found']))
r.append(run(H, 'h_tree_order', TREE, shards=[{'num': u, 'k0': k, 'n': 6, 'keys': 6, 'gaps': g} for u, g in ((0, 0), (1, 2), (0, 6)) for k in range(6)], thorough_shards=[{'num': u, 'k0': k, 'n': 7, 'keys': 7, 'gaps': g, 'cache': c} for u in (0, 1) for c in (1, 2) for g in (0, 1, 2, 6) for k in range(7)], reach=['reopened', 'found']))
r.append(run(H, 'h_tree_order', TREE, shards=[{'num': 1, 'n': 4, 'keys': 4, 'perm': 0}], reach=['reopened', 'overwritten']))
r.append(run(H, 'h_tree_values', TREE, shards=[{'field': f} for f in range(5)], reach=['values']))
r.append(run(H, 'h_tree_number', TREE, reach=['values']))
r.append(run(H, 'h_tree_gaps', TREE, shards=[{'lo': 1, 'hi': 150}, {'lo': 151, 'hi': 300}], reach=['gaps']))

def src(d, *n): return ['src/trident/' + d + '/' + x + '.cpp' for x in n]
KB = TAB + src('tree', 'cache', 'flatroot', 'intermediatenode', 'leaf', 'node', 'nodemanager', 'root', 'treeitr', 'stringbuffer') + src('kb', 'cacheidx', 'dictmgmt', 'diffindex1', 'diffindex3', 'inserter', 'kb', 'kbconfig', 'memoryopt', 'partial', 'querier') + src('iterators', 'aggritr', 'arrayitr', 'cacheitr', 'compositeitr', 'compositescanitr', 'compositetermitr', 'diffscanitr', 'difftermitr', 'reorderitr', 'reordertermitr', 'rmitr', 'scanitr', 'termitr')
r = prop('P01')
H = 'kb.cpp'
def strat(layout, w1, w2): return {0: 3 << 5, 1: (4 << 5), 2: (5 << 5), 3: (5 << 5) | 1}[layout] | (w1 << 3 | w2 << 1 if layout else 0)
FIX = [strat(0, 0, 0), strat(1, 0, 1), strat(1, 3, 2), strat(2, 1, 0), strat(3, 1, 3)]
KS = [{'n': 2, 'nidx': i} for i in (6, 4, 3, 1)] + [{'n': 3, 'nidx': i, 't0': k} for i in (6, 4, 3, 1) for k in range(0, 6, 1 if i in (6, 1) else 3)]
KV = [{'n': 3, 'nidx': i, 't0': k, 'gap': 300, 'base': 200} for i in (6, 3) for k in (0, 2)] + [{'n': 3, 'nidx': 6, 't0': k, 'base': 1 << 38, 'gap': 1 << 33} for k in (0, 3)] + [{'n': 3, 'nidx': 6, 't0': k, 'flat': 1} for k in (0, 1, 4)] + [{'n': 3, 'nidx': 6, 't0': k, 'flat': 1, 'skip': 2, 'base': 3} for k in (0, 2)] + [{'n': 3, 'nidx': 6, 't0': k, 'skip': s} for s, k in ((1, 0), (2, 0), (2, 2), (3, 0))] + [{'n': 3, 'nidx': 6, 't0': k, 'fmax': 30} for k in (0, 2)] + [{'n': 3, 'nidx': 6, 't0': 0, 'fixed': f} for f in FIX] + [{'n': 4, 'nidx': 6, 't0': k, 'reasoning': 0} for k in range(1, 5)]
r.append(run(H, 'h_kb_patterns', KB, shards=KS + KV, thorough_shards=[{'n': 4, 'nidx': i, 't0': k, 'skip': s, 'fmax': f} for i in (6, 4, 3, 1) for k in range(5) for s in (0, 2, 3) for f in (30, 1 << 20)] + [{'n': 3, 'dom': 3, 'nidx': 6, 't0': k, 'flat': f, 'base': b} for k in range(25) for f in (0, 1) for b in (0, 7)], reach=['patterns', 'several matches']))
r = prop('P07')
r.append(run(H, 'h_kb_counts', KB, shards=KS + KV, thorough_shards=[{'n': 4, 'nidx': i, 't0': k, 'skip': s} for i in (6, 4, 3, 1) for k in range(5) for s in (0, 2, 3)] + [{'n': 3, 'dom': 3, 'nidx': 6, 't0': k, 'flat': f} for k in range(25) for f in (0, 1)], reach=['counts']))

r = PROPS['P01']['runs']
r.append(run(H, 'h_kb_seek', KB, shards=[{'n': 3, 'perm': p, 't0': 0, 'nidx': i, 'skip': s, 'k': 2} for p in range(6) for i, s in ((6, 0), (6, 2), (1, 0)) if i == 6 or p in (1, 2, 4, 5)], thorough_shards=[{'n': 3, 'perm': p, 't0': t, 'nidx': i, 'skip': s, 'k': 3} for p in range(6) for t in range(3) for i, s in ((6, 0), (6, 2), (3, 0), (1, 0))], reach=['seek to a key', 'seek to a value', 'seek to a pair', 'mark', 'reset']))
r.append(run(H, 'h_kb_seek', KB, shards=[{'n': 4, 'spread': 1, 'gap': 300, 'base': 200, 'perm': p, 'nidx': i, 'skip': s, 'k': 2} for p, i, s in [(0, 6, 0), (1, 6, 0), (4, 1, 0), (5, 3, 2), (3, 6, 2), (4, 6, 2), (5, 6, 0), (2, 1, 0)]], reach=['seek to a key', 'reset']))
r.append(run(H, 'h_kb_seek', KB, shards=[{'n': 3, 't0': 0, 'perm': p, 'nidx': i, 'k': 2, 'bound': 1} for p, i in ((0, 6), (4, 6), (2, 6), (1, 3), (3, 3), (5, 6))], reach=['seek to a value']))
r = PROPS['P07']['runs']
r.append(run(H, 'h_kb_history', KB, shards=[{'f0': f, 't0': t, 'nidx': i, 'maxpos': 1} for f in range(7) for t, i in ((0, 6), (1, 3))], thorough_shards=[{'f0': f, 't0': t, 'nidx': i, 'k0': k} for f in range(7) for t in range(4) for i in (6, 3) for k in range(3)], reach=['present after absent']))
r = PROPS['P01']['runs']
r.append(run(H, 'h_kb_grid', KB, shards=[{'nidx': i, 'mid': m, 'gap': g, 'skip': s} for i, m, g, s in ((6, 1, 1, 0), (3, 0, 300, 0), (3, 1, 1, 0), (3, 2, 1, 0), (1, 0, 1, 0), (1, 2, 300, 0), (4, 1, 1, 0), (6, 0, 1, 40))], thorough_shards=[{'nidx': i, 'mid': m, 'gap': g, 'ns': 8, 'no': 7, 'fmax': f} for i in (6, 4, 3, 1) for m in range(3) for g in (1, 300) for f in (400, 1 << 20)], reach=['long tables']))

r = prop('P05')
H = 'updates.cpp'
UP = KB + src('kb', 'updater', 'updatestats')
U2 = [{'k': 2, 'kinds': a, 'what': w, 't0': t} for a in range(4) for w in range(3) for t in ((0, 3) if w == 0 else (1,))]
U3 = [{'n': 1, 'k': 3, 'kinds': a, 't0': 0, 'u0': u, 'what': (a + u) % 3} for a in range(8) for u in (0, 3)]
UV = [{'k': 2, 'kinds': a, 'u0': 1, 't0': 0, 'nidx': i, 'base': b, 'gap': g, 'what': w} for a, i, b, g, w in ((1, 3, 0, 1, 0), (2, 3, 0, 1, 1), (3, 3, 0, 1, 2), (2, 6, 200, 300, 0), (1, 6, 70000, 70000, 0), (3, 6, 70000, 70000, 1))]
UM = [{'k': 1, 'kinds': a, 'm': 2, 'n': n, 't0': 0, 'what': w, 'u0': 0} for a, n in ((0, 3), (1, 1)) for w in range(3)]
r.append(run(H, 'h_updates', UP, shards=U2 + U3 + UV + UM, thorough_shards=[{'k': 2, 'kinds': a, 'what': w, 't0': t, 'n': 2} for a in range(4) for w in range(3) for t in range(7)] + [{'n': 1, 'k': 3, 'kinds': a, 't0': t, 'u0': u, 'what': w} for a in range(8) for t in (0, 5) for u in (0, 3, 7) for w in range(3)] + [{'k': 1, 'kinds': a, 'm': 3, 'n': n, 't0': 0, 'what': w, 'u0': u} for a, n in ((0, 4), (1, 1)) for w in range(3) for u in range(3)], reach=['addition', 'deletion', 'update without effect']))
US = [{'n': 1, 't0': 0, 'k': 3, 'kinds': a, 'merge': 1, 'u0': b, 'u1': b} for a in range(8) for b in (0, 3)] + [{'n': 1, 't0': 0, 'k': 4, 'kinds': a, 'merge': 1, 'u0': b, 'u1': b, 'u2': b, 'u3': b} for a in (5, 10) for b in (0, 3)] + [{'n': 1, 't0': 3, 'k': 2, 'kinds': a, 'merge': 0, 'u0': u, 'more': x} for a, u, x in ((0, 3, 1), (2, 3, 2), (1, 1, 2), (3, 1, 1))] + [{'n': 1, 't0': 3, 'k': 3, 'kinds': a, 'merge': 1, 'u0': u, 'u1': u, 'u2': 2, 'more': x} for a, u, x in ((3, 1, 1), (2, 3, 2))]
r.append(run(H, 'h_merge_updates', UP, shards=US, thorough_shards=[{'n': 2, 't0': t, 'k': 2, 'kinds': a, 'merge': 0} for t in range(7) for a in range(4)] + [{'n': 1, 't0': t, 'k': 3, 'kinds': a, 'merge': 1, 'u0': u} for t in (0, 5) for a in range(8) for u in range(0, 8, 2)], reach=['addition', 'deletion', 'several updates']))

r = prop('P13')
H = 'exprs.cpp'
EX = rts('Selection')
UNB, NINT, NFLT, DINT, DSTR, IRI, TINT, TSTR, DDBL, BLANK, LANG = range(11)
CMP = [(a, b) for a in (UNB, NINT, DINT, DSTR, TINT, TSTR, DDBL) for b in (UNB, NINT, DINT, DSTR, TINT, TSTR, DDBL) if a not in (TINT, TSTR) or b not in (TINT, TSTR)] + [(NFLT, NINT), (NINT, NFLT), (NFLT, NFLT), (NFLT, DDBL), (DINT, NFLT), (NFLT, UNB), (TINT, TINT)]
CMP = [c for c in CMP if not ({c[0], c[1]} & {DSTR, TSTR}) or not ({c[0], c[1]} & {NINT, NFLT, DINT, TINT, DDBL})]
r.append(run(H, 'h_compare', EX, shards=[{'a': a, 'b': b, 'digits': d} for a, b in CMP for d in ((1, 2) if {a, b} & {DINT, TINT} and a != b else (1,))], thorough_shards=[{'a': a, 'b': b, 'digits': d} for a, b in CMP for d in ((1, 2, 3) if {a, b} & {DINT, TINT} else (1,))], reach=['less', 'greater']))
r.append(run(H, 'h_equal', EX, shards=[{'a': a, 'b': b} for a in (UNB, NINT, DINT, DSTR, IRI, TINT) for b in (UNB, NINT, DINT, DSTR, IRI, TINT) if not (NINT in (a, b) and {DSTR, IRI} & {a, b})], reach=['equal', 'different']))
r.append(run(H, 'h_connectives', EX, shards=[{'op': o} for o in range(8)], reach=['true', 'false']))
r.append(run(H, 'h_functions', EX, shards=[{'a': a} for a in (DINT, DSTR, IRI, DDBL, BLANK, LANG)], reach=['functions']))
r.append(run(H, 'h_arith', EX, shards=[{'a': a, 'b': b, 'op': o} for a, b in ((DINT, DINT), (DINT, DDBL), (DDBL, TINT), (TINT, DINT)) for o in range(5)], reach=['less', 'not less']))
r.append(run(H, 'h_malformed', EX, shards=[{'b': b} for b in (DINT, TINT, DDBL)], reach=['malformed']))
r.append(run(H, 'h_dates', EX, shards=[{'time': t} for t in (0, 1)], reach=['dates']))
r.append(run(H, 'h_selection_rows', EX, shards=[{'n': 3}], reach=['several rows']))
r.append(run(H, 'h_number_ids', EX, shards=[{'a': a, 'b': b} for a in (NINT, NFLT) for b in (NINT, NFLT)], reach=['numbers']))
r = prop('P14')
H = 'aggr.cpp'
AG = rts('Sort', 'GroupBy', 'AggrFunctions') + ['src/trident/sparql/aggrhandler.cpp']
r.append(run(H, 'h_sort', AG, shards=[{'n': 3, 'cols': 1, 'd0': d} for d in (0, 1)] + [{'n': 3, 'cols': 2, 'dom': 3, 'd0': d, 'd1': e} for d in (0, 1) for e in (0, 1)] + [{'n': 2, 'cols': 2, 'd0': d, 'd1': 1 - d} for d in (0, 1)] + [{'n': 3, 'cols': 0, 'num': 1, 'd0': d} for d in (0, 1)] + [{'n': 3, 'cols': 0, 'count': 1, 'd0': d} for d in (0, 1)] + [{'n': 3, 'cols': 2, 'num': 1, 'dom': 2, 'd1': 1}, {'n': 0}, {'n': 1}], thorough_shards=[{'n': 4, 'cols': 1, 'd0': d} for d in (0, 1)] + [{'n': 3, 'cols': 2, 'd0': d, 'd1': e} for d in (0, 1) for e in (0, 1)] + [{'n': 4, 'cols': 0, 'num': 1, 'd0': d} for d in (0, 1)], reach=['sorted']))
COUNT, MIN, MAX, SUM, _, AVG = range(6)
AGS = [{'n': 3, 'func': f, 'kinds': k} for f in (COUNT, MIN, MAX) for k in (1, 2, 9)] + [{'n': 3, 'func': SUM, 'kinds': 1, 'maxc': 2}, {'n': 2, 'func': SUM, 'kinds': 2}, {'n': 2, 'func': SUM, 'kinds': 9}, {'n': 2, 'func': AVG, 'kinds': 2}, {'n': 3, 'func': AVG, 'kinds': 2, 'maxc': 1}, {'n': 2, 'func': AVG, 'kinds': 9, 'span': 2, 'maxc': 2}] + [{'n': 2, 'func': f, 'kinds': 15, 'span': 3, 'maxc': 2} for f in (MIN, MAX, SUM)] + [{'n': 2, 'func': AVG, 'kinds': 14, 'maxc': 2}] + [{'n': 3, 'func': COUNT, 'kinds': 24}, {'n': 3, 'func': COUNT, 'kinds': 24, 'distinct': 1}, {'n': 2, 'func': SUM, 'kinds': 10, 'distinct': 1}, {'n': 3, 'func': SUM, 'kinds': 2, 'distinct': 1, 'maxc': 1}] + [{'n': n, 'func': f, 'kinds': 9, 'grouped': 0, 'span': 3} for n in (0, 2) for f in (COUNT, MIN, MAX, SUM, AVG)] + [{'n': 2, 'func': f, 'func2': g, 'kinds': 2} for f, g in ((COUNT, SUM), (MIN, MAX), (SUM, AVG), (AVG, COUNT))] + [{'n': 2, 'func': SUM, 'kinds': 2, 'keyagg': 1}]
r.append(run(H, 'h_aggregate', AG, shards=AGS, thorough_shards=AGS + [{'n': 3, 'func': f, 'kinds': 2} for f in (SUM, AVG)] + [{'n': 3, 'func': f, 'kinds': 15, 'span': 3} for f in (COUNT, MIN, MAX)], reach=['aggregated', 'several groups']))
r = prop('P18')
H = 'sparql.cpp'
CTS = ['rdf3x/src/cts/' + x + '.cpp' for x in ('CodeGen', 'Plan', 'PlanGen', 'QueryGraph', 'SPARQLLexer', 'SPARQLParser', 'SemanticAnalysis')] + rts('AggregatedIndexScan', 'AggrFunctions', 'Assignment', 'CartProd', 'DuplLimit', 'EmptyScan', 'Filter', 'FullyAggregatedIndexScan', 'GroupBy', 'HashGroupify', 'HashJoin', 'IndexScan', 'MergeJoin', 'MergeUnion', 'Minus', 'NestedLoopFilter', 'NestedLoopJoin', 'ResultsPrinter', 'Scheduler', 'Selection', 'SingletonScan', 'Sort', 'TableFunction', 'TemporaryDictionary', 'Union', 'ValuesScan') + src('sparql', 'aggrhandler') + src('utils', 'json')
QJ = [3, 8, 11, 14, 16, 24, 30, 32, 36, 41, 50, 55, 57, 60, 64, 66, 70, 73, 79, 81, 88, 93, 94, 96, 104, 105, 106, 107, 110, 113, 121]
r.append(run(H, 'h_sparql', CTS + KB, shards=[{'q': k, 'preds': 5} for k in range(127)] + [{'q': k, 'preds': 6, 'seed': 1 + k % 3} for k in QJ], thorough_shards=[{'q': k, 'preds': p, 'seed': sd} for k in range(127) for p, sd in ((1, 0), (5, 1), (6, 2), (5, 3), (2, 4), (4, 5), (3, 6))], reach=['query', 'rows']))
r = prop('P27')
H = 'layer.cpp'
LY = CTS + KB + ['src/layers/TridentLayer.cpp', 'src/trident/model/table.cpp']
r.append(run(H, 'h_layer_scan', LY, shards=[{'n': 3, 'nidx': 6, 't0': t} for t in range(4)] + [{'n': 2, 'nidx': 6, 'skip': 2}, {'n': 2, 'nidx': 3}, {'n': 2, 'nidx': 4}, {'n': 2, 'nidx': 1}, {'n': 2, 'nidx': 6, 'flat': 1}], reach=['scans', 'several rows']))
QL = [k for k in range(127) if k not in (29, 33, 59, 71, 76, 126)]
r.append(run(H, 'h_layer_sparql', LY, shards=[{'n': 3, 'q': q, 't0': q % 2} for q in QL] + [{'n': 4, 'q': q, 't0': 0} for q in (0, 4, 8, 9, 10, 11, 12, 32, 34, 36, 66, 82)], thorough_shards=[{'n': n, 'q': q, 't0': t} for n, ts in ((3, (0, 1, 2, 3)), (4, (0,))) for q in QL for t in ts], reach=['query', 'rows']))

COOP = ['-include', 'coop.h']
r = prop('P04')
H = 'dict.cpp'
SBUF = ['src/trident/tree/stringbuffer.cpp']
r.append(run(H, 'h_sb_roundtrip', SBUF, defs=COOP, shards=[{'f0': f, 'f1': f} for f in range(6, 34)] + [{'f0': f, 'f1': f, 'pick': 1, 'after': f & 1, 'l0': 5, 'l1': 5} for f in range(6, 34)] + [{'f0': f, 'f1': f, 'n': 3, 'l0': 5, 'l1': 6, 'after': 1} for f in range(0, 34, 4)] + [{'f0': f, 'f1': f, 'deep': 1, 'after': 4, 'pick': p, 'l0': 6, 'l1': 6} for f in range(2, 34, 4) for p in (0, 1)] + [{'f0': f, 'f1': f, 'n': 1, 'l0': 1, 'l1': 4, 'after': a, 'pick': p} for f in (0, 8, 25, 28, 31) for a in (0, 2) for p in (0, 1)], reach=['reopened', 'three blocks', 'last block full']))
r.append(run(H, 'h_sb_threads', SBUF, defs=COOP, shards=[{'n': n, 'preempt': 1, 'at': a, 'tail': t} for n, a, t in ((8, 7, 0), (8, 6, 1), (7, 7, 1))] + [{'n': n, 'preempt': 1, 'at': 6, 'reads': 0, 'scan': s, 'tail': 1} for n, s in ((10, 4), (11, 3), (9, 5))] + [{'n': n, 'preempt': 2, 'at': 9, 'reads': 0, 'tail': t} for n in (2, 3) for t in (0, 1)], thorough_shards=[{'n': n, 'preempt': 2, 'at': n - 1, 'tail': t} for n, t in ((7, 0), (7, 1), (8, 0), (9, 1))] + [{'n': 12, 'preempt': 1, 'at': a, 'tail': 1} for a in (6, 8, 10)], reach=['closed', 'reopened', 'preempted']))
DICT = TREE + src('kb', 'dictmgmt')
DD = COOP + ['-DWITH_DICT']
r.append(run(H, 'h_dict', DICT, defs=DD, shards=[{'mode': 0, 'n': 9, 'skip': s, 'probe': p} for s in (0, 4) for p in (0, 1, 2)] + [{'mode': m, 'n': n, 'probe': p, 'now': w, 'free': 1 if p else 2} for m in (1, 2, 3) for n in (6, 9) for p, w in ((0, 1), (1, 0), (2, 0))], reach=['filled', 'reopened', 'added twice', 'term found', 'term absent']))
r.append(run(H, 'h_dict_updates', DICT, defs=DD, shards=[{'trees': t, 'gud': g, 'rounds': r} for t in (0, 1, 2) for g, r in ((1, 2), (2, 1))] + [{'trees': 2, 'gud': 2}], thorough_shards=[{'trees': t, 'gud': g, 'rounds': 2} for t in (0, 1, 2) for g in (1, 2)], reach=['updated', 'updates reopened']))
