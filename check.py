#!/usr/bin/env python3
"""Decides one property: compiles the harness and the real sources from /repo to LLVM IR, runs the
symbolic engine on every (entry, bounds) shard, replays counterexamples on a native build of the same
sources, and writes evidence/<ID>.json.  usage: check.py ID [--tier quick|thorough] [--only ENTRY] [-v]"""
import sys, os, json, subprocess, hashlib, time, shutil, tempfile, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'harness'))
import registry

CLANG = '/usr/bin/clang++-18'
GXX = '/usr/bin/clang++-18'
DEFS = ['-std=c++11', '-fsigned-char', '-include', 'cstdint', '-DSERVER=1', '-DSPARQL=1', '-DANALYTICS=1', '-DML=1', '-DNDEBUG', '-w']
INCS = ['-I' + os.path.join(REPO, p) for p in ('include', 'include/layers', 'rdf3x/include', 'rapidjson/include', 'snap', 'snap/snap-core', 'snap/snap-adv', 'snap/snap-exp', 'snap/glib-core')] + ['-I' + V + '/kognac', '-I' + V + '/harness', '-I' + REPO]
ENG = ['-isystem', V + '/symx/include', '-include', 'sx_pre.h', '-O1', '-gline-tables-only', '-D__NO_CTYPE', '-DSX_ENGINE=1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin-memchr', '-emit-llvm']
NAT = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffunction-sections']

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

class Err(Exception): pass

class Build:
    """one set of sources: a bitcode module and a native replayer"""
    def __init__(self, work, harness, sources, defs):
        self.work, self.harness, self.sources, self.defs = work, harness, sources, list(defs)
        self.key = hashlib.sha1(repr((harness, sources, defs)).encode()).hexdigest()[:12]
        self.bc = None
        self.native = None
        # sxsub_NAME in a harness replaces the function NAME of the sources, in both builds
        self.subs, seen = set(), set()
        todo = [os.path.join(V, 'harness', harness)]
        while todo:
            f = todo.pop()
            if f in seen or not os.path.exists(f): continue
            seen.add(f)
            t = open(f).read()
            self.subs |= set(re.findall(r'\bsxsub_(\w+)', t))
            todo += [os.path.join(V, 'harness', i) for i in re.findall(r'#include "([^"]+)"', t)]
        self.lock = threading.Lock()
    def jobs(self):
        """compile commands: (kind, cmd, out)"""
        r = []
        for k, s in enumerate([os.path.join(V, 'harness', self.harness)] + [s if s.startswith('/') else os.path.join(V if s.startswith('harness/') else REPO, s) for s in self.sources]):
            n = '%s_%02d_%s' % (self.key, k, os.path.basename(s))
            o = os.path.join(self.work, n + '.bc')
            r.append(('bc', [CLANG] + DEFS + ENG + self.defs + INCS + ['-c', s, '-o', o], o))
            o2 = os.path.join(self.work, n + '.o')
            r.append(('nat', [GXX] + DEFS + NAT + self.defs + INCS + ['-c', s, '-o', o2], o2))
        return r

def compileAll(builds, pool):
    jobs = [(b, j) for b in builds for j in b.jobs()]
    jobs.sort(key=lambda x: x[1][0] != 'bc')
    done = {}
    def run(x):
        b, (kind, cmd, out) = x
        p = sh(cmd)
        if p.returncode: return (b, kind, out, p.stderr[-4000:] or 'compiler failed')
        if kind == 'nat' and b.subs:
            o = []
            own = ('_00_' + b.harness) in os.path.basename(out)
            for n in b.subs: o += ['--redefine-sym', 'sxsub_%s=%s' % (n, n)] if own else ['--weaken-symbol=' + n]
            p = sh(['/usr/bin/objcopy'] + o + [out])
            if p.returncode: return (b, kind, out, p.stderr[-2000:] or 'objcopy failed')
        return (b, kind, out, None)
    for b, kind, out, err in pool.map(run, jobs):
        if err: raise Err('cannot compile %s for %s:\n%s' % (os.path.basename(out), b.harness, err))
        done.setdefault((b.key, kind), []).append(out)
    def link(b):
        b.bc = os.path.join(b.work, b.key + '.bc')
        p = sh(['/usr/bin/llvm-link', '-o', b.bc] + done[(b.key, 'bc')] + [os.path.join(V, 'symx/build/rt.bc')])
        if p.returncode: raise Err('llvm-link: ' + p.stderr[-2000:])
        b.native = os.path.join(b.work, b.key + '.exe')
        p = sh([GXX, '-fsanitize=address', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--export-dynamic-symbol=h_*', '-Wl,--export-dynamic-symbol=sx_*', '-o', b.native] + done[(b.key, 'nat')] + [os.path.join(V, 'symx/build/native.o'), '-llz4', '-lz', '-lpthread', '-ldl'])
        if p.returncode: raise Err('native link: ' + p.stderr[-2000:])
    list(pool.map(link, builds))

def replayNative(b, entry, params, inputs, alarm=20):
    """runs the native build on recorded inputs; returns (classification, stdout+stderr)"""
    d = tempfile.mkdtemp(prefix='sxr.', dir=b.work)
    f = os.path.join(d, 'in.txt')
    with open(f, 'w') as o:
        for k, v in params.items(): o.write('param %s %d\n' % (k, v))
        for n, w, v in inputs: o.write('in %s %s\n' % (n, v))
    env = dict(os.environ, SX_TMP=d, SX_ALARM=str(alarm), ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=170:allocator_may_return_null=0:detect_stack_use_after_return=0:exitcode=77:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:max_allocation_size_mb=4000:handle_abort=1')
    try: p = subprocess.run([b.native, entry, f], capture_output=True, text=True, errors='replace', env=env, timeout=alarm + 20, cwd=d)
    except subprocess.TimeoutExpired: return 'timeout', '', set()
    finally: pass
    out = p.stdout + p.stderr
    shutil.rmtree(d, ignore_errors=True)
    fails = set(re.findall(r'^ASSERTFAIL (.*)$', p.stdout, re.M))
    m = re.search(r'^END (\w+) OBS ([0-9a-f]+) ', p.stdout, re.M)
    if m: return 'end:' + m.group(1) + ':' + m.group(2), out, fails
    return 'crash', out, fails

def confirmed(v, kind, out, fails):
    if v['kind'] == 'assert': return v['label'] in fails or kind == 'crash'
    if kind == 'timeout': return v['kind'] == 'nontermination'
    if v['kind'] == 'nontermination': return kind == 'crash' and 'CRASH timeout' in out
    if v['kind'] == 'uncaught': return kind == 'crash' or kind.startswith('end:terminate')
    return kind == 'crash'

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, verbose, keep = None, False, False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--only': only = a.pop(0)
        elif x == '-v': verbose = True
        elif x == '--keep': keep = True
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = registry.PROPS[pid]
    budget = float(os.environ.get('SX_BUDGET', 600 if tier == 'quick' else 3000))
    os.makedirs(os.path.join(V, 'work'), exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '.', dir=os.path.join(V, 'work'))
    try: rc = decide(pid, prop, tier, seed, t0, budget, work, only, verbose)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(pid, prop, tier, seed, t0, budget, work, only, verbose):
    engine = os.path.join(V, 'symx/build/symx')
    if not os.path.exists(engine) or not os.path.exists(os.path.join(V, 'symx/build/rt.bc')) or not os.path.exists(os.path.join(V, 'symx/build/native.o')):
        p = sh(['/bin/bash', os.path.join(V, 'symx/build.sh')])
        if p.returncode: print(p.stderr); return 2
    runs = []
    for r in prop['runs']:
        if only and r['entry'] != only: continue
        if r.get('tier', 'quick') == 'thorough' and tier == 'quick': continue
        shards = r.get('thorough_shards' if tier == 'thorough' and 'thorough_shards' in r else 'shards', [{}])
        for s in shards:
            params = dict(r.get('params', {}))
            if tier == 'thorough': params.update(r.get('thorough_params', {}))
            params.update(s)
            runs.append((r, params))
    builds = {}
    for r, params in runs:
        b = Build(work, r['harness'], tuple(r.get('sources', ())), tuple(r.get('defs', ())))
        builds.setdefault(b.key, b)
        r['_b'] = b.key
    pool = ThreadPoolExecutor(int(os.environ.get('SX_JOBS', '8')))
    try: compileAll(list(builds.values()), pool)
    except Err as e:
        print('CHECK-ERROR property=%s %s' % (pid, e)); return 2
    tc = time.time() - t0
    known = []
    kf = os.path.join(V, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == pid]
    nrun = len(runs)
    stop = threading.Event()
    res = [None] * nrun
    def one(i):
        r, params = runs[i]
        if stop.is_set(): return
        left = budget - (time.time() - t0)
        if left < 5: return
        b = builds[r['_b']]
        out = os.path.join(work, 'r%d.json' % i)
        lim = min(left, r.get('max_time_thorough', 2400) if tier == 'thorough' else r.get('max_time', 240))
        cmd = [engine, b.bc, '--entry', r['entry'], '--out', out, '--max-time', '%.1f' % lim, '--samples', str(r.get('samples', 3)), '--seed', str(seed), '--mem', str(r.get('mem', 3500)), '--max-steps', str(r.get('max_steps', 60000000))]
        for k, v in params.items(): cmd += ['--param', '%s=%d' % (k, v)]
        p = sh(cmd)
        if not os.path.exists(out):
            res[i] = {'error': 'engine: ' + (p.stderr[-600:] or 'rc %d' % p.returncode)}
            return
        j = json.load(open(out))
        j['stderr'] = p.stderr[-3000:]
        # validate the encoding: completed paths replayed on the native build must observe the same
        j['validated'] = 0; j['mismatch'] = []
        for s in j['samples']:
            kind, o, fails = replayNative(b, r['entry'], params, s['inputs'])
            h = 'end:done:%016x' % int(s['hash'])
            if kind == h: j['validated'] += 1
            else: j['mismatch'].append({'inputs': s['inputs'][:60], 'engine': h, 'native': kind, 'out': o[-400:]})
        j['confirmed'] = []; j['unconfirmed'] = []
        for v in j['violations']:
            kind, o, fails = replayNative(b, r['entry'], params, v['inputs'])
            v['native'] = kind; v['native_out'] = o[-1500:]
            if confirmed(v, kind, o, fails): j['confirmed'].append(v)
            else: j['unconfirmed'].append(v)
        new = [v for v in j['confirmed'] if not isKnown(known, r, v, params)]
        if new and not os.environ.get('SX_ALL'): stop.set()
        res[i] = j
    list(pool.map(one, range(nrun)))
    # ---- verdict
    rc = 0
    nviol = 0
    seenKnown = set()
    agg = dict(states=0, transitions=0, queries=0, cache=0, sat=0, unsat=0, unknown=0, secs=0.0, maxq=0.0, paths=0, branches=0, validated=0, unconf=0)
    funcs, ends, incompletes, reach, asserts, bounds, samples, mism, errors = set(), {}, {}, {}, {}, [], [], [], []
    notrun = 0
    for (r, params), j in zip(runs, res):
        if j is None: notrun += 1; continue
        if 'error' in j: errors.append(j['error']); continue
        agg['states'] += j['forks'] + 1; agg['transitions'] += j['instructions']; agg['paths'] += j['paths']; agg['branches'] += j['symbolic_branches']
        s = j['solver']
        agg['queries'] += s['queries']; agg['cache'] += s['cache_hits']; agg['sat'] += s['sat']; agg['unsat'] += s['unsat']; agg['unknown'] += s['unknown']; agg['secs'] += s['secs']; agg['maxq'] = max(agg['maxq'], s['max_query'])
        agg['validated'] += j['validated']; agg['unconf'] += len(j['unconfirmed'])
        funcs |= set(j['functions'])
        for k, v in j['ends'].items(): ends[k] = ends.get(k, 0) + v
        for k, v in j['incomplete'].items(): incompletes[k] = incompletes.get(k, 0) + v
        for k, v in j['reach'].items(): reach[k] = reach.get(k, 0) + v
        for k, v in j['asserts'].items():
            t = asserts.setdefault(k, {}); [t.__setitem__(q, t.get(q, 0) + w) for q, w in v.items()]
        bounds.append({'entry': r['entry'], 'bounds': params, 'exhausted': j['exhausted'], 'stop': j['stop'], 'paths': j['paths'], 'wall_s': round(j['wall'], 2)})
        mism += [dict(m, entry=r['entry']) for m in j['mismatch']]
        for sm in j['samples'][:1]:
            if len(samples) < 6: samples.append({'entry': r['entry'], 'bounds': params, 'inputs': [[n, v] for n, w, v in sm['inputs'][:40]], 'observation_hash': '%016x' % int(sm['hash'])})
        if verbose: print('run', r['entry'], params, j['stderr'].strip().split('\n')[-1], 'validated', j['validated'], 'mismatch', len(j['mismatch']), 'conf', len(j['confirmed']), 'unconf', len(j['unconfirmed']), j['incomplete'] or '')
        for v in j['confirmed']:
            k = isKnown(known, r, v, params)
            if k:
                if k['id'] not in seenKnown: seenKnown.add(k['id'])
                continue
            nviol += 1
            f = os.path.join(V, 'evidence', 'replay', '%s-%d.json' % (pid, nviol))
            with open(f, 'w') as o: json.dump({'property': pid, 'harness': r['harness'], 'sources': r.get('sources', []), 'defs': r.get('defs', []), 'entry': r['entry'], 'params': params, 'kind': v['kind'], 'label': v['label'], 'msg': v['msg'], 'loc': v['loc'], 'stack': v['stack'], 'inputs': v['inputs'], 'native': v['native'], 'native_out': v['native_out']}, o, indent=1)
            if nviol <= 10: print('VIOLATION property=%s replay=%s  %s %s at %s' % (pid, f, v['kind'], v['label'], v['loc']))
            rc = 1
        if verbose:
            for v in j['confirmed'] + j['unconfirmed']: print('  ', 'CONF' if v in j['confirmed'] else 'UNCONF', v['kind'], v['label'], v['msg'], v['loc'], v.get('count'), '\n      ', ' <- '.join(v['stack'][:6]), '\n      ', ' '.join('%s=%s' % (n, x) for n, w, x in v['inputs'][:40]), '\n      ', v['native'], v['native_out'][:300].replace('\n', ' | '))
            for m in j['mismatch'][:3]: print('   MISMATCH', m['engine'], m['native'], ' '.join('%s=%s' % (n, x) for n, w, x in m['inputs'][:40]), m['out'][:600])
    for k in known:
        if k['id'] in seenKnown: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # vacuity: every point a harness says is reachable has to be reached on a completed path
    missing = [l for r in prop['runs'] if (not only or r['entry'] == only) and not (r.get('tier') == 'thorough' and tier == 'quick') for l in r.get('reach', []) if l not in reach]
    wall = time.time() - t0
    rfuncs = sorted(f for f in funcs)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'model_checking'), 'wall_s': round(wall, 2), 'violations': nviol,
        'assumptions': registry.COMMON_ASSUMPTIONS + prop.get('assumptions', []),
        'coverage': {'states': agg['states'], 'transitions': agg['transitions'], 'traces_validated_against_impl': agg['validated'], 'samples': samples,
            'exhaustive': notrun == 0 and not errors and not incompletes and all(b['exhausted'] for b in bounds),
            'explanation': 'states: symbolic execution states (forks + initial); transitions: LLVM IR instructions executed symbolically; traces validated: completed paths whose solved inputs were replayed on the native build with the same observations',
            'completed_or_pruned_paths': agg['paths'], 'symbolic_branches': agg['branches'], 'path_ends': ends, 'incomplete_paths': incompletes,
            'assertions': asserts, 'reached': reach, 'not_reached': missing, 'shards': bounds, 'shards_not_run': notrun, 'engine_errors': errors,
            'smt_queries': agg['queries'], 'smt_query_cache_hits': agg['cache'], 'smt_sat': agg['sat'], 'smt_unsat': agg['unsat'], 'smt_unknown': agg['unknown'], 'smt_seconds': round(agg['secs'], 2), 'smt_max_query_seconds': round(agg['maxq'], 3),
            'functions_encoded': len(rfuncs), 'functions': rfuncs[:400], 'compile_seconds': round(tc, 1),
            'counterexamples_not_confirmed_natively': agg['unconf'], 'encoding_mismatches': mism[:5], 'known_findings_seen': sorted(seenKnown)}}
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as o: json.dump(ev, o, indent=1)
    print('%s %s: %d shards (%d not run), %d paths, %d instructions, %d queries (%.1fs), validated %d, mismatches %d, unconfirmed %d, incomplete %d, %s, wall %.1fs' % (pid, tier, nrun, notrun, agg['paths'], agg['transitions'], agg['queries'], agg['secs'], agg['validated'], len(mism), agg['unconf'], sum(incompletes.values()), 'exhaustive' if ev['coverage']['exhaustive'] else 'NOT exhaustive', wall))
    if rc: return 1
    if errors: print('CHECK-ERROR property=%s %s' % (pid, errors[0])); return 2
    if missing: print('note: not reached: %s' % ', '.join(sorted(set(missing))))
    return 0

def isKnown(known, r, v, params):
    for k in known:
        if k['entry'] == r['entry'] and k['label'] == v['label'] and k.get('kind', 'assert') == v['kind'] and all(params.get(a) == b for a, b in k.get('params', {}).items()): return k
    return None

if __name__ == '__main__': main()
