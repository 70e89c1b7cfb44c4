#!/usr/bin/env python3
"""mkseed.py NAME PROP HARNESS ENTRY ITER 'a=b ...' NEEDS BREAKS  (the change is the uncommitted diff of the worktree /tmp/wt)
Writes seeded/NAME with patch, demonstration (the harness on pseudo-random inputs) and meta; confirms both outcomes."""
import sys, os, json, subprocess, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/wt'
sys.path.insert(0, V + '/harness'); sys.path.insert(0, V)
import registry, check
name, prop, harness, entry, it, params, needs, breaks = sys.argv[1:9]
run = next(r for p in registry.PROPS.values() for r in p['runs'] if r['harness'] == harness and r['entry'] == entry)
D = '%s/seeded/%s' % (V, name)
diff = subprocess.check_output(['git', '-C', W, 'diff', 'HEAD'], text=True)
assert diff.strip(), 'no change in ' + W
shutil.rmtree(D, ignore_errors=True); os.makedirs(D + '/kit')
open(D + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
shutil.copytree(V + '/kognac', D + '/kit/kognac')
shutil.copy(V + '/tools/seedkit/driver.cpp', D + '/kit/driver.cpp')
todo, seen, subs = [harness] + [x for x in run.get('defs', ()) if x.endswith('.h')], set(), set()
while todo:
    f = todo.pop()
    if f in seen or not os.path.exists(V + '/harness/' + f): continue
    seen.add(f); t = open(V + '/harness/' + f).read(); subs |= set(re.findall(r'\bsxsub_(\w+)', t))
    todo += re.findall(r'#include "([^"]+)"', t)
    shutil.copy(V + '/harness/' + f, D + '/kit/' + f)
srcs = []
for s in run.get('sources', ()):
    if s.startswith('harness/'): shutil.copy(V + '/' + s, D + '/kit/'); srcs.append('$D/kit/' + os.path.basename(s))
    else: srcs.append('/repo/' + s)
inc = ' '.join(i.replace(check.REPO, '/repo').replace(V + '/kognac', '$D/kit/kognac').replace(V + '/harness', '$D/kit') for i in check.INCS)
sh = ['#!/bin/bash', '# Runs the property\'s statement on many pseudo-random inputs against the sources of /repo.', 'set -e', 'D=$(cd "$(dirname "$0")" && pwd)', 'T=$(mktemp -d /tmp/demo.XXXXXX)', "trap 'rm -rf \"$T\"' EXIT",
    'FLAGS="%s %s %s"' % (' '.join(check.DEFS), '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -ffunction-sections', ' '.join(run.get('defs', ()))),
    'INC="%s"' % inc, 'cat > $T/list <<EOF', '$D/kit/' + harness, '$D/kit/driver.cpp'] + srcs + ['EOF', 'export FLAGS INC T',
    "nl -nrz -w3 $T/list | xargs -P 8 -L 1 bash -c 'clang++-18 $FLAGS $INC -c $1 -o $T/$0.o'"]
if subs:
    sh.append('for o in $T/*.o; do if [ $o = $T/001.o ]; then objcopy %s $o; else objcopy %s $o; fi; done' % (' '.join('--redefine-sym sxsub_%s=%s' % (n, n) for n in sorted(subs)), ' '.join('--weaken-symbol=' + n for n in sorted(subs))))
sh += ["clang++-18 -fsanitize=address -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all '-Wl,--export-dynamic-symbol=h_*' '-Wl,--export-dynamic-symbol=sx_*' -o $T/demo $T/*.o -llz4 -lz -lpthread -ldl",
    "export DEMO_TMP=$T ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=170:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:max_allocation_size_mb=4000"]
for ps in params.split('|'): sh.append('$T/demo %s %s 1 %s' % (entry, it, ps))
open(D + '/demo.sh', 'w').write('\n'.join(sh) + '\n'); os.chmod(D + '/demo.sh', 0o755)
def demo(repo):
    # a copy outside /verif whose /repo is the given tree
    import tempfile
    t = tempfile.mkdtemp(prefix='sd.', dir='/tmp'); shutil.copytree(D, t + '/x')
    s = open(t + '/x/demo.sh').read().replace('/repo/', repo + '/').replace('/repo ', repo + ' '); s = s.replace('-I/repo"', '-I%s"' % repo)
    open(t + '/x/demo.sh', 'w').write(s)
    p = subprocess.run(['bash', t + '/x/demo.sh'], capture_output=True, text=True, cwd=repo); shutil.rmtree(t)
    return p
a = demo(os.environ.get('SX_BASE', '/repo')); b = demo(W)
print('unchanged', a.returncode, (a.stdout + a.stderr)[-300:]); print('changed', b.returncode, (b.stdout + b.stderr)[-500:])
if a.returncode or not b.returncode: print('NOT A VALID SEED'); sys.exit(1)
