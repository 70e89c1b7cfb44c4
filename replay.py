#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness natively from /repo and replays a recorded counterexample"""
import sys, json, tempfile, os
from concurrent.futures import ThreadPoolExecutor
import check
j = json.load(open(sys.argv[1]))
os.makedirs(os.path.join(check.V, 'work'), exist_ok=True)
with tempfile.TemporaryDirectory(dir=os.path.join(check.V, 'work')) as w:
    b = check.Build(w, j['harness'], tuple(j['sources']), tuple(j['defs']))
    check.compileAll([b], ThreadPoolExecutor(8))
    kind, out, fails = check.replayNative(b, j['entry'], j['params'], j['inputs'])
    print(out); print(kind, sorted(fails))
    sys.exit(1 if check.confirmed(j, kind, out, fails) else 0)
