#!/usr/bin/env python3
"""Development aid: record one component and list every violated rule of every property.
usage: vall.py COMP FOCUS SEED [N]"""
import collections, json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vprops import COMPONENTS
comp, focus, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
n = int(sys.argv[4]) if len(sys.argv) > 4 else COMPONENTS[comp]['n']
with tempfile.TemporaryDirectory(dir='/tmp') as sc:
    b = vlib.Build(sc)
    S, T = [], []
    for s, t, a in vlib.shards(b, comp, focus, n, seed, sc, 600):
        S += s; T += t
        if a: print('ABNORMAL', a.kind, a.output[-1500:])
    viol, st, done = vlib.check_traces(COMPONENTS[comp]['module'], T, sc)
    C = collections.Counter(); F = {}
    for t, p, r, pos in viol:
        C[p, r] += 1
        if (p, r) not in F or pos < F[p, r][1]: F[p, r] = (t, pos)
    print(comp, focus, seed, 'traces', done, 'states', st)
    os.makedirs('/tmp/iv', exist_ok=True)
    for i, (k, v) in enumerate(sorted(C.items())):
        t, pos = F[k]
        print(' ', k, v, 'pos', pos, '-> /tmp/iv/v%d' % i)
        open('/tmp/iv/v%d' % i, 'w').write(T[t - 1] + '\n')
        open('/tmp/iv/v%d.script' % i, 'w').write(S[t - 1] + '\n')
