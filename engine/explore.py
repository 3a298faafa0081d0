#!/usr/bin/env python3
"""exploratory runner: explore.py HARNESS PROP SPECFILE [max_s]  -> summary and replays"""
import json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
exe, prop, specfile = sys.argv[1:4]; max_s = sys.argv[4] if len(sys.argv) > 4 else '20'
out = tempfile.mkdtemp(prefix='expl')
txt = open(specfile).read(); specs = ['spec ' + s for s in txt.split('spec ')[1:]]
def one(i):
    f = '%s/%d.spec' % (out, i); open(f, 'w').write(specs[i]); j = '%s/%d.json' % (out, i)
    p = subprocess.run([exe, '--prop', prop, '--specs', f, '--out', out, '--json', j, '--max-s', max_s], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: return json.loads(open(j).read().strip().split('\n')[-1])
    except Exception: return {'spec': specs[i].split()[1], 'err': p.returncode, 'stderr': p.stderr.decode()[-500:]}
t = time.time()
with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(specs))))
for r in res:
    if 'err' in r: print('ERR', r); continue
    if r['stop'] or r['mismatch'] or r['inconclusive'] or r['unknown']: print('NOTE', r['spec'], r['stop'], 'paths', r['paths'], 'mismatch', r['mismatch'], r['mismatches'][:1], 'unk', r['unknown'], r['inconclusive'])
    for v in r['violations']:
        p = subprocess.run(['timeout', '60', exe, '--replay', v['file']], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        print('VIOL', r['spec'], v['desc'], v['file'], '->', p.returncode, p.stdout.decode().strip()[:200])
ok = [r for r in res if 'err' not in r]
print('specs', len(ok), 'paths', sum(r['paths'] for r in ok), 'vacuous', sum(r['vacuous'] for r in ok), 'queries', sum(r['queries'] for r in ok), 'solver', round(sum(r['solver_s'] for r in ok), 1), 'validated', sum(r['validated'] for r in ok), 'mismatch', sum(r['mismatch'] for r in ok), 'wall', round(time.time() - t, 1))
tot = {}
for r in ok:
    for k, v in r['cover'].items(): tot[k] = tot.get(k, 0) + v
print(tot); print('slowest', sorted([(r['wall_s'], r['spec'], r['paths']) for r in ok])[-5:])
