#!/usr/bin/env python3
"""Decide one property of PSLP by solver-based symbolic execution of the code in /repo.

  check.py ID                     quick or thorough (VERIF_TIER), seed from VERIF_SEED
  check.py --replay FILE          run one counterexample against the ordinary build of /repo

Everything is rebuilt from /repo's current working tree in a scratch folder that is
removed at the end.  Exit 0: no violation in what was explored.  Exit 1: violation
(reproduced by running the counterexample).  Exit 2: the check could not run."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine')
sys.dont_write_bytecode = True
import build, specs, corpus
from props import PROPS

CPUS = max(1, min(8, os.cpu_count() or 1))

def known_findings(pid):
    out = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            m = re.match(r'finding: property=(\w+) spec=(\S+) what=(.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    except OSError: pass
    return out

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.cfg = pid, tier, seed, PROPS[pid]
        self.t0 = time.time()
        self.out = HERE + '/evidence/replays/' + pid
        shutil.rmtree(self.out, ignore_errors=True); os.makedirs(self.out, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='pslp-verif-')
        self.viol, self.unrepro, self.known, self.errors, self.res = [], [], [], [], []
        self.skipped = 0; self.lock = threading.Lock(); self.stop = False

    def one(self, exe, prop, text, name, max_s, max_paths, deadline):
        if self.stop or time.time() > deadline:
            with self.lock: self.skipped += 1
            return
        f = '%s/%s.spec' % (self.work, name); j = '%s/%s.%s.json' % (self.work, name, prop)
        with open(f, 'w') as o: o.write(text)
        cmd = [exe, '--prop', prop, '--specs', f, '--out', self.out, '--json', j, '--max-s', str(max_s), '--max-paths', str(max_paths)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max_s * 4 + 120)
            rc, err = p.returncode, p.stderr.decode(errors='replace')[-300:]
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        try: r = json.loads(open(j).read().strip().split('\n')[-1])
        except Exception:
            with self.lock: self.errors.append('%s: %s %s' % (name, rc, err))
            return
        finally:
            for g in (f, j):
                try: os.unlink(g)
                except OSError: pass
        if r['stop'].startswith(('engine', 'z3')):
            with self.lock: self.errors.append('%s: %s' % (name, r['stop']))
        for v in r['violations']:
            rep = self.replay(exe, v['file'])
            with self.lock:
                if rep is None: self.unrepro.append((name, v['desc'])); continue
                kf = [k for k in known_findings(self.pid) if k[0] == name and k[1] in v['desc']]
                if kf: self.known.append((name, v['desc']))
                else:
                    self.viol.append((name, v['desc'], v['file'], rep))
                    if len(self.viol) >= 6: self.stop = True
        with self.lock: self.res.append(r)

    def replay(self, exe, f):
        try: p = subprocess.run([exe, '--replay', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired: return None
        o = p.stdout.decode(errors='replace')
        return o.strip().split('\n')[0] if p.returncode == 1 and 'REPLAY VIOLATED' in o else None

    def go(self):
        cfg = self.cfg; quick = self.tier != 'thorough'
        deadline = self.t0 + (cfg.get('quick_wall', 300) if quick else cfg.get('thorough_wall', 1500))
        exe, info = build.build(self.work + '/b', cfg['variant'])
        exe2, _ = build.build(self.work + '/bs', cfg['variant'], small=True, base=self.work + '/b')
        self.fpops = sum(i[1] for i in info); self.files = len(info)
        jobs = corpus.specs_for(self.pid, cfg, self.tier, self.seed)
        assert len({lp.name for lp in jobs}) == len(jobs)
        self.njobs = len(jobs)
        max_s = cfg.get('max_s', 3) if quick else cfg.get('thorough_s', 20)
        max_paths = cfg.get('max_paths', 60) if quick else cfg.get('thorough_paths', 2000)
        with ThreadPoolExecutor(CPUS) as ex:
            for p in cfg['props']:
                for lp in jobs: ex.submit(self.one, exe2 if lp.name.endswith('_s') else exe, p, lp.text(), lp.name, max_s, max_paths, deadline)

    def evidence(self):
        R = self.res; sm = lambda k: sum(r[k] for r in R)
        cover, fns, byf = {}, set(), {}
        for r in R:
            for k, v in r['cover'].items(): cover[k] = max(cover.get(k, 0), v) if k.startswith('max_') else cover.get(k, 0) + v
            fns.update(r['functions']); byf[r['family']] = byf.get(r['family'], 0) + r['paths']
        samples = [s for r in R for s in r['samples']]
        step = max(1, len(samples) // 12)
        cov = {
            'states': sm('paths'), 'transitions': sm('forks') + sm('forced') + sm('choices'), 'traces_validated_against_impl': sm('validated'),
            'samples': samples[::step][:12],
            'skeletons_explored': len(R), 'skeletons_skipped_for_time': self.skipped, 'skeletons_exhausted': sum(r['exhausted'] for r in R),
            'skeletons_cut_by_bound': sum(1 for r in R if not r['exhausted']), 'paths_by_family': byf,
            'queries': sm('queries'), 'property_queries': sm('prop_queries'), 'sat': sm('sat'), 'unsat': sm('unsat'), 'unknown': sm('unknown'),
            'inconclusive_property_queries': sm('inconclusive'), 'solver_s': round(sm('solver_s'), 2), 'symbolic_fp_operations': sm('fpops'),
            'functions_encoded': sorted(fns), 'fp_instructions_encoded': self.fpops, 'files_encoded': self.files,
            'paths_vacuous': sm('vacuous'), 'paths_killed': sm('killed'), 'native_mismatches': sm('mismatch'),
            'native_mismatch_examples': [m for r in R for m in r['mismatches']][:4], 'unreproduced_counterexamples': ['%s: %s' % u for u in self.unrepro][:8],
            'reachability': cover, 'harness_errors': self.errors[:8], 'bounds': self.cfg['bounds'],
        }
        ev = {'property': self.pid, 'tier': 'thorough' if self.tier == 'thorough' else 'quick', 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.cfg.get('assumptions', []) + corpus.ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(HERE + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (HERE, self.pid), 'w') as f: json.dump(ev, f, indent=1)
        return cov

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        prop = [l.split()[1] for l in open(sys.argv[2]) if l.startswith('prop ')][0]
        var = {'mem': 'asan', 'alloc': 'asan', 'thread': 'race', 'indep': 'race', 'dbg': 'debug'}.get(prop, 'rel')
        w = tempfile.mkdtemp(prefix='pslp-verif-')
        try:
            small = any(l.startswith('spec ') and l.split()[1].endswith('_s') for l in open(sys.argv[2]))
            exe, _ = build.build(w, var, small=small); return subprocess.run([exe, '--replay', sys.argv[2]]).returncode
        finally: shutil.rmtree(w, ignore_errors=True)
    if sys.argv[1] == '--selftest':
        w = tempfile.mkdtemp(prefix='pslp-verif-')
        try: print('ok', build.build(w, 'rel')[0])
        finally: shutil.rmtree(w, ignore_errors=True)
        return 0
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if PROPS[pid].get('engine') == 'cbmc':
        import cbmc_check
        return cbmc_check.main(pid, tier, seed, PROPS[pid])
    r = Run(pid, tier, seed)
    try:
        r.go(); cov = r.evidence()
    except build.BuildError as e:
        print('ERROR: cannot build: %s' % e); return 2
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    for n, d in sorted(set(r.known)): print('KNOWN-FINDING: property=%s %s: %s' % (pid, n, d))
    print('%s %s: %d skeletons, %d paths, %d queries (%.1f s solver), %d native runs, %.1f s' % (pid, PROPS[pid]['title'], len(r.res), cov['states'], cov['queries'], cov['solver_s'], cov['traces_validated_against_impl'], time.time() - r.t0))
    if r.errors: print('NOTE: %d skeletons gave no result, e.g. %s' % (len(r.errors), r.errors[0]))
    if r.viol:
        for n, d, f, rep in r.viol:
            print('  %s: %s (%s)' % (n, d, rep))
        print('VIOLATION property=%s replay=%s' % (pid, r.viol[0][2])); return 1
    if not r.res or len(r.errors) > len(r.res) // 4: print('ERROR: the check did not run properly'); return 2
    return 0
if __name__ == '__main__':
    sys.exit(main())
