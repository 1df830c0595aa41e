#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

check.py PROPERTY            search (VERIF_SEED, VERIF_TIER=quick|thorough)
check.py --replay PLAN       re-execute a replay file
check.py --setup             build everything once

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not answer.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
CPU = min(8, os.cpu_count() or 1)
CFG = json.load(open(os.path.join(HERE, 'sim', 'checks.json')))
PROBES = {0: 'particles passed between processes', 1: 'particles passed to a side-neighbour domain', 2: 'particles passed to a diagonal-neighbour domain',
          3: 'particles that left the simulated area', 10: 'phase-by-phase comparisons with the reference job', 20: 'stored frames compared with the state',
          21: 'stored values compared', 30: 'steps with injection', 31: 'steps where injection was due', 40: 'metadata records compared',
          50: 'steps compared with the field equations', 51: 'particle motions compared with the model', 52: 'particle contributions to currents compared', 53: 'stored moments compared with the particles',
          54: 'initial specie of a domain checked', 55: 'velocity distributions checked', 56: 'spread and independence of coordinates checked', 60: 'phases checked for foreign changes', 61: 'clock checks', 62: 'common probe frames compared'}

def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(HERE, 'sim')]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f == 'defines.hpp' or f.endswith(('.o', '.pyc', '~')): continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def build(variants):
    """Build the simulator and the wanted program variants from the working tree; returns the directory."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash(); d = os.path.join(BUILD, key)
        done = os.path.join(d, 'built')
        have = set(open(done).read().split()) if os.path.exists(done) else set()
        need = [v for v in variants if v not in have]
        if need or not os.path.exists(os.path.join(d, 'sim')):
            old = sorted((os.path.getmtime(p), p) for p in (os.path.join(BUILD, x) for x in os.listdir(BUILD)) if os.path.isdir(p) and p != d)
            for _, p in old[:-1] if len(old) > 1 else []: shutil.rmtree(p, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(['bash', os.path.join(HERE, 'sim', 'build.sh'), d] + need, env=dict(os.environ, REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-4000:]); print('BUILD-ERROR: the program or the simulator does not build'); sys.exit(2)
            for x in os.listdir(d):      # keep the linked objects only
                if x.startswith('v_'): shutil.rmtree(os.path.join(d, x, 'obj'), ignore_errors=True)
            open(done, 'w').write(' '.join(sorted(have | set(need))))
        return d

def sim(d, *args, timeout=1200):
    r = subprocess.run([os.path.join(d, 'sim')] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return [json.loads(l[4:], strict=False) for l in r.stdout.splitlines() if l.startswith('RUN ')]

# ---------------------------------------------------------------- plans
class Plan:
    def __init__(self, text):
        self.head, self.num, self.strs, self.faults, self.decs = {}, {}, {}, [], []
        for l in text.splitlines():
            k, _, v = l.partition(' ')
            if k == 'num': a, b = v.split(); self.num[a] = b
            elif k == 'str': a, _, b = v.partition(' '); self.strs[a] = b
            elif k == 'fault': self.faults.append(v)
            elif k == 'dec': self.decs.append(v)
            elif k: self.head[k] = v
    def text(self):
        o = ['%s %s' % x for x in self.head.items()] + ['num %s %s' % x for x in self.num.items()] + ['str %s %s' % x for x in self.strs.items()]
        return '\n'.join(o + ['fault ' + f for f in self.faults] + ['dec ' + x for x in self.decs]) + '\n'
    def copy(self): return Plan(self.text())

class Minimiser:
    def __init__(self, d, plan, kind, budget, tmp):
        self.d, self.p, self.kind, self.end, self.tmp, self.tries = d, plan, kind, time.time() + budget, tmp, 0
    def try_one(self, args):
        i, q, rec = args
        f = os.path.join(self.tmp, 'c%d.plan' % i); open(f, 'w').write(q.text())
        a = ['replay', '--build', self.d, '--plan', f] + (['--record', f + '.rec'] if rec else [])
        try: r = sim(self.d, *a, timeout=150)
        except subprocess.TimeoutExpired: return None
        self.tries += 1
        if r and r[0]['status'] == 2 and r[0]['kind'] == self.kind: return Plan(open(f + '.rec').read()) if rec else q
        return None
    def first(self, cands, rec=False):
        """the first candidate (in order) that still shows the violation"""
        for k in range(0, len(cands), CPU):
            if time.time() > self.end: return None
            with ThreadPoolExecutor(CPU) as ex: res = list(ex.map(self.try_one, [(i, c, rec) for i, c in enumerate(cands[k:k + CPU])]))
            for x in res:
                if x is not None: return x
        return None
    def items(self, get, put):
        n = 2
        while time.time() < self.end:
            xs = get(self.p)
            if not xs: return
            n = min(n, len(xs)); size = -(-len(xs) // n); cands = []
            for i in range(0, len(xs), size):
                q = self.p.copy(); put(q, xs[:i] + xs[i + size:]); cands.append(q)
            r = self.first(cands)
            if r is not None: self.p = r; n = max(2, n - 1)
            elif size == 1: return
            else: n = min(len(xs), 2 * n)
    def knobs(self):
        """simpler configuration under the same seeded schedule"""
        seeded = self.p.copy(); seeded.head['explicit'] = '0'; seeded.decs = []
        if self.first([seeded]) is None: return
        base = self.p; self.p = seeded
        changed = True
        while changed and time.time() < self.end:
            changed = False; cands = []
            n = self.p.num
            def c(**kw):
                q = self.p.copy()
                for k, v in kw.items(): q.num[k] = v
                if q.num != self.p.num: cands.append(q)
            if 'nbeam' in n and float(n['nbeam']) > 0: c(nbeam='%d' % (float(n['nbeam']) - 1))
            ns = int(float(n.get('nsteps', 1)))
            for m in {1, ns // 2, ns - 1}:
                if 0 < m < ns: c(nsteps=str(m), tend='%.17g' % ((m - 0.5) * float(n['dt'])), max_steps=str(m + 1))
            if float(n.get('nsp', 2)) > 2: c(nsp='2')
            for k in ('pml_l', 'pml_r', 'pml_o', 'debug_log', 'preempt_mean'):
                if float(n.get(k, 0)) != 0: c(**{k: '0'})
            if float(n.get('threads', 1)) > 2: c(threads='2')
            if float(n.get('threads', 1)) == 2 and self.p.head.get('prop') != 'C02': c(threads='1')
            m = float(n.get('macro', 0))
            if m > 20: c(macro='%d' % (m // 2))
            pr = [x for x in self.p.strs.get('probes', '').split(';') if x]
            for i in range(len(pr)) if len(pr) > 1 else []:
                q = self.p.copy(); q.strs['probes'] = ';'.join(pr[:i] + pr[i + 1:]) + ';'; cands.append(q)
            r = self.first(cands)
            if r is not None: self.p = r; changed = True
        r = self.first([self.p], rec=True)
        self.p = r if r is not None else base
    def run(self):
        def setf(q, v): q.faults = v
        def setd(q, v): q.decs = v
        self.knobs()
        self.items(lambda p: p.faults, setf)
        if self.p.head.get('explicit') == '1': self.items(lambda p: p.decs, setd)
        return self.p

def known():
    p = os.path.join(HERE, 'known_findings.txt'); v = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) kind=(\S+) match=/(.*)/ (.*)', l.strip())
        if m: v.append(m.groups())
    return v

def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        build(sorted({v for c in CFG['checks'].values() for v in c['variants']})); return 0
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        p = Plan(open(sys.argv[2]).read()); prop = p.head['prop']
        d = build(CFG['checks'][prop]['variants']); r = sim(d, 'replay', '--build', d, '--plan', sys.argv[2])
        print(json.dumps(r[0], indent=1))
        if r[0]['status'] == 2: print('VIOLATION property=%s replay=%s' % (prop, sys.argv[2])); return 1
        return 0 if r[0]['status'] == 1 else 2
    prop = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CFG['checks'][prop]; lim = c[tier]
    d = build(c['variants']); t_build = time.time() - t0
    tmp = os.path.join(BUILD, 'tmp-%s-%d' % (prop, os.getpid())); os.makedirs(tmp, exist_ok=True)
    s0 = (seed % 1000000) * 1000000
    tr = '1' if tier == 'thorough' else '0'
    try:
        # ---- search
        ts = time.time()
        def worker(i):
            return sim(d, 'run', '--build', d, '--prop', prop, '--seed0', str(s0 + i), '--stride', str(CPU), '--count', str(-(-lim['runs'] // CPU)), '--seconds', str(lim['seconds']), '--out', tmp, '--tier', tr, timeout=lim['seconds'] + 600)
        with ThreadPoolExecutor(CPU) as ex: runs = [r for w in ex.map(worker, range(CPU)) for r in w]
        wall = time.time() - ts
        ok = [r for r in runs if r['status'] == 1]; bad = [r for r in runs if r['status'] == 2]; err = [r for r in runs if r['status'] == 3]
        # ---- determinism gate: the same seeds in fresh processes give byte-identical histories
        gate, gate_bad = 0, []
        pick = sorted(ok, key=lambda r: r['events'])[:: max(1, len(ok) // 8)][:8]
        def again(r): return r, sim(d, 'run', '--build', d, '--prop', prop, '--seed0', str(r['seed']), '--count', '1', '--tier', tr)[0]
        with ThreadPoolExecutor(CPU) as ex:
            for a, b in ex.map(again, pick): gate += 1; (gate_bad.append((a, b)) if a != b else None)
        # ---- violations: known findings, confirmation, minimisation
        kn = known(); shown = set(); fresh = []
        for r in sorted(bad, key=lambda r: (r['events'], r['seed'])):
            k = [x for x in kn if x[0] == prop and x[1] == r['kind'] and re.search(x[2], r['detail'])]
            if k:
                if k[0] not in shown: shown.add(k[0]); print('KNOWN-FINDING: property=%s %s' % (prop, k[0][3]))
            else: fresh.append(r)
        confirmed, unstable = [], []
        by_kind = {}
        for r in fresh: by_kind.setdefault(r['kind'], []).append(r)
        for kind, rs in list(by_kind.items())[:3]:
            good = None
            for r in rs[:6]:
                # recorded decisions first; the bare seed when the recording is cut short (it holds a limited number of decisions)
                plan = os.path.join(tmp, '%s-%d.plan' % (prop, r['seed'])); seeded = Plan(open(plan).read()); seeded.head['explicit'] = '0'; seeded.decs = []
                bare = plan + '.seed'; open(bare, 'w').write(seeded.text())
                for f in (plan, bare):
                    rr = [sim(d, 'replay', '--build', d, '--plan', f)[0] for _ in range(2)]
                    if rr[0] == rr[1] and rr[0]['status'] == 2 and rr[0]['kind'] == kind: good = f; break
                if good: break
                unstable.append((r, rr))
            if not good: continue
            plan = good
            m = Minimiser(d, Plan(open(plan).read()), kind, lim.get('minimise', 60) / min(3, len(by_kind)), tmp); q = m.run()
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            out = os.path.join(HERE, 'replays', '%s-%d-%s.plan' % (prop, r['seed'], re.sub(r'\W+', '_', kind)))
            open(out, 'w').write(q.text())
            a, b = [sim(d, 'replay', '--build', d, '--plan', out)[0] for _ in range(2)]
            if a != b or a['status'] != 2: unstable.append((r, [a, b])); open(out, 'w').write(open(plan).read()); a = rr[0]
            confirmed.append((a, out, m.tries, len(q.decs), len(q.faults)))
        # ---- report
        def tot(k): return sum(r[k] for r in runs)
        faults, probes = {}, {}
        for r in runs:
            for k, v in r['faults'].items(): faults[k] = faults.get(k, 0) + v
            for k, v in r['probes'].items(): probes[PROBES.get(int(k), k)] = probes.get(PROBES.get(int(k), k), 0) + v
        nontrivial = [r for r in ok if r['steps'] > 0 or c.get('zero_steps_ok')]
        distinct = {r['cov'] for r in nontrivial}
        samples = [{k: r[k] for k in ('seed', 'events', 'switches', 'msgs', 'steps', 'h5ops', 'frames', 'regions', 'ranks', 'exit', 'faults', 'trace')} for r in (sorted(ok, key=lambda r: -r['events'])[:2] + ok[:2])]
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
              'coverage': {'evaluations': len(runs), 'distinct_nontrivial': len(distinct), 'rule': c['rule'] + ' A run counts as distinct and non-trivial when it ' + ('reached the examined failure' if c.get('zero_steps_ok') else 'completed at least one simulated time step') + ' and its hash over all events, scheduling decisions, faults and observed states differs from every other run\'s.',
                           'samples': samples, 'seeds': [s0, s0 + len(runs) - 1], 'runs_per_hour': round(len(runs) / max(wall, 1e-9) * 3600), 'seeds_per_hour': round(len(runs) / max(wall, 1e-9) * 3600),
                           'simulated_time_s': tot('sim_s'), 'simulated_steps': tot('steps'), 'events': tot('events'), 'thread_switches': tot('switches'), 'parallel_regions': tot('regions'), 'messages': tot('msgs'),
                           'storage_operations': tot('h5ops'), 'frames_stored': tot('frames'), 'simulated_processes': tot('ranks'), 'faults_injected': faults, 'conditions_reached': probes, 'distinct_histories': len(distinct),
                           'distinct_measure': 'hash over the sequence of scheduling decisions, deliveries, storage operations, faults and phase-by-phase program state',
                           'determinism_gate': {'seeds_repeated': gate, 'differences': len(gate_bad)}, 'build_s': round(t_build, 1), 'search_s': round(wall, 1),
                           'real_code': 'all of /repo/src and /repo/include in the variants ' + ', '.join(c['variants']),
                           'stubbed': 'OpenMP runtime, MPI library, HDF5/HighFive storage, loguru sinks, picojson, signals, clocks, sleep, heap, random device', 'harness_errors': len(err)},
              'assumptions': CFG['assumptions'] + c.get('assumptions', [])}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s %s: %d runs, %d distinct, %d events, faults %s, %.0f s search, %.0f s total' % (prop, tier, len(runs), len(distinct), tot('events'), json.dumps(faults), wall, time.time() - t0))
        for a, out, tries, nd, nf in confirmed:
            print('  %s: %s' % (a['kind'], a['detail'])); print('  seed %d, minimised to %d scheduling decisions and %d faults in %d replays' % (a['seed'], nd, nf, tries))
            print('VIOLATION property=%s replay=%s' % (prop, out))
        if confirmed: return 1
        if unstable: print('HARNESS: a violation did not replay: %s' % json.dumps(unstable[0])[:1500]); return 2
        if err: print('HARNESS: %s' % json.dumps(err[0])[:1500]); return 2
        if gate_bad: print('HARNESS: not deterministic: %s' % json.dumps(gate_bad[0])[:1500]); return 2
        if not ok: print('HARNESS: no run completed'); return 2
        return 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())
