"""Small configurations and a reader of the text dumps."""
import json
def config(root, nr=8, nz=8, rd=1, zd=1, dr=1e-3, dz=1e-3, dt=1e-12, steps=5, macro=200, density=1e15, temp=1e3, temp_i=1e2, ion_mass=1836, beams=(), probes=(), pml=(0, 0, 0), comment='demo', species=2, ratio=2):
    names = [('electrons', -1, 1), ('ions', 1, ion_mass), ('positrons', 1, 1)][:species]
    return {'macro_amount': macro, 'beam_plasma_macro_size_ratio': ratio, 'log_file': '/dev/null', 'comment': comment,
      'geometry': {'size': {'radius': nr * dr, 'longitude': nz * dz}, 'grid': {'radius': nr, 'longitude': nz}, 'domains_amount': {'radius': rd, 'longitude': zd},
        'pml': {'left_wall': pml[0], 'right_wall': pml[1], 'outer_wall': pml[2], 'sigma_1': 1e-5, 'sigma_2': 0.07}},
      'time': {'start': 0, 'end': (steps - 0.5) * dt, 'step': dt},
      'external_fields': {'electric': {'formfactor': 'none', 'params': [10, 20, 30]}, 'magnetic': {'formfactor': 'const_z', 'params': [1e4]}},
      'particles': [{'name': n, 'charge': c, 'mass': m, 'density': density, 'temperature': temp if n == 'electrons' else temp_i} for n, c, m in names],
      'beams': list(beams), 'data': {'data_root': root, 'compression': {'use': False, 'level': 1}, 'probes': list(probes)}}
def beam(name='electrons', vel=2e8, start=0, amount=1, dist=1e-3, length=1e-3, radius=3e-3, density=1e15):
    return {'name': name, 'charge': -1, 'mass': 1, 'velocity': vel, 'start_time': start, 'bunch': {'amount': amount, 'distance': dist, 'length': length, 'radius': radius, 'density': density, 'profile': {'radial': 'rectangle', 'longitudinal': 'rectangle'}}}
def rec(comp, r0, z0, r1, z1, sched=1, specie=None):
    p = {'component': comp, 'schedule': sched, 'shape': 'rec', 'start': {'r': r0, 'z': z0}, 'end': {'r': r1, 'z': z1}}
    if specie: p['specie'] = specie
    return p
def row(comp, r, sched=1): return {'component': comp, 'schedule': sched, 'shape': 'row', 'r': r}
def col(comp, z, sched=1): return {'component': comp, 'schedule': sched, 'shape': 'col', 'z': z}
def dot(comp, r, z, sched=1): return {'component': comp, 'schedule': sched, 'shape': 'dot', 'r': r, 'z': z}
def write(path, c): json.dump(c, open(path, 'w'))
def read(path):
    """-> closed, attrs, {dataset: (dims, values, writes)}"""
    closed, attrs, sets = False, {}, {}
    for l in open(path):
        k, _, v = l.rstrip('\n').partition(' ')
        if k == 'closed': closed = v == '1'
        elif k == 'attr': n, _, x = v.partition(' '); attrs[n] = x
        elif k == 'set':
            t = v.split(); nd = int(t[1]); d = [int(x) for x in t[2:2 + nd]]
            pr = [x.split('*') for x in t[2 + nd:]]; sets[t[0]] = (d, [float(a) for a, _ in pr], [int(b) for _, b in pr])
    return closed, attrs, sets
import os, subprocess
BORDER = dict(STEP_BEGIN=2, INJECTED=3, MAXWELL=4, ADVANCED=5, CURRENT=6, OUTPUT=7, STEP_END=8)
def run(w, name, cfg, np=1, threads=1, env=None, timeout=100):
    """run one job -> (exit code, path of the data dump, path of the state log, stderr)"""
    d = os.path.join(w, name); os.makedirs(d, exist_ok=True); cfg = json.loads(json.dumps(cfg)); cfg['data']['data_root'] = d
    write(os.path.join(d, 'job.json'), cfg); st = os.path.join(d, 'state')
    e = dict(os.environ, KIT_NP=str(np), OMP_NUM_THREADS=str(threads), KIT_STATE=st, KIT_ALARM='60'); e.update(env or {})
    p = subprocess.run([os.path.join(w, 'b', 'picopic'), '-f', os.path.join(d, 'job.json')], env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout, start_new_session=True)
    return p.returncode, os.path.join(d, 'data.h5'), st, p.stderr
def states(path, np=1):
    """-> list of per-phase records, summed over the processes"""
    out = {}
    for r in range(np):
        f = path if np == 1 else '%s.%d' % (path, r)
        if not os.path.exists(f): continue
        for l in open(f):
            try: x = json.loads(l)
            except ValueError: continue
            k = (x['step'], x['pt'])
            if k not in out: out[k] = x
            else:
                for q in ('badcell', 'badowner', 'bad'): out[k][q] += x[q]
                for q in ('n', 'w'):
                    for s, v in x[q].items(): out[k][q][s] = out[k][q].get(s, 0) + v
    return [out[k] for k in sorted(out)]
def merged(path, np):
    """one data dump out of the parts written by np processes: {dataset: (dims, values, writes)}"""
    if np == 1: return read(path)[2]
    sets = {}
    for r in range(np):
        for n, (d, v, w) in read('%s.%d' % (path, r))[2].items():
            if n not in sets: sets[n] = (d, list(v), list(w)); continue
            if d != sets[n][0]: raise SystemExit('%s has different shapes on the nodes' % n)
            for i in range(len(v)):
                if w[i]: sets[n][1][i] = v[i]
                sets[n][2][i] += w[i]
    return sets
def fail(msg): print('FAIL: ' + msg); raise SystemExit(1)
def close(a, b, tol=1e-6):
    """compare two datasets, relative to the largest value"""
    if a[0] != b[0]: return 'shape %s / %s' % (a[0], b[0])
    m = max([abs(x) for x in a[1] + b[1]] + [1e-300])
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        if not abs(x - y) <= tol * m: return 'element %d: %.12g / %.12g (largest %.4g)' % (i, x, y, m)
    return ''

def dumps(path):
    """KIT_DUMP records of one process: {(step, point): {'E': {(c, r, z): v}, 'H', 'T', 'J', 'p': {specie: [[r, z, vr, vphi, vz, w, old r, old z]]}}}"""
    out = {}
    for l in open(path):
        x = json.loads(l); o = out[(x['step'], x['pt'])] = {k: {} for k in 'EHTJp'}
        for d in x['d']:
            r0, z0, r1, z1 = d['b']; n = z1 - z0
            for k in 'EHTJ':
                for c in range(3):
                    for i, v in enumerate(d[k][c]): o[k][(c, r0 + i // n, z0 + i % n)] = v
            for s, v in d['p'].items(): o['p'].setdefault(s, []).extend(v)
    return out
