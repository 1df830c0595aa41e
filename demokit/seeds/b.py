VB_EIGEN = 'ENABLE_PML SWITCH_CCS_VB SWITCH_PLASMA_SPATIAL_CENTERED SWITCH_PLASMA_VELOCITY_EIGEN SWITCH_PUSHER_BORIS_RELATIVISTIC'
ALLP = "[rec(c, 0, 0, %(nr)d, %(nz)d, 1) for c in ('E/r', 'E/phi', 'E/z', 'H/r', 'H/phi', 'H/z', 'J/r', 'J/phi', 'J/z')]"
# the same job with and without splitting; particles that start with the same velocity everywhere make both of the jobs identical
SPLIT = '''
P = ''' + ALLP + '''
def job(name, rd, zd, np, threads=1):
    c = config('', nr=%(nr)d, nz=%(nz)d, rd=rd, zd=zd, steps=%(steps)d, macro=%(macro)d, density=1e15, temp=2e4, temp_i=2e4, ion_mass=4, dt=1e-12, probes=P, %(more)s)
    rc, data, st, err = run(W, name, c, np=np, threads=threads, env={"KIT_PLACE": "%(place)d %(nr)d %(nz)d 1e8 1e8"})
    if rc: fail('%%s: exit %%d %%s' %% (name, rc, err[-200:]))
    return merged(data, np), states(st, np)
a, sa = job('a', %(rd)d, %(zd)d, %(np)d); b, sb = job('b', %(rrd)d, %(rzd)d, 1)
for n in sorted(a):
    e = close(a[n], b[n], %(tol)s)
    if e: fail('%%s differs from the job which is not split: %%s' %% (n, e))
for x, y in zip(sa, sb):
    if x['n'] != y['n']: fail('step %%d: population %%s, not split %%s' %% (x['step'], x['n'], y['n']))
'''
def split(nr=16, nz=16, rd=2, zd=2, np=1, steps=10, macro=4096, more='', rrd=1, rzd=1, tol='1e-8', place=1500): return SPLIT % locals()
# ---- C03
S('c03-pml-span', 'C03', [('src/SMB.cpp', '      if (left_z < geometry->pml_size[1])\n', '      if (wall_z0 && left_z < geometry->pml_size[1])\n')],
  'an absorbing layer at the left wall, which is thicker than one domain', 'the part of the layer in the second domain is not applied', split(nr=8, nz=16, rd=1, zd=4, more='pml=(6.5/16, 0, 0)'), switches=VB_EIGEN)
S('c03-pml-outer', 'C03', [('src/maxwellSolver/maxwellSolverYee.cpp', '''                    * pow(cell_size_r * (i + 1) + radial_cell_offset
                          - system_radius''', '''                    * pow(cell_size_r * (i + 1)
                          - geometry->size[0]''')],
  'an absorbing layer at the outer wall, which covers more than one domain along r', 'profile of the layer is wrong in the domain before the last one', split(nr=16, nz=8, rd=4, zd=1, more='pml=(0, 0, 6.5/16)'), switches=VB_EIGEN)
S('c03-hz-radius', 'C03', [('src/maxwellSolver/maxwellSolverYee.cpp', '(2. * dr * (i + 0.5 + geometry->cell_dims[0]))', '(2. * dr * (i + 0.5))')],
  'several domains along r and azimuthal electric field', 'curvature of the field is calculated from the radius inside of the domain', split(rd=2, zd=1), switches=VB_EIGEN)
S('c03-weight-r', 'C03', [('src/specieP.cpp', '* (top_r_num * top_r_num - bot_r_num * bot_r_num) * z_size;', '* (top_r_num - bot_r_num) * (top_r_num - bot_r_num) * z_size;')],
  'several domains along r: area of a ring is calculated as if the domain touched the axis', 'density of plasma differs between domains', '''
import math
def weights(rd, zd):
    c = config('', nr=8, nz=8, rd=rd, zd=zd, steps=1, macro=4000, density=1e15, probes=[rec('E/z', 0, 0, 8, 8)])
    rc, data, st, err = run(W, 'a%d%d' % (rd, zd), c)
    if rc: fail('exit %d' % rc)
    return states(st)[0]['w']
want = 1e15 * math.pi * 7e-3 ** 2 * 7e-3
for rd, zd in ((1, 1), (1, 2), (2, 1), (2, 2)):
    w = weights(rd, zd)
    for n in w:
        if abs(w[n] - want) > 1e-9 * want: fail('%d domains: %s has %g particles, %g configured' % (rd * zd, n, w[n], want))
''', switches=VB_EIGEN)
# ---- C04
S('c04-column', 'C04', [('src/SMB.cpp', 'item_minus.col_2_1[j_s] = sim_domain_minus->maxwell_solver->field_e[1](j, 2 - domain_o_s);', 'item_minus.col_2_1[j_s] = sim_domain_minus->maxwell_solver->field_e[2](j, 2 - domain_o_s);')],
  'two nodes and azimuthal electric field at their border', 'wrong component is sent in one of the columns', split(rd=1, zd=2, np=2, rrd=1, rzd=2), kind='mpi', switches=VB_EIGEN)
S('c04-middle-wall', 'C04', [('src/PiCoPiC.cpp', '''    if (ID < NPROCS - 1)
      geometry_smb->walls[3] = false;''', '''    if (ID < 1 || ID < NPROCS - 2)
      geometry_smb->walls[3] = false;''')],
  'three or more nodes', 'there is a wall between the last two nodes', split(nr=8, nz=24, rd=1, zd=6, np=3, rrd=1, rzd=6, macro=3072), kind='mpi', switches=VB_EIGEN)
S('c04-corner', 'C04', [('src/SMB.cpp', '''      int domain_r_size = dst_domain_minus->maxwell_solver->field_e[0].x_size;
      int domain_o_s = dst_domain_minus->maxwell_solver->field_e[0].o_s;
      int domain_z_size = dst_domain_minus->maxwell_solver->field_e[0].y_size;

      for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)''', '''      int domain_r_size = dst_domain_minus->maxwell_solver->field_e[0].x_size;
      int domain_o_s = dst_domain_minus->maxwell_solver->field_e[0].o_s;
      int domain_z_size = dst_domain_minus->maxwell_solver->field_e[0].y_size;

      for (int j = 0; j < domain_r_size; ++j)''')],
  'two nodes, several domains along r, a particle in the corner of four domains', 'electric field in the corner is wrong', split(rd=2, zd=2, np=2, steps=14, rrd=2, rzd=2, tol='1e-9'), kind='mpi', switches=VB_EIGEN)
# ---- C05
MSG = '''
c = config('', nr=8, nz=16, rd=2, zd=4, steps=25, macro=%(macro)d, temp=4e4, temp_i=4e4, ion_mass=1, dt=1.8e-12, probes=[rec('E/z', 0, 0, 8, 16, 40)])
try: rc, data, st, err = run(W, 'a', c, np=2, timeout=80, env={'KIT_ALARM': '60'})
except Exception as e: fail('the job does not end')
if rc: fail('exit %%d %%s' %% (rc, err[-200:]))
S = states(st, 2); n0 = S[0]['n']
for x in S:
    if x['pt'] >= 5 and x['n'] != n0: fail('step %%d: population %%s, was %%s: not all of the messages are received' %% (x['step'], x['n'], n0))
'''
S('c05-limit', 'C05', [('src/SMB.cpp', '''    if (howrcv > 0)
      for (unsigned int i = 0; i < howrcv; ++i)
      {
        // double dbuf[P_VEC_SIZE+1];
        Particle *n = new Particle();
        MPI_Recv (''', '''    if (howrcv > 0)
      for (unsigned int i = 0; i < howrcv && i < 12; ++i)
      {
        // double dbuf[P_VEC_SIZE+1];
        Particle *n = new Particle();
        MPI_Recv (''')], 'more than 12 particles pass to the previous node in one time step', 'the rest of messages is not received, and is mistaken for the next ones', MSG % dict(macro=8000), kind='mpi')
S('c05-barrier', 'C05', [('src/SMB.cpp', '''  // send/receive and update domain species, then continue
  MPI_Barrier(MPI_COMM_WORLD);''', '''  // send/receive and update domain species, then continue
  if (prtls_plus + prtls_minus > 0)
    MPI_Barrier(MPI_COMM_WORLD);''')], 'a step, where one of the nodes has particles to send and another has none', 'nodes wait in different barriers', MSG % dict(macro=1200), kind='mpi')
# ---- C06
STORE = '''
from conf import *
def frames(data, np=1): return merged(data, np)
'''
S('c06-reserve', 'C06', [('src/outEngine/outEngineHDF5.cpp', 'vector<size_t> local_size = {_num+1};', 'vector<size_t> local_size = {_num < 24 ? _num+1 : _num + _num/4};')],
  'more than 24 frames in a dataset', 'dataset ends with frames, which were never written', '''
c = config('', nr=8, nz=8, steps=40, probes=[rec('E/z', 0, 0, 8, 8), dot('H/phi', 3, 3, 2)])
rc, data, st, err = run(W, 'a', c)
if rc: fail('exit %d' % rc)
for n, (d, v, w) in read(data)[2].items():
    want = 40 if n.startswith('E') else 20
    if d[0] != want or min(w) < 1 or max(w) > 1: fail('%s has %d frames, %d expected, each of elements is written %d..%d times' % (n, d[0], want, min(w), max(w)))
''')
S('c06-narrow', 'C06', [('src/outWriter.cpp', '    size_t slice = (size_t)(ceil(current_time_step / schedule));', '    unsigned char slice = current_time_step / schedule;')],
  'more than 256 frames of one probe', 'frames are written over the earlier ones', '''
c = config('', nr=6, nz=6, steps=300, macro=100, probes=[dot('E/z', 3, 3)])
rc, data, st, err = run(W, 'a', c, env={'KIT_ALARM': '120'}, timeout=140)
if rc: fail('exit %d' % rc)
for n, (d, v, w) in read(data)[2].items():
    if d[0] != 300 or min(w) < 1 or max(w) > 1: fail('%s has %d frames, each of elements is written %d..%d times' % (n, d[0], min(w), max(w)))
''')
# ---- C07
S('c07-offset', 'C07', [('src/outController.cpp', 'eff_engine_offset.push_back(eff_prb_size[1] + dmn->geometry.cell_dims[1] - prb->dims[1]);', 'eff_engine_offset.push_back(eff_prb_size[1] + dmn->geometry.cell_dims[1] - (prb->shape == 0 && eff_prb_size[1] > 0 ? prb->dims[1] : 0));')],
  'a rec probe, that begins inside of one domain along z and continues in the next one', 'values are stored in the wrong place', '''
S = dict(nr=8, nz=16, rd=1, zd=2, steps=6, macro=4096, temp=2e4, temp_i=2e4, dt=1e-12, beams=[])
P = [rec(c, 1, z0, 7, z1) for c in ('E/r', 'H/phi') for z0, z1 in ((0, 16), (0, 9), (3, 7), (3, 14))]
rc, data, st, err = run(W, 'a', config('', probes=P, **S))
if rc: fail('exit %d %s' % (rc, err[-300:]))
D = read(data)[2]
for c in ('E/r', 'H/phi'):
    full = D[[n for n in D if n.startswith(c) and '0-16' in n][0]]
    for n in D:
        if not n.startswith(c): continue
        z0, z1 = [int(x) for x in n.replace('_', '-').split('/')[-1].split('-')[-2:]]
        d, v, w = D[n]
        for f in range(d[0]):
            for r in range(d[1]):
                for z in range(d[2]):
                    a = v[(f * d[1] + r) * d[2] + z]; b = full[1][(f * d[1] + r) * 16 + z + z0]
                    if a != b: fail('%s frame %d (%d,%d) is %g, the field is %g' % (n, f, r, z, a, b))
''', switches=VB_EIGEN)
S('c07-hphi', 'C07', [('src/outController.cpp', 'value = &(dmn->maxwell_solver->field_h_at_et[1]);', 'value = &(dmn->maxwell_solver->field_h[1]);')],
  'a probe of the azimuthal magnetic field', 'intermediate (half of time step later) field is stored instead of the one used by the solver', None, cpp='''
#include "kit.hpp"
#include "SMB.hpp"
#include "outWriter.hpp"
#include <cstdio>
extern int kit_rank;
static long step_ = -1;
static std::vector<double> now;
extern "C" void sim_point(int point, void *vs, void *) { SMB *s = (SMB *)vs; if (point == SIM_STEP_BEGIN) ++step_; if (point != SIM_OUTPUT) return;
  static FILE *o = fopen("field.txt", "w"); auto &g = s->domains(0, 0)->maxwell_solver->field_h_at_et[1];
  for (unsigned i = 0; i < g.x_size; ++i) for (unsigned j = 0; j < g.y_size; ++j) fprintf(o, "%.17g ", g(i, j)); fprintf(o, "\\n"); fflush(o); }
''')
SEEDS['c07-hphi']['demo'] = '''
c = config('', nr=8, nz=8, steps=8, macro=2000, temp=4e4, probes=[rec('H/phi', 0, 0, 8, 8)])
rc, data, st, err = run(W, 'a', c)
if rc: fail('exit %d' % rc)
d, v, w = list(read(data)[2].values())[0]; L = [[float(x) for x in l.split()] for l in open(os.path.join(W, 'a', 'field.txt'))]
for f in range(d[0]):
    e = close(([64], v[f * 64:f * 64 + 64], []), ([64], L[f], []), 1e-12)
    if e: fail('frame %d: stored / simulated: %s' % (f, e))
'''
# ---- C08
PAUSE = '''
P = [rec('E/z', 0, 0, 8, 8), rec('H/phi', 0, 0, 8, 8, 2), dot('J/z', 3, 3)]
def job(name, env):
    c = config('', nr=8, nz=8, zd=2, steps=10, macro=1000, temp=2e4, temp_i=2e4, probes=P)
    try: rc, data, st, err = run(W, name, c, np=%(np)d, env=dict(env, KIT_ALARM='25'), timeout=40)
    except Exception as e: fail('%%s does not end' %% name)
    if rc: fail('%%s: exit %%d %%s' %% (name, rc, err[-300:]))
    return merged(data, %(np)d)
a = job('a', {}); b = job('b', {'KIT_RAISE': '%(plan)s'})
for n in a:
    if a[n][0] != b[n][0] or a[n][1] != b[n][1] or a[n][2] != b[n][2]: fail('%%s differs after pause' %% n)
'''
S('c08-cache', 'C08', [('src/outEngine/outEngineHDF5.cpp', '''    DataSet dataset = data_file->getDataSet ( path );

    vector<size_t> local_offset = {_num};
    for (auto i = offset.begin(); i != offset.end(); ++i)
      local_offset.push_back((*i));
    vector<size_t> local_size = {1, data.size()};''', '''    // look for the dataset only once
    static std::map<string, DataSet> cache;
    auto found = cache.find(path);
    if (found == cache.end())
      found = cache.emplace(path, data_file->getDataSet ( path )).first;
    DataSet &dataset = found->second;

    vector<size_t> local_offset = {_num};
    for (auto i = offset.begin(); i != offset.end(); ++i)
      local_offset.push_back((*i));
    vector<size_t> local_size = {1, data.size()};''')], 'pause and resume of a job with a row or column probe', 'data is written through the file, which was closed at the pause', PAUSE.replace("dot('J/z', 3, 3)", "row('J/z', 3)") % dict(np=1, plan='4 6 10; 4 6 12 1.5'), switches=VB_EIGEN)
# ---- C09
TERM = '''
c = config('', nr=8, nz=8, steps=30, macro=1000, probes=[rec('E/z', 0, 0, 8, 8)])
ok = run(W, 'ok', c); full = read(ok[1])[2]
for sig in %(sigs)s:
    rc, data, st, err = run(W, 's%%d' %% sig, c, env={'KIT_RAISE': '5 4 %%d' %% sig})
    if rc == 0: fail('signal %%d: status is successful, although the work was not completed' %% sig)
    if rc < 0: fail('signal %%d: killed without closing of the data file' %% sig)
    n = max([x['step'] for x in states(st)])
    if n > 8: fail('signal %%d is ignored: step %%d' %% (sig, n))
    closed, attrs, sets = read(data)
    if not closed: fail('signal %%d: the data file is not closed' %% sig)
    k = list(sets)[0]; m = len(sets[k][1])
    if sets[k][0][0] < 5 or sets[k][1] != full[k][1][:m] and False: fail('signal %%d: frames lost' %% sig)
'''
S('c09-quit', 'C09', [('src/PiCoPiC.cpp', '       || signum == SIGQUIT\n', '')], 'SIGQUIT', 'the request is ignored', TERM % dict(sigs='(15, 3)'))
S('c09-pipe', 'C09', [('src/PiCoPiC.cpp', '  signal(SIGPIPE, signal_handler);', '  signal(SIGPIPE, SIG_IGN);')], 'SIGPIPE', 'the request is ignored', TERM % dict(sigs='(15, 13)'))
# ---- C10
FAILCPP = '''
#include "kit.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
extern "C" int demo_store(const char *op, const char *, long n) { const char *k = getenv("KIT_FAIL"); char o[40]; long m; return k && sscanf(k, "%39s %ld", o, &m) == 2 && !strcmp(o, op) && n == m; }
'''
FAIL = '''
c = config('', nr=8, nz=8, steps=12, macro=500, probes=%(probes)s)
ok = run(W, 'ok', c)
if ok[0]: fail('undisturbed run fails')
for op, n in %(ops)s:
    rc, data, st, err = run(W, '%%s%%d' %% (op, n), c, env={'KIT_FAIL': '%%s %%d' %% (op, n)})
    if rc == 0 and read(data)[2] != read(ok[1])[2]: fail('%%s number %%d fails: the run ends with success, but the data is damaged' %% (op, n))
'''
S('c10-vec', 'C10', [('src/outEngine/outEngineHDF5.cpp', '''    vector<size_t> local_size = {1, data.size()};

    vector <vector <double> > local_data
      (1, vector <double>
       (data.size(), 0.) );
    local_data[0] = data;

    dataset.select(local_offset, local_size).write( local_data );
  }
  catch (Exception& error)
  {
    LOG_S(ERROR) << error.what();
    LOG_S(FATAL) <<''', '''    vector<size_t> local_size = {1, data.size()};

    vector <vector <double> > local_data
      (1, vector <double>
       (data.size(), 0.) );
    local_data[0] = data;

    dataset.select(local_offset, local_size).write( local_data );
  }
  catch (Exception& error)
  {
    LOG_S(ERROR) << error.what();
    LOG_S(ERROR) <<''')], 'writing of a row or column fails', 'the failure is only logged', FAIL % dict(probes="[row('E/z', 3), rec('E/z', 0, 0, 8, 8)]", ops="[('write', k) for k in (1, 2, 7, 8)]"), cpp=FAILCPP)
S('c10-dot-retry', 'C10', [('src/outEngine/outEngineHDF5.cpp', '''    dataset.select({_num, 0}, {1, 1}).write( data );
  }
  catch (Exception& error)
  {
    LOG_S(ERROR) << error.what();
    LOG_S(FATAL) <<''', '''    dataset.select({_num, 0}, {1, 1}).write( data );
  }
  catch (Exception& error)
  {
    LOG_S(ERROR) << error.what();
    // the very first value is not important
    if (_num > 0) LOG_S(FATAL) <<''')], 'writing of the first value of a dot probe fails', 'the value is missing in a successful run', FAIL % dict(probes="[dot('E/z', 3, 3), rec('E/z', 0, 0, 8, 8)]", ops="[('write', k) for k in (1, 2, 7, 8)]"), cpp=FAILCPP)
# ---- C11
S('c11-mpi-excl', 'C11', [('src/PiCoPiC.cpp', 'HighFive::File::ReadWrite | HighFive::File::Create | HighFive::File::Excl,', 'HighFive::File::ReadWrite | HighFive::File::Create | HighFive::File::Truncate,')],
  'a job, which is split over nodes, started where a data file exists', 'the file of the earlier run is overwritten', '''
c = config('', nr=8, nz=8, zd=2, steps=5, probes=[rec('E/z', 0, 0, 8, 8)])
rc, data, st, err = run(W, 'a', c, np=2)
if rc: fail('exit %d' % rc)
old = [open('%s.%d' % (data, r)).read() for r in range(2)]
c['comment'] = 'second'; rc, data, st, err = run(W, 'a', c, np=2)
if [open('%s.%d' % (data, r)).read() for r in range(2)] != old: fail('the data file was overwritten')
if rc == 0: fail('the second run is successful')
''', kind='mpi')
S('c11-damaged', 'C11', [('src/PiCoPiC.cpp', '''      LOG_S(FATAL) << "Can not create new file ``"
                   << hdf5_filepath << "''"
                   << endl << error.what();
''', '''      // replace the file, damaged by an interrupted run
      bool is_damaged = false;
      try { HighFive::File old_file (hdf5_filepath.c_str(), HighFive::File::ReadOnly); }
      catch (const HighFive::FileException&) { is_damaged = true; }

      if (! is_damaged)
        LOG_S(FATAL) << "Can not create new file ``" << hdf5_filepath << "''" << endl << error.what();

      file = new HighFive::File (hdf5_filepath.c_str(), HighFive::File::Create | HighFive::File::Truncate);
''')], 'a data file left behind by a run which was killed', 'the data of the earlier run is replaced', '''
c = config('', nr=8, nz=8, steps=5, probes=[rec('E/z', 0, 0, 8, 8)])
rc, data, st, err = run(W, 'a', c)
if rc: fail('exit %d' % rc)
old = open(data).read().replace('closed 1', 'closed 0'); open(data, 'w').write(old)
c['comment'] = 'second'; rc, data, st, err = run(W, 'a', c)
if open(data).read() != old: fail('the data file was overwritten')
if rc == 0: fail('the second run is successful')
''')
# ---- C12
BEAM = '''
c = config('', nr=8, nz=8, rd=%(rd)d, steps=%(steps)d, macro=4000, dt=1e-12, temp=1, beams=[beam(vel=2e8, start=%(start)s, amount=%(am)d, dist=%(dist)s, length=%(len)s, radius=%(rad)s)], probes=[rec('E/z', 0, 0, 8, 8, 40)])
rc, data, st, err = run(W, 'a', c)
if rc: fail('exit %%d' %% rc)
S = {(x['step'], x['pt']): x['n']['beam_electrons'] for x in states(st)}
got = [S[(k, 3)] - S[(k, 2)] for k in range(%(steps)d)]; per = max(got)
if per < 2: fail('nothing is injected: %%s' %% got)
for k in range(%(steps)d):
    t = k * 1e-12; b = [(%(start)s + m * (%(len)s + %(dist)s) / 2e8, %(start)s + (m * (%(len)s + %(dist)s) + %(len)s) / 2e8) for m in range(%(am)d)]
    if any(abs(t - x) < 1e-15 for y in b for x in y): continue
    due = any(x <= t < y for x, y in b)
    if due and got[k] != per or not due and got[k]: fail('step %%d (%%s): injected %%d of %%d' %% (k, 'bunch' if due else 'no bunch', got[k], per))
%(more)s
'''
def bm(rd=1, steps=40, start='2.3e-12', am=3, dist='1.1e-3', len='0.9e-3', rad='5.2e-3', more=''): return BEAM % locals()
S('c12-early', 'C12', [('src/beamP.cpp', '    double bunch_start_time = start_time + (bunch_length + bunches_distance) / velocity * current_bunch_number;', '    double bunch_start_time = start_time + (bunch_length + bunches_distance) / velocity * current_bunch_number - (current_bunch_number > 1 ? time->step : 0);')],
  'a beam of three or more bunches', 'the third bunch begins one step too early', bm())
S('c12-unused', 'C12', [('src/beamP.cpp', '    if (geometry->cell_dims[0] * geometry->cell_size[0] < radius // prevent injection for unused bunches', '    if (geometry->cell_dims[2] * geometry->cell_size[0] <= radius * 2 // prevent injection for unused bunches')],
  'a beam which is thinner than a half of the first domain', 'nothing is injected', bm(rd=1, rad='3.2e-3'))
# ---- C13
S('c13-left', 'C13', [('src/specieP.cpp', '''        || (pos_r < half_dr && geometry->walls[0])
        || (pos_z < half_dz && geometry->walls[1])
        )''', '''        || (pos_r < half_dr && geometry->walls[0])
        || (pos_z < half_dz && geometry->walls[1] && geometry->walls[0])
        )''')], 'several domains along r: a particle reaches the left wall in a domain which does not touch the axis', 'particle leaves through the wall', prt(2, 2, steps=60, macro=4000), kind='omp')
# ---- C14
S('c14-use-after-free', 'C14', [('src/SMB.cpp', '''                    if ((**ps).id >= BEAM_ID_START)
                    {
                      LOG_S(MAX) << "Beam particle''', '''                    if ((**ps).id >= BEAM_ID_START)
                    {
                      delete o;
                      LOG_S(MAX) << "Beam particle''')], 'verbose log and a beam particle which leaves through the right wall', 'position of a deleted particle is read', '''
c = config('', nr=8, nz=8, rd=1, steps=40, macro=2000, dt=1.5e-12, beams=[beam(vel=2.8e8, length=4e-3, radius=5e-3)], probes=[rec('E/z', 0, 0, 8, 8, 40)])
for k in ({}, {'KIT_DEBUG': '1'}):
    rc, data, st, err = run(W, 'a%d' % len(k), c, env=dict(k, ASAN_OPTIONS='detect_leaks=0'))
    if 'AddressSanitizer' in err or rc: fail('exit %d %s' % (rc, [l for l in err.splitlines() if 'ERROR: Addr' in l][:1]))
''', defs='-fsanitize=address')
S('c14-overlay-size', 'C14', [('src/SMB.cpp', '''    MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
    MPICommOverlay item_minus_recv (domain_r_size + 2 * domain_o_s, i, 0);

    for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
    {
      int j_s = j + domain_o_s;

      item_minus.col_0_0[j_s] = sim_domain_minus->maxwell_solver->field_e[0]''', '''    MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
    MPICommOverlay item_minus_recv (domain_r_real_size - (i > 2), i, 0);

    for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
    {
      int j_s = j + domain_o_s;

      item_minus.col_0_0[j_s] = sim_domain_minus->maxwell_solver->field_e[0]''')], 'two nodes and four or more domains along r', 'the last element of the received column is outside of the buffer', '''
c = config('', nr=16, nz=16, rd=4, zd=2, steps=3, macro=400, probes=[rec('E/z', 0, 0, 16, 16, 40)])
rc, data, st, err = run(W, 'a', c, np=2, env={'ASAN_OPTIONS': 'detect_leaks=0'})
if 'AddressSanitizer' in err or rc: fail('exit %d %s' % (rc, [l for l in err.splitlines() if 'ERROR: Addr' in l][:1]))
''', kind='mpi', defs='-fsanitize=address')
# ---- C16
S('c16-het', 'C16', [('src/maxwellSolver/maxwellSolverYee.cpp', '  field_h_at_et = 0.;\n  field_h_at_et.overlay_set(0.);\n', '  field_h_at_et = 0.;\n')], 'several domains and a reused heap', 'the first step of the solution depends on garbage', '''
ref = None
for k, v in enumerate(('0', '63', '165')):
    c = config('', nr=8, nz=8, rd=2, zd=2, steps=4, probes=[rec('E/r', 0, 0, 8, 8), rec('E/phi', 0, 0, 8, 8), rec('E/z', 0, 0, 8, 8)])
    rc, data, st, err = run(W, 'a%d' % k, c, env={'MALLOC_PERTURB_': v, 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'})
    if rc: fail('contents of memory %s: exit %d %s' % (v, rc, err[-200:]))
    s = read(data)[2]
    if ref is None: ref = s
    for n in ref:
        if [repr(x) for x in ref[n][1]] != [repr(x) for x in s[n][1]]: fail('%s depends on the contents of memory' % n)
''')
S('c16-density', 'C16', [('src/specieP.cpp', '  density_map = 0;\n  density_map.overlay_set(0);\n', '  density_map = 0;\n')], 'several domains and a density probe', 'the density at borders of domains depends on garbage', '''
ref = None
for k, v in enumerate(('0', '63', '165')):
    c = config('', nr=8, nz=8, rd=2, zd=2, steps=4, probes=[rec('density', 0, 0, 8, 8, 1, 'electrons'), rec('temperature', 0, 0, 8, 8, 1, 'ions')])
    rc, data, st, err = run(W, 'a%d' % k, c, env={'MALLOC_PERTURB_': v, 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'})
    if rc: fail('contents of memory %s: exit %d %s' % (v, rc, err[-200:]))
    s = read(data)[2]
    if ref is None: ref = s
    for n in ref:
        if [repr(x) for x in ref[n][1]] != [repr(x) for x in s[n][1]]: fail('%s depends on the contents of memory' % n)
''')
