# ---- C01
PRT = '''
c = config('', nr=8, nz=8, rd=%(rd)d, zd=%(zd)d, steps=%(steps)d, macro=%(macro)d, density=1e15, temp=4e4, temp_i=4e4, ion_mass=2, probes=[rec('E/z', 0, 0, 8, 8)], %(more)s)
rc, data, st, err = run(W, 'a', c, np=%(np)d, threads=%(threads)d, env={%(env)s})
if rc: fail('exit %%d %%s' %% (rc, err[-200:]))
S = states(st, %(np)d); n0 = None
for x in S:
    if x['pt'] >= 5 and (x['badcell'] or x['badowner'] or x['bad']): fail('step %%d: %%d particles in a wrong cell, %%d with a wrong owner, %%d invalid' %% (x['step'], x['badcell'], x['badowner'], x['bad']))
    p = {k: v for k, v in x['n'].items() if not k.startswith('beam_')}; w = {k: v for k, v in x['w'].items() if k in p}
    if n0 is None: n0, w0 = p, w
    if p != n0: fail('step %%d: population %%s, was %%s' %% (x['step'], p, n0))
    for k in w:
        if abs(w[k] - w0[k]) > 1e-9 * w0[k]: fail('step %%d: weight of %%s changed' %% (x['step'], k))
'''
def prt(rd=1, zd=1, steps=30, macro=800, np=1, threads=1, more='dt=1e-12', env=''): return PRT % locals()
S('c01-corner', 'C01', [('src/SMB.cpp', 'else if (i_dst != i || j_dst != j) // check that destination domain is different, than source',
  'else if ((i_dst != i) != (j_dst != j)) // check that destination domain is different, than source')],
  'a particle crossing an r-border and a z-border of its domain within one time step', 'particles moving across the corner stay with the domain which does not contain them', prt(2, 2))
S('c01-mpi-rdst', 'C01', [('src/SMB.cpp', '''        // this is unshifted domain numbers (local for SMB)
        Domain *sim_domain = domains(0, 0);

        unsigned int i_dst = (unsigned int)ceil (
          ( r_cell - geometry->cell_dims[0] ) // we should make cell numbers local for SMB
          / sim_domain->geometry.cell_amount[0] );
''', '''        // this is unshifted domain numbers (local for SMB)
        Domain *sim_domain = domains(0, 0);

        unsigned int i_dst = (unsigned int)ceil (
          ( CELL_NUMBER(P_POS_OLD_R((*n)), geometry->cell_size[0]) - geometry->cell_dims[0] ) // we should make cell numbers local for SMB
          / sim_domain->geometry.cell_amount[0] );
''')], 'two nodes, several domains along r, a particle returning to the previous node and crossing the r-border of domains in the same step', 'received particle is filed by its previous position', prt(4, 4, np=2, macro=6000, steps=40, more='dt=1.8e-12'), kind='mpi')
S('c01-mpi-type', 'C01', [('src/SMB.cpp', 'int blocklengths[3] = {11,3,1};', 'int blocklengths[3] = {9,3,1};')],
  'particles crossing the border of MPI nodes', 'weight and rotation of the particle are not sent, so they are zero at the other node', prt(1, 4, np=2), kind='mpi')
# ---- C02
S('c02-static', 'C02', [('src/pusher/pusherBoris.cpp', '      vector3d<double> vtmp;\n', '      static vector3d<double> vtmp;\n')],
  'two threads push particles of different domains at the same time', 'scratch vector of one thread is overwritten by another', """
ref = None
for k in range(14):
    c = config('', nr=16, nz=16, rd=4, zd=4, steps=12, macro=40000, temp=4e4, temp_i=4e4, ion_mass=1, dt=1e-12, density=1e16, probes=[rec('E/r', 0, 0, 16, 16, 11), rec('J/phi', 0, 0, 16, 16, 11)])
    rc, data, st, err = run(W, 'a%d' % k, c, threads=1 if ref is None else 4)
    if rc: fail('exit %d %s' % (rc, err[-200:]))
    s = read(data)[2]
    if ref is None: ref = s; continue
    for n in ref:
        d = close(ref[n], s[n], 1e-9)
        if d: fail('run %d: %s with 4 threads differs from one thread: %s' % (k, n, d))
""", switches='ENABLE_PML SWITCH_CCS_VB SWITCH_PLASMA_SPATIAL_CENTERED SWITCH_PLASMA_VELOCITY_EIGEN SWITCH_PUSHER_BORIS_RELATIVISTIC')
S('c02-stride', 'C02', [('src/SMB.cpp', '''  for (unsigned int idx = 0; idx < 2; ++idx)
    for (unsigned int idy = 0; idy < 2; ++idy)
    {
#pragma omp parallel for
      for (unsigned int i = idx; i < r_domains; i+=2)
        for (unsigned int j = idy; j < z_domains; j+=2)
        {
          Domain *sim_domain = domains(i, j);

          for (auto ps =''', '''  for (unsigned int idx = 0; idx < 1; ++idx)
    for (unsigned int idy = 0; idy < 2; ++idy)
    {
#pragma omp parallel for
      for (unsigned int i = idx; i < r_domains; i++)
        for (unsigned int j = idy; j < z_domains; j+=2)
        {
          Domain *sim_domain = domains(i, j);

          for (auto ps =''')], 'one thread collects runaway particles of a domain, while another passes particles to it', 'list of particles is changed by two threads at once', '''
for k in range(12):
    c = config('', nr=16, nz=8, rd=4, zd=1, steps=40, macro=60000, temp=4e4, temp_i=4e4, ion_mass=1, dt=1.8e-12, probes=[rec("E/z", 0, 0, 16, 8, 20)])
    rc, data, st, err = run(W, 'a%d' % k, c, threads=4, env={'MALLOC_PERTURB_': '165'})
    if rc: fail('exit %d %s' % (rc, err[-200:]))
    S = states(st); n0 = S[0]['n']
    for x in S:
        if x['n'] != n0 or (x['pt'] >= 5 and x['badowner']) or x['bad']: fail('run %d step %d: population %s, was %s, %d wrong' % (k, x['step'], x['n'], n0, x['badowner'] + x['bad']))
''')
