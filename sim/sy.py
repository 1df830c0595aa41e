#!/usr/bin/env python3
# developer aid: resolve @hex code addresses in RUN lines to source lines
import sys,re,subprocess,json
B=sys.argv[1]
for l in sys.stdin:
    if not l.startswith('RUN '): print(l,end=''); continue
    r=json.loads(l[4:])
    if r['status']==1: print(r['prop'],r['seed'],'ok','ev',r['events'],'steps',r['steps'],'moved',r['moved'],'frames',r['frames'],r['faults']); continue
    d=r['detail']; so=B+'/v_'+('mpi' if r['msgs'] or r['ranks']>2 else 'omp')+'/put.so'
    print(r['prop'],r['seed'],r['kind'],'exit',r['exit'],'ranks',r['ranks'],'step',r['steps'],'|',re.sub(r'@\w+','@',d)[:700])
    for a in dict.fromkeys(re.findall(r'@([0-9a-f]+)',d)):
        if a=='0': continue
        o=subprocess.run(['addr2line','-Cfe',so,a],capture_output=True,text=True).stdout.split('\n')
        print('      ',a,o[0][:90],o[1].split('/repo/')[-1])
