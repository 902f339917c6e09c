import os, sys, importlib, time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); sys.setrecursionlimit(20000)
from core import *
import verify
m=importlib.import_module('specs.'+sys.argv[1])
only=None; procs=8
for a in sys.argv[2:]:
    if a=='-1': procs=1
    else: only=a
import os
t=time.time()
P=Program([TU('/tmp/w/%s.json'%s.replace('/','_').replace('.cc','')) for s in m.SPEC['tus']])
rs,missing=verify.verify_all(P,m.SPEC,procs=procs,only=only)
if missing: print('MISSING',missing)
for r in rs:
    bad=[o for o in r.obls if o[2]!='proved']
    print('%-12s %-40s %d/%d %.1fs %s'%(r.status,r.con,len(r.obls)-len(bad),len(r.obls),r.secs,r.note))
    if only and r.meta: print('   ',r.meta['loops'],r.meta['returns'],r.meta['feasible'],r.meta['assumed'],'inl',r.meta['inlined'],'mod',r.meta['models'],'con',r.meta['contracts'])
    for o in bad[:12]: print('    ',o[0],o[2],'%.1f'%o[4],(o[5] or '')[:600].replace('\n',' ') if only else '')
print('%.1fs'%(time.time()-t))
