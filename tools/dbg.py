import sys, importlib
sys.path.insert(0,'/verif')
from irv.run import *
p=importlib.import_module('props.'+sys.argv[1])
flt=sys.argv[2] if len(sys.argv)>2 else ''
for u in p.units('quick'):
    if flt not in u.title: continue
    r=verify_unit(u)
    print('%-10s %5.1fs q=%d obl=%d %s %s'%(r.status,r.wall,r.queries,len(r.obls),r.title,r.reason[-(4000 if '-v' in sys.argv else 700):]))
    seen={}
    for o in r.obls:
        if o.status!='proved':
            k=(o.status,o.name,o.line); seen[k]=seen.get(k,0)+1
            if seen[k]==1: print('    ',o.status,o.name,'line',o.line,str(o.model if '-v' in sys.argv else (o.model or [])[-2:])[:1500])
    for k,n in seen.items():
        if n>1: print('     x%d'%n,k)
    if '-l' in sys.argv:
        for l in r.loops: print('   loop',str(l)[:1500])
        print('   models',r.models); print('   inl',list(r.inlined))
