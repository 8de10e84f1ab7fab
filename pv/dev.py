import sys,time,importlib,os
sys.path.insert(0,'/verif')
sys.setrecursionlimit(100000)
import pv.engine as en
from pv import extract
from pv.contract import verify
x=extract.extract()
m=importlib.import_module('pv.contracts.'+sys.argv[1])
E=None
for C in m.CONTRACTS:
    if len(sys.argv)>2 and C.__name__ not in sys.argv[2:]: continue
    c=C()
    E=en.Engine(x['mir'], x['doc'], bin=(x['binmir'], x['bindoc']) if getattr(c, 'bin', False) else None)
    r=verify(E,c,True)
    print(C.__name__,r.status,r.error,'outcomes',r.outcomes,'%.1fs'%r.secs,'q',r.queries,'covers',r.covers)
    for o in r.obls:
        if o.status!='proved':
            print('  ',o.status,o.name,o.detail[:700]); 
            if os.environ.get('PC'): print('     pc:'); [print('        ',str(x)[:300].replace('\n',' ')) for x in o.st.pc]
            if o.status=='refuted' and os.environ.get('MODEL'): print('     model',str(o.model)[:2500])
    print('  proved',sum(o.status=='proved' for o in r.obls),'of',len(r.obls))
    if os.environ.get('LOOPS'):
        for l in r.loops: print('  loop',l)
