import sys,time,glob
sys.path.insert(0,'/verif/engine')
from compare import *
import verdict
from units import OPAQUE
P=Program(sorted(glob.glob((sys.argv[1]if len(sys.argv)>1 else '/tmp/facts')+'/*.json')))
S=Program(sorted(glob.glob('/tmp/sfacts/nlsn*.json')))
ms=models.Models([P,S])
strs=set()
def walk(x):
    if isinstance(x,dict):
        if x.get('c')=='str' and not any(c.isspace() for c in x['v']): strs.add(x['v'])
        for v in x.values(): walk(v)
    elif isinstance(x,list):
        for v in x: walk(v)
for pr in(P,S):
  for b in pr.bodies.values(): walk(b.blocks)
models.set_strings(strs)
import check
models.set_known(check.called(S))
pats=sys.argv[2:]
full='-v' in pats; pats=[p for p in pats if p not in('-v','-o')]
for n in sorted(S.bodies):
    if '{' in n: continue
    if pats and not any(p in n for p in pats): continue
    short=n.replace('nlsn_delaunay::','')
    base=n.split("__")[0]
    if base not in P.bodies: print('   --  ',short); continue
    t0=time.time()
    try:
        a=analyse(P,base,OPAQUE,ms,seconds=60); b=analyse(S,n,OPAQUE-{base},ms,seconds=60)
    except Exception as e:
        import traceback
        if full: traceback.print_exc()
        print('EXC',short,repr(e)[:200]); continue
    for l in sorted(set(a.outs)|set(b.outs)):
        if l not in a.outs or l not in b.outs: print('   label',short,l,'only in','repo' if l in a.outs else 'spec'); continue
        r,d=verdict.compare(a.outs[l],b.outs[l],AND(a.outs.get('returns',TRUE),b.outs.get('returns',TRUE)) if l!='returns' else TRUE)
        print('%-9s %.1fs %-60s %s'%(r,time.time()-t0,short,l), (dict(a.I.unknown),dict(b.I.unknown)) if r!='same' else '')
        if full and r!='same':
            if isinstance(d,tuple): print(d[1]); d=d[0]
            if d:
                t=d.text(16)
                for c in t['when']: print('      when',c[:300])
                print('      got ',t['got']); print('      want',t['expected'])
        if '-o' in sys.argv: print('   GOT ',show(a.outs[l],40)); print('   WANT',show(b.outs[l],40))
