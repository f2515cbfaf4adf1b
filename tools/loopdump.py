import sys
sys.argv=['x','/tmp/facts','NOTHING']
exec(open('/tmp/cmp.py').read())
def loops(v,acc,seen):
    if v.id in seen: return
    seen.add(v.id)
    if v.op in('mux','mus','muw'): acc.append(v)
    for c in terms._iter(v.a): loops(c,acc,seen)
def dump(prog,n):
    a=analyse(prog,n,OPAQUE-{n.split('__')[0]},ms,seconds=60)
    for l,o in a.outs.items():
        acc=[];loops(o,acc,set())
        for v in acc: print(n.split('::')[-1],l,show(v,40)); print()
n='nlsn_delaunay::'+NAME
dump(P,n); 
for s in S.bodies:
    if s.split('__')[0]==n: dump(S,s)
