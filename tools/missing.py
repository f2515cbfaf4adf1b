import sys
sys.path.insert(0,'/verif/engine')
import facts
from mir import Program
P=Program(facts.extract('/repo','repo')); S=Program(facts.extract('/verif/spec','spec'))
names={n.split('__')[0] for n in S.bodies}
for n in sorted(P.bodies):
    if '{' in n or n in names: continue
    if any(x in n for x in ('structopt','serde','clap','Debug','fmt')): continue
    b=P.bodies[n]
    print(n.replace('nlsn_delaunay::',''),'pub' if b.pub else '', len(b.blocks))
