"""debugging aid: the smallest differing subterms of a function and its specification.
usage: why.py FACTSDIR SPECFACTSDIR NAME [LABEL]"""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import check, units, verdict, terms
from terms import *
ctx = check.Context(sorted(glob.glob(sys.argv[1] + '/*.json')), sorted(glob.glob(sys.argv[2] + '/*.json')))
name = units.P + sys.argv[3] if not sys.argv[3].startswith('<') else sys.argv[3]
want = sys.argv[4] if len(sys.argv) > 4 else None


def kids(v):
    return [c for c in terms._iter(v.a)]


def walk(x, y, path, out, seen):
    if x is y or (x.id, y.id) in seen:
        return
    seen.add((x.id, y.id))
    kx, ky = kids(x), kids(y)
    lits = lambda v: [a for a in v.a if not isinstance(a, (N, tuple))]
    if x.op != y.op or len(kx) != len(ky) or lits(x) != lits(y) or (x.op == 'case' and x.a[0] is not y.a[0]):
        out.append((path + [x.op], x, y))
        return
    n = len(out)
    for i, (a, b) in enumerate(zip(kx, ky)):
        walk(a, b, path + ['%s.%d' % (x.op, i)], out, seen)
    if len(out) == n:
        out.append((path + [x.op], x, y))


base = name.split('__')[0]
a, b = ctx.summary('P', base, base), ctx.summary('S', name, base)
if isinstance(a, str) or isinstance(b, str):
    print(a, b)
    sys.exit()
for l in sorted(set(a.outs) | set(b.outs)):
    if want is not None and want not in l:
        continue
    x, y = a.outs.get(l), b.outs.get(l)
    if x is None or y is None or compatible(x, y) is not None:
        continue
    out = []
    walk(x, y, [], out, set())
    print('==', l, len(out), verdict.compare(x, y)[0])
    for p, x, y in out[:int(os.environ.get('MAX', 2))]:
        print('  at', '/'.join(p)[-200:])
        d = int(os.environ.get('DEPTH', 12))
        print('   got ', show(x, d)[:1500])
        print('   want', show(y, d)[:1500])
