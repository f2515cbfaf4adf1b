"""Rules that are not comparisons with a specified value.

A rule yields True for each construct found in order, ('open', text) for one it cannot judge and a
dictionary for each violation."""
from terms import *
import terms
import verdict
import wire
import borrows
from coll import *
from interp import coerce
from mir import core_ty

V = 'nlsn_delaunay::elements::vertex::Vertex'
T = 'nlsn_delaunay::elements::triangle::Triangle'
TR = 'nlsn_delaunay::planar::triangulation::Triangulation'


def statements(prog):
    """(body, block, statement) of every body of the program"""
    for name in sorted(prog.bodies):
        b = prog.bodies[name]
        for i, blk in enumerate(b.blocks):
            for s in blk['s']:
                yield b, i, s


def base(name):
    return name.split('::{')[0]


def short(n):
    return n.replace('nlsn_delaunay::', '')


def line(body, span):
    w = body.where() if hasattr(body, 'where') else ''
    return w


def operand_const(o):
    """value of a constant operand, or None"""
    if o[0] == 'const':
        return o[1].get('bits', o[1].get('v'))
    return None


# ---------------------------------------------------------------- writes to the triangulation's store
STORE = ('triangles', 'adjacency')


def store_field(place):
    for e in place['p']:
        if e[0] == 'field' and e[2] in STORE and len(e) > 3 and e[3] == TR:
            return e[2]
    return None


def callers(prog):
    by = {}
    for name, b in prog.bodies.items():
        for blk in b.blocks:
            t = blk['t']
            refs = []

            def walk(x):
                if isinstance(x, dict):
                    if isinstance(x.get('path'), str) and ('name' in x or 'res' in x):
                        refs.append(x.get('res') or x['path'])
                    for v in x.values():
                        walk(v)
                elif isinstance(x, list):
                    for v in x:
                        walk(v)
            walk(t)
            walk(blk['s'])
            for r in refs:
                by.setdefault(base(r), set()).add(base(name))
    return by


def store_writers(ctx):
    """only include_triangle and remove_triangle, or what only they call, change the store"""
    prog = ctx.P
    allowed = {TR + '::include_triangle', TR + '::remove_triangle'}
    for a in sorted(allowed):
        if a not in prog.bodies:
            yield dict(function=short(a), note='the operation is gone')
            return
    writes = {}
    for b, i, s in statements(prog):
        if s[0] != 'assign':
            continue
        dst, rv = s[1], s[2]
        f = store_field(dst)
        if f is None and rv[0] in ('ref', 'rawptr'):
            p = rv[2] if rv[0] == 'ref' else rv[1]
            if rv[0] == 'rawptr' or rv[1] == 'mut':
                f = store_field(p)
        if f is None and dst['p'] and dst['p'][-1][0] == 'deref':
            t = b.prog_ty(dst['t'])
            if t.k == 'adt' and t.path == TR:
                f = 'whole triangulation'
        if f is not None:
            writes.setdefault(base(b.name), []).append((b, i, f))
    by = callers(prog)
    ok = set(allowed)
    grown = True
    while grown:
        grown = False
        for w in writes:
            if w not in ok and by.get(w) and by[w] - {w} and by[w] - {w} <= ok:
                ok.add(w)
                grown = True
    # a value under construction is nobody's triangulation yet
    for w in sorted(writes):
        for b, i, f in writes[w]:
            if w in ok:
                yield True
            elif core_ty(b.locals[0]).k == 'adt' and core_ty(b.locals[0]).path == TR and not any(
                    t.k == 'ref' and t.mut for t in b.locals[1:b.argc + 1]):
                yield True
            else:
                yield dict(function=short(w), file=b.where() if hasattr(b, 'where') else '',
                           output='block %d' % i, key='%s writes %s' % (short(w), f),
                           note='%s of the triangulation is changed outside include_triangle and remove_triangle' % f)


# ---------------------------------------------------------------- ghost vertices
def ghost_makers(ctx):
    """every vertex is made either solid, or as the one ghost with fixed coordinates"""
    prog = ctx.P
    seen = set()
    for b, i, s in statements(prog):
        if s[0] == 'assign' and s[2][0] == 'agg':
            kind = s[2][1]
            if not (isinstance(kind, (list, tuple)) and len(kind) > 1 and kind[0] == 'adt' and kind[1] == V):
                continue
            ops = s[2][2]
            flag = operand_const(ops[2]) if len(ops) == 3 else None
            if flag is None:
                yield ('open', '%s makes a vertex whose ghost flag is computed' % short(b.name))
                continue
            if str(flag) in ('0', 'False', 'false'):
                yield True
                continue
            cs = tuple(operand_const(o) for o in ops[:2])
            if None in cs:
                yield ('open', '%s makes a ghost vertex with computed coordinates' % short(b.name))
            else:
                seen.add((tuple(map(str, cs)), b.name))
                yield True
        elif s[0] == 'assign':
            p = s[1]['p']
            if p and p[-1][0] == 'field' and p[-1][2] == 'is_ghost' and len(p[-1]) > 3 and p[-1][3] == V:
                yield dict(function=short(base(b.name)), key='%s sets is_ghost' % short(base(b.name)),
                           note='the ghost flag of an existing vertex is changed')
    if len({c for c, _ in seen}) > 1:
        yield dict(function=short(sorted(seen)[-1][1]), key='ghosts differ', note='ghost vertices with different coordinates')


# ---------------------------------------------------------------- hashing
def hash_name(adt):
    return '<%s as core::hash::Hash>::hash' % adt


def eq_name(adt):
    return '<%s as core::cmp::PartialEq<%s>>::eq' % (adt, adt)


def reads(v, root, acc, seen):
    """fields of root a value depends on; None when it depends on root itself"""
    if v.id in seen:
        return
    seen.add(v.id)
    if v is root:
        acc.add(None)
        return
    if v.op == 'proj' and v.a[0] is root:
        acc.add(v.a[1])
        return
    for c in terms._iter(v.a):
        reads(c, root, acc, seen)


def rotated_hash(ctx):
    """triangles that differ by a rotation feed the same to the hasher"""
    n = hash_name(T)
    s = ctx.summary('P', n, n)
    if isinstance(s, str):
        yield ('open', s)
        return
    h = s.outs.get('argument 1')
    if h is None:
        yield True
        return
    p = sym('p0', 'arg')
    b = ctx.P.bodies[n]
    q = coerce(p, b.locals[1])
    f = lambda k: proj(q, k)
    for turn in (('v2', 'v3', 'v1'), ('v3', 'v1', 'v2')):
        r = to_leaf(subst(h, {p: mk('S', T, *[to_leaf(f(k)) for k in turn])}))
        st, d = verdict.compare(r, to_leaf(h))
        if st == verdict.SAME:
            yield True
        elif st == verdict.DIFF:
            v = dict(function=short(n), output='argument 1', key='Triangle hash rotation', file=b.where(),
                     note='a rotated triangle is equal but hashes differently')
            v.update(d.text(6))
            yield v
        else:
            yield ('open', 'hash of the rotated triangle: %s' % (d[1] if d else ''))


def hash_reads(ctx):
    """hashing reads no field that equality ignores"""
    for adt in (V, T, 'nlsn_delaunay::elements::edge::Edge', 'nlsn_delaunay::elements::polyline::Polyline'):
        n, m = hash_name(adt), eq_name(adt)
        a, b = ctx.summary('P', n, n), ctx.summary('P', m, m)
        if isinstance(a, str) or isinstance(b, str):
            yield ('open', '%s: %s' % (short(adt), a if isinstance(a, str) else b))
            continue
        p = sym('p0', 'arg')
        hs, es = set(), set()
        for l, v in a.outs.items():
            reads(v, p, hs, set())
        for l, v in b.outs.items():
            reads(v, p, es, set())
        if None in hs or None in es:
            yield ('open', '%s is hashed or compared as a whole' % short(adt))
        elif hs <= es:
            yield True
        else:
            yield dict(function=short(n), key='%s hash reads %s' % (short(adt), ','.join(sorted(hs - es))),
                       file=ctx.P.bodies[n].where(), output='argument 1',
                       note='hashing reads %s, which equality ignores' % ', '.join(sorted(hs - es)))


LINTS = {
    'C05': [('rotated triangles hash alike', rotated_hash), ('hash reads only what equality compares', hash_reads),
            ('ghosts are identical', ghost_makers)],
    'C06': [('vertices are made solid or as the one ghost', ghost_makers)],
    'C12': [('only include_triangle and remove_triangle change the store', store_writers)],
}
LINTS.update(wire.LINTS)
LINTS.update(borrows.LINTS)
