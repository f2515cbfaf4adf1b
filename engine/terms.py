"""Value graphs: hash-consed terms, decision diagrams over abstract atoms, binders.

A value is one of
  * scalar: a decision diagram ('case' nodes over atoms) whose leaves are terms,
    constants ('k', i) or BOT (no value: an impossible or panicking path),
  * composite: ('rec', name, fields...) or ('enum', adt, tag, payloads...), whose
    components are values.
Every constructor normalises, so equal values are the same object.
"""
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(200000)

_tab = {}
_cnt = 0
EMPTY = frozenset()


class N(object):
    __slots__ = ('op', 'a', 'id', 'taint', 'fv', 'h', 'rank', 'x')

    def __repr__(self):
        return show(self)


def _iter(a):
    for x in a:
        if isinstance(x, N):
            yield x
        elif isinstance(x, tuple):
            for y in _iter(x):
                yield y


def mk(op, *a):
    global _cnt
    key = (op, a)
    n = _tab.get(key)
    if n is not None:
        return n
    n = N()
    n.op = op
    n.a = a
    _cnt += 1
    n.id = _cnt
    n.taint = op == 'opq'
    n.x = None
    h = 0
    fv = None
    for c in _iter(a):
        if c.taint:
            n.taint = True
        if c.h > h:
            h = c.h
        if c.fv:
            fv = c.fv if fv is None or fv is c.fv else (fv | c.fv)
    if op == 'sym' or op == 'bv':
        fv = frozenset([n])
    if op == 'lam':
        h = a[0]
        if fv:
            fv = frozenset(v for v in fv if not (v.op == 'bv' and v.a[0] == h))
    n.h = h
    n.fv = fv or EMPTY
    if op == 'a:ile':
        n.rank = (a[0].id, a[1])
    else:
        n.rank = (n.id, 0)
    _tab[key] = n
    return n


BOT = mk('bot')


def K(i):
    return mk('k', i)


FALSE, TRUE = K(0), K(1)
UNIT = mk('rec', '()')
_symc = 0


def sym(name, uid=None):
    global _symc
    if uid is None:
        _symc += 1
        uid = _symc
    return mk('sym', name, uid)


def is_case(v):
    return v.op == 'case'


def is_comp(v):
    return v.op == 'rec' or v.op == 'enum'


def arity(atom):
    if atom.op == 'a:sgn':
        return 3
    if atom.op == 'a:tag':
        return atom.a[1]
    return 2


# ---------------------------------------------------------------- case nodes
_memo_case = {}
ADTS = {}          # adt path -> {kind, variants}; merged from the fact files


def _coerce_like(v, shape):
    """expand raw values so that they have the composite shape of `shape`"""
    if v is BOT or is_comp(v):
        return v
    if shape.op == 'rec':
        name = shape.a[0]
        return mk('rec', name, *[proj(v, fname) for fname in rec_fields(shape)])
    return enum_expand(v, shape.a[0])


def rec_fields(r):
    name = r.a[0]
    if name in REC_FIELDS:
        return REC_FIELDS[name]
    return [str(i) for i in range(len(r.a) - 1)]


REC_FIELDS = {}


def enum_variants(adt):
    return ADTS[adt]['variants']


def enum_expand(v, adt):
    vs = enum_variants(adt)
    tag = vmap(lambda t: leaf_tag(t, adt, len(vs)), v)
    pay = []
    for i, var in enumerate(vs):
        pay.append(tuple(vmap(lambda t, i=i, j=j, var=var: leaf_payload(t, adt, i, j, var['name']), v)
                         for j in range(len(var['fields']))))
    return mk('enum', adt, tag, tuple(pay))


def leaf_tag(t, adt, n):
    if t is BOT:
        return BOT
    if t.op == 'k':
        return t
    if t.op == 'E':
        return K(t.a[1])
    return atomv(mk('a:tag', t, n))


def leaf_payload(t, adt, i, j, vname):
    if t is BOT:
        return BOT
    if t.op == 'k':
        return BOT
    if t.op == 'E':
        return t.a[2 + j] if t.a[1] == i else BOT
    return mk('proj', t, vname + '.' + str(j))


def vmap(f, v):
    """apply f (leaf -> value) to every leaf of a scalar value"""
    if v is BOT:
        return BOT
    if v.op == 'case':
        memo = {}

        def go(x):
            if x is BOT:
                return BOT
            if x.op != 'case':
                return f(x)
            r = memo.get(x.id)
            if r is None:
                r = memo[x.id] = build_case(x.a[0], [go(k) for k in x.a[1:]])
            return r
        return go(v)
    return f(v)


def proj(v, field):
    if v is BOT:
        return BOT
    if v.op == 'rec':
        fs = rec_fields(v)
        return v.a[1 + fs.index(field)]
    if v.op == 'case':
        return vmap(lambda t: proj(t, field), v)
    if v.op == 'S':
        fs = REC_FIELDS.get(v.a[0]) or [str(i) for i in range(len(v.a) - 1)]
        return v.a[1 + fs.index(field)]
    return mk('proj', v, field)


def compatible(a, b, memo=None):
    """agree wherever both are defined; returns the overlay or None"""
    if a is b or b is BOT:
        return a
    if a is BOT:
        return b
    if a.op != 'case' and b.op != 'case':
        return None
    if memo is None:
        memo = {}
    key = (a.id, b.id)
    if key in memo:
        return memo[key]
    if b.op != 'case' or (a.op == 'case' and a.a[0].rank < b.a[0].rank):
        m = a.a[0]
        ka = a.a[1:]
        kb = [cof(b, m, i) for i in range(len(ka))]
    else:
        m = b.a[0]
        kb = b.a[1:]
        ka = [cof(a, m, i) for i in range(len(kb))]
    out = []
    res = None
    for x, y in zip(ka, kb):
        r = compatible(x, y, memo)
        if r is None:
            break
        out.append(r)
    else:
        res = build_case(m, out)
    memo[key] = res
    return res


def has_bot(v):
    if v is BOT:
        return True
    if v.x is None:
        v.x = {}
    r = v.x.get('bot')
    if r is None:
        r = v.x['bot'] = v.op == 'case' and any(has_bot(k) for k in v.a[1:])
    return r


def cof(v, m, i):
    """cofactor of scalar v for atom m taking outcome i (m ranks <= top of v)"""
    if v.op != 'case':
        return v
    a = v.a[0]
    if a is m:
        return v.a[1 + i]
    return v


def build_case(atom, kids):
    """case over atom with arbitrary kid values, any order, composites allowed"""
    kids = list(kids)
    first = None
    same = True
    comp = None
    anyc = False
    for k in kids:
        if k is BOT:
            continue
        if first is None:
            first = k
        elif k is not first:
            same = False
        if k.op == 'rec' or k.op == 'enum':
            comp = k
    if first is None:
        return BOT
    if same:
        return first
    if comp is not None:
        return _case_comp(atom, kids, comp)
    key = (atom, tuple(kids))
    r = _memo_case.get(key)
    if r is not None:
        return r
    m = atom
    for k in kids:
        if k.op == 'case' and k.a[0].rank < m.rank:
            m = k.a[0]
    if m is atom:
        r = _mk_case(atom, [cof(k, atom, i) for i, k in enumerate(kids)])
    else:
        n = arity(m)
        out = []
        for i in range(n):
            if m.op == 'a:ile' and atom.op == 'a:ile' and m.a[0] is atom.a[0] and i == 1:
                # L<=k1 implies L<=k2 for k2>k1
                out.append(cof(kids[1], m, 1))
            else:
                out.append(build_case(atom, [cof(k, m, i) for k in kids]))
        r = _mk_case(m, out)
    _memo_case[key] = r
    return r


def _case_comp(atom, kids, comp):
    kids = [_coerce_like(k, comp) for k in kids]
    if comp.op == 'rec':
        out = []
        for i in range(1, len(comp.a)):
            out.append(build_case(atom, [k if k is BOT else k.a[i] for k in kids]))
        return mk('rec', comp.a[0], *out)
    tag = build_case(atom, [k if k is BOT else k.a[1] for k in kids])
    pays = []
    for vi, p in enumerate(comp.a[2]):
        row = []
        for j in range(len(p)):
            row.append(build_case(atom, [k if k is BOT else (BOT if not _may(k.a[1], vi) else k.a[2][vi][j])
                                         for k in kids]))
        pays.append(tuple(row))
    return mk('enum', comp.a[0], tag, tuple(pays))


def _may(tag, vi):
    """can the tag value be vi?"""
    if tag is BOT:
        return False
    if tag.op == 'case':
        return any(_may(k, vi) for k in tag.a[1:])
    return tag.op != 'k' or tag.a[0] == vi


def _implied_true(v, L):
    while v.op == 'case' and v.a[0].op == 'a:ile' and v.a[0].a[0] is L:
        v = v.a[2]
    return v


def _mk_case(atom, kids):
    if atom.op == 'a:ile':
        kids[1] = _implied_true(kids[1], atom.a[0])
        f = kids[0]
        if f.op == 'case' and f.a[0].op == 'a:ile' and f.a[0].a[0] is atom.a[0] and f.a[2] is kids[1]:
            return f
    live = [k for k in kids if k is not BOT]
    if not live:
        return BOT
    f = live[0]
    if all(k is f for k in live):
        return f
    if any(has_bot(k) for k in kids):
        acc = BOT
        for k in kids:
            acc = compatible(acc, k)
            if acc is None:
                break
        if acc is not None:
            return acc
    if any(k.op == 'coll' for k in live):
        return COLL_MERGE(atom, kids)
    if any(k.op in CHAIN for k in live):
        r = CHAIN_MERGE(atom, kids)
        if r is not None:
            return r
    if atom.op == 'a:sgn' and len(kids) == 3:
        n, z, p = kids
        # at p == 0 two numeric branches that differ by a multiple of p are equal
        if n is not BOT and p is not BOT and z is not n and (z is p) and isnum(n) and isnum(p):
            d = num_add(tonum(n), tonum(p), -1)
            if proportional(d, atom.a[0]):
                kids = [n, n, p]
    return mk('case', atom, *kids)


COLL_MERGE = None
CHAIN_MERGE = None
CHAIN = frozenset(['mput', 'mdel', 'incl', 'remv'])


def atomv(atom):
    """selector value of an atom: its outcome"""
    return mk('case', atom, *[K(i) for i in range(arity(atom))])


def select(sel, kids):
    if sel is BOT:
        return BOT
    if sel.op == 'k':
        return kids[sel.a[0]]
    if sel.op == 'case':
        memo = {}

        def go(s):
            if s is BOT:
                return BOT
            if s.op == 'k':
                return kids[s.a[0]]
            if s.op != 'case':
                return opq('select', s)
            r = memo.get(s.id)
            if r is None:
                r = memo[s.id] = build_case(s.a[0], [go(k) for k in s.a[1:]])
            return r
        return go(sel)
    # opaque selector
    b = mk('a:tag', sel, len(kids)) if len(kids) > 2 else mk('a:b', sel)
    return build_case(b, kids)


def ite(c, t, f):
    return select(c, [f, t])


def AND(*vs):
    r = TRUE
    for v in vs:
        if v is TRUE:
            continue
        r = ite(r, v, FALSE)
        if r is FALSE:
            return r
    return r


def OR(*vs):
    r = FALSE
    for v in vs:
        r = ite(r, TRUE, v)
    return r


def NOT(v):
    return select(v, [TRUE, FALSE])


def restrict(v, pc):
    """v where pc holds, BOT elsewhere"""
    if pc is TRUE:
        return v
    return comp_map(v, lambda s: on_care(s, pc))


def on_care(v, pc, memo=None):
    """a value that depends only on what v is where pc holds"""
    if pc is FALSE or pc is BOT or v is BOT:
        return BOT
    if pc is TRUE or v.op != 'case':
        return v
    if pc.op != 'case':
        return select(pc, [BOT, v])
    if memo is None:
        memo = {}
    key = (v.id, pc.id)
    r = memo.get(key)
    if r is None:
        m = v.a[0] if v.a[0].rank <= pc.a[0].rank else pc.a[0]
        r = memo[key] = build_case(m, [on_care(cof(v, m, i), cof(pc, m, i), memo) for i in range(arity(m))])
    return r


def comp_map(v, f):
    if v.op == 'rec':
        return mk('rec', v.a[0], *[comp_map(x, f) for x in v.a[1:]])
    if v.op == 'enum':
        return mk('enum', v.a[0], f(v.a[1]), tuple(tuple(comp_map(x, f) for x in p) for p in v.a[2]))
    return f(v)


def assume(v, pc):
    """simplify v under the assumption pc (BOT elsewhere is forgotten when possible)"""
    return restrict(v, pc)


def overlay(pairs):
    """pairs: (pc, value) with disjoint pcs"""
    acc = None
    for pc, v in pairs:
        if pc is FALSE:
            continue
        if acc is None:
            acc = (pc, v)
            continue
        apc, av = acc
        if av is v:
            acc = (OR(apc, pc), v)
            continue
        acc = (OR(apc, pc), merge2(pc, v, apc, av))
    return acc[1] if acc else BOT


def merge2(p1, v1, p2, v2):
    """v1 where p1, v2 where p2, BOT elsewhere"""
    if v1 is v2:
        return v1
    if v1 is BOT:
        return v2
    if v2 is BOT:
        return v1
    if is_comp(v1) or is_comp(v2):
        shape = v1 if is_comp(v1) else v2
        a, b = _coerce_like(v1, shape), _coerce_like(v2, shape)
        if a.op != b.op or a.a[0] != b.a[0]:
            return opq('merge', to_leaf(v1), to_leaf(v2))
        if shape.op == 'rec':
            return mk('rec', shape.a[0], *[merge2(p1, x, p2, y) for x, y in zip(a.a[1:], b.a[1:])])
        tag = merge2(p1, a.a[1], p2, b.a[1])
        pays = []
        for vi, p in enumerate(shape.a[2]):
            row = []
            for j in range(len(p)):
                row.append(merge2(p1, a.a[2][vi][j] if _may(a.a[1], vi) else BOT,
                                  p2, b.a[2][vi][j] if _may(b.a[1], vi) else BOT))
            pays.append(tuple(row))
        return mk('enum', shape.a[0], tag, tuple(pays))
    # outcome selector: 1 where p1, 0 where p2, BOT elsewhere
    return select(on_care(p1, OR(p1, p2)), [v2, v1])


def opq(why, *leaves):
    return mk('opq', why, *[x if isinstance(x, (N, str, int)) else str(x) for x in leaves])


# ---------------------------------------------------------------- leaves and lifting
def coerced_of(v, t):
    """is v the raw term t, possibly read at a scalar type?"""
    if v is t:
        return True
    if v.op == 'poly':
        return v is num(t)
    if v.op == 'case' and len(v.a) == 3 and v.a[1] is FALSE and v.a[2] is TRUE:
        return v.a[0].op == 'a:b' and v.a[0].a[0] is t
    if v.op == 'enum':
        return eta_enum(v) is t
    if v.op == 'rec':
        return eta_rec(v) is t
    return False


def eta_rec(v):
    fs = rec_fields(v)
    base = None
    for f, x in zip(fs, v.a[1:]):
        b = None
        if x.op == 'proj':
            b = x
        elif x.op == 'poly':
            b = raw_of_num(x)
        elif x.op == 'case' and x.a[0].op == 'a:b':
            b = x.a[0].a[0]
        elif x.op == 'enum':
            b = eta_enum(x)
        elif x.op == 'rec':
            b = eta_rec(x)
        if b is None or b.op != 'proj' or b.a[1] != f:
            return None
        if base is None:
            base = b.a[0]
        elif base is not b.a[0]:
            return None
        if not coerced_of(x, b):
            return None
    if base is not None:
        # the fields may be those of another type with more of them
        o = OWNER.get(base.id)
        if o is None:
            if v.a[0] in AMBIGUOUS:
                return None
        elif o != v.a[0] and v.a[0] != 'tup':
            return None
    return base


OWNER = {}         # raw term -> the struct type it is used at
AMBIGUOUS = set()  # struct types whose fields are among those of another one


def own(v, path):
    if v.op == 'case':
        vmap(lambda t: (own(t, path), t)[1], v)
    elif v.op not in ('rec', 'enum', 'S', 'E', 'bot'):
        OWNER.setdefault(v.id, path)


def find_ambiguous():
    for k, fs in REC_FIELDS.items():
        if fs and any(j != k and set(fs) <= set(gs) for j, gs in REC_FIELDS.items()):
            AMBIGUOUS.add(k)


def eta_enum(v):
    tag = v.a[1]
    if tag.op != 'case' or tag.a[0].op != 'a:tag':
        return None
    t = tag.a[0].a[0]
    vs = enum_variants(v.a[0])
    if tag is not atomv(mk('a:tag', t, len(vs))):
        return None
    for i, p in enumerate(v.a[2]):
        for j, x in enumerate(p):
            if not coerced_of(x, mk('proj', t, vs[i]['name'] + '.' + str(j))):
                return None
    return t


def leaf_rec(name, ls):
    if len(ls) > 1 and all(x.op == 'proj' for x in ls):
        e = eta_rec(mk('rec', name, *ls))
        if e is not None:
            return e
    return mk('S', name, *ls)


def to_leaf(v):
    """composite -> scalar value with S/E leaves; numbers that are a bare term -> the term"""
    if v is BOT:
        return v
    if v.op == 'rec':
        if v.x is None:
            v.x = {}
        r = v.x.get('leaf')
        if r is not None:
            return r
        e = eta_rec(v) if len(v.a) > 1 else None
        if e is not None:
            r = e
        else:
            name = v.a[0]
            r = lift(lambda *ls: leaf_rec(name, ls), *[to_leaf(x) for x in v.a[1:]])
        v.x['leaf'] = r
        return r
    if v.op == 'enum':
        if v.x is None:
            v.x = {}
        r = v.x.get('leaf')
        if r is not None:
            return r
        e = eta_enum(v)
        if e is not None:
            r = e
        else:
            adt = v.a[0]
            pays = v.a[2]

            def f(t):
                if t.op != 'k':
                    return opq('enumtag', t)
                i = t.a[0]
                return lift(lambda *ls: mk('E', adt, i, *ls), *[to_leaf(x) for x in pays[i]])
            r = vmap(f, v.a[1])
        v.x['leaf'] = r
        return r
    if v.op == 'poly':
        r = raw_of_num(v)
        return r if r is not None else v
    return v


def lift(f, *vs):
    """apply a function of leaves to values (the product of their cases); BOT is strict"""
    memo = {}

    def go(vs):
        for v in vs:
            if v is BOT:
                return BOT
        m = None
        for v in vs:
            if v.op == 'case' and (m is None or v.a[0].rank < m.rank):
                m = v.a[0]
        if m is None:
            return f(*vs)
        key = tuple(v.id for v in vs)
        r = memo.get(key)
        if r is None:
            r = memo[key] = build_case(m, [go([cof(v, m, i) for v in vs]) for i in range(arity(m))])
        return r
    return go(list(vs))


def term(op, *vs):
    """generic opaque term over values"""
    return lift(lambda *ls: mk(op, *ls), *[to_leaf(v) for v in vs])


def call(f, *vs):
    return lift(lambda *ls: mk('call', f, *ls), *[to_leaf(v) for v in vs])


def boolv(t):
    """raw bool term(s) -> boolean value"""
    def f(x):
        if x.op == 'k':
            return x
        return atomv(mk('a:b', x))
    return vmap(f, t)


# ---------------------------------------------------------------- numbers
def isnum(v):
    return v.op == 'poly'


def mono_key(m):
    return tuple((g.id, e) for g, e in m)


def big_inv(g):
    return g.op == 'fn' and g.a[0] == 'inv' and g.a[1].op == 'poly' and len(g.a[1].a[0]) > 1



def lead_mono(p):
    """leading (monomial, coefficient) under a multiplicative order"""
    best = None
    for m, c in p.a[0]:
        if best is None or deg_gt(m, best[0]):
            best = (m, c)
    return best


def deg_gt(m, n):
    a, b = sum(e for _, e in m), sum(e for _, e in n)
    if a != b:
        return a > b
    da, db = dict(m), dict(n)
    for g in sorted(set(da) | set(db), key=lambda g: g.id):
        x, y = da.get(g, 0), db.get(g, 0)
        if x != y:
            return x > y
    return False


def cancel(d):
    """reduce modulo inv(D)*D = 1"""
    work = True
    fuel = 4000
    while work and fuel > 0:
        work = False
        for m in list(d):
            c = d.get(m)
            if not c:
                continue
            for g, e in m:
                if not big_inv(g):
                    continue
                D = g.a[1]
                lm, lc = lead_mono(D)
                dm = dict(m)
                if all(dm.get(h, 0) >= k for h, k in lm):
                    for h, k in lm:
                        dm[h] -= k
                    base = tuple(sorted(((h, k) for h, k in dm.items() if k), key=lambda he: he[0].id))
                    # lm*inv = (1 - (D - lc*lm)*inv)/lc
                    del d[m]
                    red = tuple((h, k - 1 if h is g else k) for h, k in base if not (h is g and k == 1))
                    d[red] = d.get(red, 0) + c / lc
                    for m2, c2 in D.a[0]:
                        if m2 == lm:
                            continue
                        m3, _ = mono_mul(base, m2)
                        d[m3] = d.get(m3, 0) - c * c2 / lc
                    work = True
                    fuel -= 1
                    break
    return d


def mkpoly(d):
    if any(big_inv(g) for m in d for g, _ in m):
        d = cancel(dict(d))
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: mono_key(mc[0]))
    return mk('poly', tuple(items))


def const(c):
    c = Fr(c)
    return mk('poly', (((), c),) if c != 0 else ())


ZERO = const(0)
ONE = const(1)


def num(t):
    """raw term as a number"""
    if t.op == 'poly':
        return t
    return mk('poly', ((((t, 1),), Fr(1)),))


tonum = num


def raw_of_num(p):
    if len(p.a[0]) == 1:
        m, c = p.a[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def const_of(p):
    if p.op != 'poly':
        return None
    if not p.a[0]:
        return Fr(0)
    if len(p.a[0]) == 1 and p.a[0][0][0] == ():
        return p.a[0][0][1]
    return None


def num_add(p, q, s=1):
    d = dict(p.a[0])
    for m, c in q.a[0]:
        d[m] = d.get(m, 0) + s * c
    return mkpoly(d)


def mono_mul(m1, m2):
    d = {}
    for g, e in m1 + m2:
        d[g] = d.get(g, 0) + e
    c = Fr(1)
    extra = None
    for g in list(d):
        if g.op == 'fn' and g.a[0] == 'sqrt' and d[g] >= 2:
            k = d[g] // 2
            d[g] -= 2 * k
            for _ in range(k):
                extra = g.a[1] if extra is None else num_mul(extra, g.a[1])
        if d[g] == 0:
            del d[g]
    for g in list(d):
        if g.op == 'fn' and g.a[0] == 'inv' and g in d:
            h = raw_of_num(g.a[1]) if g.a[1].op == 'poly' else g.a[1]
            if h is not None and h in d:
                k = min(d[g], d[h])
                for t in (g, h):
                    d[t] -= k
                    if d[t] == 0:
                        del d[t]
    m = tuple(sorted(d.items(), key=lambda ge: ge[0].id))
    return m, extra


def num_mul(p, q):
    d = {}
    out = None
    for m1, c1 in p.a[0]:
        for m2, c2 in q.a[0]:
            m, extra = mono_mul(m1, m2)
            if extra is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                t = num_mul(mkpoly({m: c1 * c2}), extra)
                out = t if out is None else num_add(out, t)
    r = mkpoly(d)
    return r if out is None else num_add(r, out)


def num_scale(p, c):
    return mkpoly({m: k * c for m, k in p.a[0]})


def num_pow(p, n):
    r = ONE
    for _ in range(n):
        r = num_mul(r, p)
    return r


def normalise(p):
    """p = c * q with leading coefficient of q equal to 1"""
    c = p.a[0][0][1] if p.a[0][0][0] != () or len(p.a[0]) == 1 else p.a[0][1][1]
    if c == 1:
        return Fr(1), p
    return c, num_scale(p, 1 / c)


def proportional(d, p):
    if not d.a[0] or not p.a[0]:
        return False
    return normalise(d)[1] is normalise(p)[1]


def num_inv(p):
    c = const_of(p)
    if c is not None:
        return const(1 / c) if c != 0 else num(opq('inv0'))
    k, q = normalise(p)
    if len(q.a[0]) == 1:
        # 1/(monomial)
        r = const(1 / k)
        for g, e in q.a[0][0][0]:
            gi = num(g.a[1]) if g.op == 'fn' and g.a[0] == 'inv' else num(mk('fn', 'inv', num(g)))
            r = num_mul(r, num_pow(gi, e))
        return r
    return num_scale(num(mk('fn', 'inv', q)), 1 / k)


def num_fn(name, p):
    c = const_of(p)
    if name == 'sqrt' and c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return const(Fr(a, b))
    if name == 'abs':
        if c is not None:
            return const(abs(c))
        k, q = normalise(p)
        return num_scale(num(mk('fn', 'abs', q)), abs(k))
    if name == 'cos':
        if c is not None and c == 0:
            return ONE
        k, q = normalise(p)
        if k < 0:
            return num(mk('fn', 'cos', num_scale(p, -1)))
    return num(mk('fn', name, p))


# value-level arithmetic
def nlift(f, *vs):
    return lift(lambda *ls: f(*[tonum(x) if x.op != 'opq' else num(x) for x in ls]), *vs)


def vadd(a, b):
    return nlift(num_add, a, b)


def vsub(a, b):
    return nlift(lambda p, q: num_add(p, q, -1), a, b)


def vmul(a, b):
    return nlift(num_mul, a, b)


def vneg(a):
    return nlift(lambda p: num_scale(p, -1), a)


def vdiv(a, b):
    return nlift(lambda p, q: num_mul(p, num_inv(q)), a, b)


def vfn(name, a):
    return nlift(lambda p: num_fn(name, p), a)


# ---------------------------------------------------------------- atoms
def sgn(p):
    """selector: 0 negative, 1 zero, 2 positive, for a real polynomial"""
    c = const_of(p)
    if c is not None:
        return K(0 if c < 0 else 1 if c == 0 else 2)
    k, q = normalise(p)
    # |q| compared to a constant
    nm = near_form(p)
    if nm is not None:
        return nm
    at = mk('a:sgn', q)
    ks = [K(0), K(1), K(2)]
    if k < 0:
        ks.reverse()
    m = q.a[0]
    if len(m) == 1 and len(m[0][0]) == 1 and m[0][0][0][0].op == 'fn' and m[0][0][0][0].a[0] in ('abs', 'sqrt'):
        # abs(r) is zero exactly when r is
        g = m[0][0][0][0]
        z = sgn(g.a[1])
        if g.a[0] == 'abs':
            return select(z, [ks[2], ks[1], ks[2]])
        return select(z, [BOT, ks[1], ks[2]])
    return mk('case', at, *ks)


def near_form(p):
    """sign of  s*|q| + c  with c of the opposite sign: a tolerance test"""
    if len(p.a[0]) != 2:
        return None
    gs = [(m, c) for m, c in p.a[0] if m != ()]
    cs = [c for m, c in p.a[0] if m == ()]
    if len(gs) != 1 or len(cs) != 1:
        return None
    m, k = gs[0]
    if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'fn' or m[0][0].a[0] != 'abs':
        return None
    thr = -cs[0] / k
    if thr <= 0:
        return K(2) if k > 0 else K(0)
    q = m[0][0].a[1]
    inside = near(q, thr)           # |q| <= thr
    strict = near(q, thr, True)     # |q| <  thr
    lo, hi = (K(0), K(2)) if k > 0 else (K(2), K(0))
    return ite(strict, lo, ite(inside, K(1), hi))


def near(p, thr, strict=False):
    """|p| <= thr (or <) as a boolean value; zero is always near"""
    c = const_of(p)
    if c is not None:
        return TRUE if (abs(c) < thr if strict else abs(c) <= thr) else FALSE
    k, q = normalise(p)
    at = mk('a:near', q, thr / abs(k), 1 if strict else 0)
    s = sgn(q)
    b = atomv(at)
    if strict:
        b = AND(b, atomv(mk('a:near', q, thr / abs(k), 0)))
    return select(s, [b, TRUE, b])


NONNEG = {'len', 'count'}


def ile(p, k):
    """integer polynomial p <= k"""
    k = Fr(k)
    L = []
    c0 = Fr(0)
    for m, c in p.a[0]:
        if m == ():
            c0 = c
        else:
            L.append((m, c))
    k = k - c0
    if not L:
        return TRUE if k >= 0 else FALSE
    import math
    lead = L[0][1]
    g = 0
    ok = all(c.denominator == 1 for _, c in L)
    if ok:
        for _, c in L:
            g = math.gcd(g, abs(int(c)))
    else:
        g = 1
    Lp = mkpoly({m: c / g for m, c in L})
    k = Fr(k) / g
    lead = Lp.a[0][0][1]
    if lead < 0:
        # -M <= k  <=>  M >= -k  <=>  not (M <= ceil(-k)-1)
        M = num_scale(Lp, -1)
        kk = -math.floor(k) - 1
        return NOT(ile_atom(M, kk))
    return ile_atom(Lp, math.floor(k))


def lower_bound(L):
    """a lower bound of an integer polynomial, when one is known"""
    lb = 0
    for m, c in L.a[0]:
        if m == ():
            lb += c
            continue
        if c < 0:
            return None
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in NONNEG:
            continue
        return None
    return lb


def ile_atom(L, k):
    lb = lower_bound(L)
    if lb is not None and k < lb:
        return FALSE
    return atomv(mk('a:ile', L, int(k)))


def icmp(p, q):
    """(p<q, p==q) for integers"""
    d = num_add(p, q, -1)
    lt = ile(d, -1)
    le = ile(d, 0)
    return lt, le


# ---------------------------------------------------------------- binders
_captured = [0]


def lam(syms, bodies):
    """close bodies over syms"""
    n = len(syms)
    h = 1 + max([b.h for b in bodies] or [0])
    for k in range(40):
        m = {s: mk('bv', h, i) for i, s in enumerate(syms)}
        before = _captured[0]
        nb = [subst(b, m) for b in bodies]
        h2 = 1 + max([b.h for b in nb] or [0])
        if _captured[0] != before:
            # something inside took these variables for its own
            h = max(h + 1, h2)
            continue
        # when no height is its own result, any that exceeds what it encloses will do
        if h2 == h or k > 5 and h2 < h:
            break
        h = h2 if k < 5 else max(h, h2)
    for b in nb:
        for x in b.fv:
            if x.op == 'bv' and x.a[0] <= h and x.a[0] != h:
                _captured[0] += 1
            elif x.op == 'bv' and x.a[0] == h and x.a[1] >= n:
                _captured[0] += 1
    for b in bodies:
        for x in b.fv:
            if x.op == 'bv' and x.a[0] == h:
                _captured[0] += 1
    return mk('lam', h, n, *nb)


def open_lam(l, syms=None):
    h, n = l.a[0], l.a[1]
    if syms is None:
        syms = [sym('b') for _ in range(n)]
    m = {mk('bv', h, i): s for i, s in enumerate(syms)}
    return syms, [subst(b, m) for b in l.a[2:]]


def inst_lam(l, vals):
    h = l.a[0]
    syms, bodies = open_lam(l)
    m = dict(zip(syms, vals))
    return [subst(b, m) for b in bodies]


_gs = [sym('G', -i - 1) for i in range(8)]


def open_key(l):
    return open_lam(l, _gs[:l.a[1]])[1]


REBUILD = {}       # op -> function(list of substituted args) -> value
_sub_memo = {}


def subst(v, m):
    if not v.fv:
        return v
    keys = frozenset(m)
    if v.fv.isdisjoint(keys):
        return v
    memo = {}

    def sarg(x):
        if isinstance(x, N):
            return go(x)
        if isinstance(x, tuple):
            return tuple(sarg(y) for y in x)
        return x

    def go(v):
        if v.fv.isdisjoint(keys):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        op = v.op
        if op == 'sym' or op == 'bv':
            r = m[v]
        elif op == 'case':
            s = atomv(v.a[0]) if v.a[0].fv.isdisjoint(keys) else go(v.a[0])
            r = select(s, [go(k) for k in v.a[1:]])
        elif op == 'rec':
            r = mk('rec', v.a[0], *[go(x) for x in v.a[1:]])
        elif op == 'enum':
            r = mk('enum', v.a[0], go(v.a[1]), tuple(tuple(go(x) for x in p) for p in v.a[2]))
        elif op == 'lam':
            syms, bodies = open_lam(v)
            nb = [subst(b, m) for b in bodies]
            r = lam(syms, nb)
        elif op == 'poly':
            r = ZERO
            for mono, c in v.a[0]:
                t = const(c)
                for g, e in mono:
                    gv = go(g)
                    for _ in range(e):
                        t = vmul(t, gv)
                r = vadd(r, t)
        elif op == 'a:sgn':
            r = lift(sgn, tonumv(go(v.a[0])))
        elif op == 'a:near':
            r = lift(lambda p: near_raw(p, v.a[1], v.a[2]), tonumv(go(v.a[0])))
        elif op == 'a:ile':
            r = lift(lambda p: ile(p, v.a[1]), tonumv(go(v.a[0])))
        elif op == 'a:tag':
            r = tagv(go(v.a[0]), v.a[1])
        elif op == 'a:b':
            r = asbool(go(v.a[0]))
        elif op == 'fn':
            name = v.a[0]
            if name == 'inv':
                r = lift(lambda p: num_inv(p), tonumv(go(v.a[1])))
            else:
                r = lift(lambda p: num_fn(name, p), tonumv(go(v.a[1])))
        elif op in REBUILD:
            r = REBUILD[op](*[sarg(x) for x in v.a])
        else:
            r = generic(op, [sarg(x) for x in v.a])
        memo[v] = r
        return r
    return go(v)


def near_raw(p, thr, strict):
    c = const_of(p)
    if c is not None:
        return TRUE if (abs(c) < thr if strict else abs(c) <= thr) else FALSE
    k, q = normalise(p)
    return atomv(mk('a:near', q, thr / abs(k), strict))


def tonumv(v):
    return vmap(tonum, v)


def generic(op, args):
    idx = [i for i, x in enumerate(args) if isinstance(x, N) and x.op != 'lam']
    leaves = [to_leaf(args[i]) for i in idx]

    def f(*ls):
        out = list(args)
        for i, l in zip(idx, ls):
            out[i] = l
        return mk(op, *out)
    return lift(f, *leaves)


def tagv(v, n):
    if v.op == 'enum':
        return v.a[1]
    def f(t):
        if t.op == 'k':
            return t
        if t.op == 'E':
            return K(t.a[1])
        return atomv(mk('a:tag', t, n))
    return vmap(f, v)


def asbool(v):
    return boolv(to_leaf(v) if is_comp(v) else v)


def r_proj(t, f):
    if t.op == 'enum':
        # field "Variant.j"
        vname, j = f.rsplit('.', 1)
        for i, var in enumerate(enum_variants(t.a[0])):
            if var['name'] == vname:
                return t.a[2][i][int(j)]
        return BOT
    if t.op == 'rec':
        return proj(t, f)

    def g(x):
        if x.op == 'E':
            vname, j = f.rsplit('.', 1)
            vs = enum_variants(x.a[0])
            return x.a[2 + int(j)] if vs[x.a[1]]['name'] == vname else BOT
        return proj(x, f)
    return vmap(g, t)


REBUILD['proj'] = r_proj


# ---------------------------------------------------------------- printing
def show(v, depth=14):
    if depth <= 0:
        return '...'
    o, a = v.op, v.a
    d = depth - 1
    if o == 'bot':
        return '⊥'
    if o == 'k':
        return '#%d' % a[0]
    if o == 'case':
        at = a[0]
        if len(a) == 3 and a[1] is FALSE and a[2] is TRUE:
            return show(at, d)
        return '[%s ? %s]' % (show(at, d), ' | '.join(show(k, d) for k in a[1:]))
    if o == 'sym':
        return '%s%s' % (a[0], '' if isinstance(a[1], str) else "'%s" % a[1])
    if o == 'bv':
        return 'b%d.%d' % a
    if o == 'poly':
        if not a[0]:
            return '0'
        out = []
        for m, c in a[0]:
            ms = '*'.join(show(g, d) + ('^%d' % e if e > 1 else '') for g, e in m)
            if not ms:
                cs = str(c) if c.denominator < 10**6 else '%.17g' % float(c)
                out.append(cs)
            elif c == 1:
                out.append(ms)
            else:
                out.append('%s*%s' % (c if c.denominator < 10**6 else '%.17g' % float(c), ms))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if o == 'proj':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'rec':
        return '%s{%s}' % (short(a[0]), ', '.join(show(x, d) for x in a[1:]))
    if o == 'enum':
        vs = enum_variants(a[0])
        t = a[1]
        if t.op == 'k':
            i = t.a[0]
            return vs[i]['name'] + ('(%s)' % ', '.join(show(x, d) for x in a[2][i]) if a[2][i] else '')
        return 'enum %s<%s | %s>' % (short(a[0]), show(t, d), '; '.join(
            vs[i]['name'] + ':' + ','.join(show(x, d) for x in p) for i, p in enumerate(a[2]) if p))
    if o == 'E':
        return '%s(%s)' % (enum_variants(a[0])[a[1]]['name'], ', '.join(show(x, d) for x in a[2:]))
    if o == 'S':
        return '%s{%s}' % (short(a[0]), ', '.join(show(x, d) for x in a[1:]))
    if o == 'lam':
        return 'λ%d:%d.(%s)' % (a[0], a[1], ' ; '.join(show(x, d) for x in a[2:]))
    if o == 'call':
        return '%s(%s)' % (short(a[0]), ', '.join(show(x, d) for x in a[1:]))
    if o == 'a:sgn':
        return 'sgn' + show(a[0], d)
    if o == 'a:near':
        return '|%s|%s%g' % (show(a[0], d), '<' if a[2] else '<=', float(a[1]))
    if o == 'a:ile':
        return '%s<=%d' % (show(a[0], d), a[1])
    if o == 'a:tag':
        return 'tag(%s)' % show(a[0], d)
    if o == 'a:b':
        return show(a[0], d)
    return '%s(%s)' % (o, ', '.join(sh(x, d) for x in a))


def sh(x, d):
    if isinstance(x, N):
        return show(x, d)
    if isinstance(x, tuple):
        return '(' + ','.join(sh(y, d) for y in x) + ')'
    return str(x)


def short(name):
    return name.split('::')[-1] if '<' not in name else name


def r_S(name, *xs):
    return lift(lambda *ls: leaf_rec(name, ls), *[to_leaf(x) for x in xs])


REBUILD['S'] = r_S
