"""Collections, quantifiers and keyed stores as normalised comprehensions."""
from terms import *
import terms

# A collection is mk('coll', kind, part...) with part = lam(gens.., cond, elem); kind 'seq' | 'set'.
# A generator is mk('src', kind, X) (elements of X), or mk('range', lo, hi).


def src_of(kind, v):
    return lift(lambda t: mk('src', kind, t), to_leaf(v))


def mkpart(syms, gens, cond, elem):
    if syms and cond.op == 'case':
        cond = drop_member(list(zip(syms, gens)), cond)
    if elem.op == 'rec' and len(elem.a) > 1:
        e = eta_rec(elem)
        if e is not None:
            elem = e
    return lam(syms, list(gens) + [cond, elem])


OPENED = None       # while aborts are followed: the generators each symbol was opened with


def part_open(p, syms=None):
    n = p.a[1]
    syms, b = open_lam(p, syms)
    if OPENED is not None:
        for s in syms:
            OPENED[s] = (syms, b[:n], b[n])
    return syms, b[:n], b[n], b[n + 1]


def eta_part(kind, t):
    s = sym('b')
    return mkpart([s], [mk('src', kind, t)], TRUE, s)


def is_eta(p, kind=None):
    if p.a[1] != 1:
        return None
    g, c, e = p.a[2:]
    if c is TRUE and e.op == 'bv' and e.a == (p.a[0], 0) and g.op == 'src' and (kind is None or g.a[0] == kind):
        return g.a[1]
    return None


def mkcoll(kind, parts):
    parts = [p for p in parts if p.a[2 + p.a[1]] is not FALSE]
    if kind == 'set':
        parts = merge_same(parts)
        parts = sorted(set(parts), key=lambda p: p.id)
    else:
        parts = by_position(parts)
    if len(parts) == 1:
        x = is_eta(parts[0], kind)
        if x is not None:
            return x
    return mk('coll', kind, *parts)


def by_position(parts):
    """runs of single optional elements: the k-th element of the run, present when there are more than k"""
    out, run = [], []

    def flush():
        if len(run) > 1 and any(p.a[2] is not TRUE for p in run[:-1]) and len(run) <= 12 \
                and not any(has_ptr_node(p.a[3]) for p in run):
            i = 0
            while run[i].a[2] is TRUE:
                out.append(run[i])
                i += 1
            slots = []
            for p in run[i:]:
                c, e = p.a[2], to_leaf(p.a[3])
                before = TRUE
                for k in range(len(slots) + 1):
                    have, old = slots[k] if k < len(slots) else (FALSE, BOT)
                    here = AND(c, before, NOT(have))
                    before = have
                    if here is FALSE:
                        continue
                    new = restrict(e, here) if old is BOT else merge2(here, e, have, old)
                    if k < len(slots):
                        slots[k] = (OR(have, here), new)
                    else:
                        slots.append((here, new))
            out.extend(mkpart([], [], c, e) for c, e in slots)
        else:
            out.extend(run)
        del run[:]
    for p in parts:
        if p.a[1] == 0:
            run.append(p)
        else:
            flush()
            out.append(p)
    flush()
    return out


def key_of(p):
    b = open_key(p)
    n = p.a[1]
    return (n,) + tuple(b[:n]) + (b[n + 1],)


def merge_same(parts):
    """in a set, parts that differ only in their guard are one part"""
    seen = {}
    out = []
    for p in parts:
        k = key_of(p)
        if k in seen:
            i = seen[k]
            q = out[i]
            if q is not p:
                syms, g, c, e = part_open(q)
                _, g2, c2, e2 = part_open(p, syms)
                out[i] = mkpart(syms, g, OR(c, c2), e)
        else:
            seen[k] = len(out)
            out.append(p)
    return out


def empty(kind):
    return mk('coll', kind)


def parts_of(t, kind):
    """parts of a leaf collection"""
    if t.op == 'coll':
        return list(t.a[1:])
    return [eta_part(kind, t)]


def leaf_kind(t):
    return t.a[0] if t.op == 'coll' else None


def as_leaf(v, kind):
    """collection value -> single leaf (cases become guards)"""
    if v is BOT or v.op != 'case':
        return v

    def conv(x):
        if x is BOT or x.op == 'coll':
            return x
        if x.op == 'case':
            return build_case(x.a[0], [conv(k) for k in x.a[1:]])
        # keep as a collection even when it is eta-contractible
        return mk('coll', kind, eta_part(kind, x))
    r = conv(v)
    if r.op == 'coll':
        return mkcoll(r.a[0], r.a[1:])
    return r


def guard_part(p, f):
    syms, g, c, e = part_open(p)
    return mkpart(syms, g, f(c), e)


def coll_merge(atom, kids):
    kind = None
    for k in kids:
        if k.op == 'coll':
            kind = k.a[0]
    kk = []
    for k in kids:
        if k is BOT:
            kk.append(None)
        else:
            k = as_leaf(k, kind)
            if k.op == 'case':
                return mk('case', atom, *kids)
            kk.append(parts_of(k, kind))
    # align the parts of the kids
    order = []
    rows = {}
    lists = [x for x in kk if x is not None]
    keyed = [[(key_of(p), p) for p in (x or [])] for x in kk]
    # occurrence-number the keys so that repeated pushes stay distinct
    for i, row in enumerate(keyed):
        cnt = {}
        out = []
        for k, p in row:
            n = cnt.get(k, 0)
            cnt[k] = n + 1
            out.append(((k, n), p))
        keyed[i] = out
    merged = []
    for i, row in enumerate(keyed):
        if kk[i] is None:
            continue
        merged = merge_order(merged, [k for k, _ in row])
    for k in merged:
        n = k[0][0]
        syms = [sym('b') for _ in range(n)]
        conds = []
        body = None
        for i, row in enumerate(keyed):
            if kk[i] is None:
                conds.append(BOT)
                continue
            hit = [p for q, p in row if q == k]
            if hit:
                _, g, c, e = part_open(hit[0], syms)
                conds.append(c)
                body = (g, e)
            else:
                conds.append(FALSE)
        g, e = body
        c = build_case(atom, conds)
        if kind == 'set' and n == 0 and atom.op == 'a:b' and atom.a[0].op == 'member' \
                and atom.a[0].a[2] is to_leaf(e) and len(conds) == 2 and any(
                    is_eta(p) is atom.a[0].a[1] for row in lists for p in row):
            # inserting an element only when it is absent is inserting it
            if conds[0] is not BOT:
                c = conds[0]
        rows[k] = mkpart(syms, g, c, e)
    return mkcoll(kind, [rows[k] for k in merged])


def merge_order(a, b):
    """common supersequence of two key lists"""
    if not a:
        return list(b)
    if a == b:
        return a
    n, m = len(a), len(b)
    L = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            L[i][j] = L[i + 1][j + 1] + 1 if a[i] == b[j] else max(L[i + 1][j], L[i][j + 1])
    out = []
    i = j = 0
    while i < n and j < m:
        if a[i] == b[j]:
            out.append(a[i])
            i += 1
            j += 1
        elif L[i + 1][j] >= L[i][j + 1]:
            if a[i] not in b[j:]:
                out.append(a[i])
            i += 1
        else:
            if b[j] not in out and b[j] not in a[i:]:
                out.append(b[j])
            j += 1
    for x in a[i:]:
        if x not in out:
            out.append(x)
    for x in b[j:]:
        if x not in out:
            out.append(x)
    return out


terms.COLL_MERGE = coll_merge


# ---------------------------------------------------------------- comprehension building
def expand_gens(gens, cond, elems, unblk=False):
    """gens: [(sym, source value)]; flattens collection sources.
    yields (gens, cond, elems) with raw sources only"""
    for i, (s, g) in enumerate(gens):
        if g is BOT:
            return
        if unblk and g.op == 'src' and g.a[1].op == 'blk':
            g = mk('src', g.a[0], g.a[1].a[0])
        if g.op == 'case':
            # a conditional source: guard its parts
            kind = None

            def leafkind(x):
                return x.a[0] if x.op == 'src' else None
            ks = set()
            vmap(lambda t: (ks.add(leafkind(t)), t)[1], g)
            kind = next((k for k in ks if k), 'seq')
            inner = vmap(lambda t: t.a[1] if t.op == 'src' else mk('coll', kind, _range_part(t)), g)
            inner = as_leaf(inner, kind)
            g = mk('src', kind, inner)
        if g.op == 'src' and g.a[1].op == 'coll':
            for p in parts_of(g.a[1], g.a[0]):
                ss, gg, c, e = part_open(p)
                m = {s: e}
                rest = [(s2, subst(g2, m)) for s2, g2 in gens[i + 1:]]
                for r in expand_gens(gens[:i] + list(zip(ss, gg)) + rest,
                                     AND(c, subst(cond, m)), [subst(x, m) for x in elems], unblk):
                    yield r
            return
    yield gens, cond, elems


def _range_part(t):
    s = sym('b')
    return mkpart([s], [t], TRUE, s)


def used(s, vals):
    return any(s in v.fv for v in vals)


def comp(kind, gens, cond, elem):
    """collection comprehension value"""
    parts = []
    for g, c, (e,) in expand_gens(gens, cond, [elem]):
        parts.extend(mk_parts(g, c, e, kind))
    return mkcoll(kind, parts)


def mk_parts(gens, c, e, kind):
    if c is FALSE:
        return []
    if kind == 'set' and any(g.op == 'src' and g.a[1].op == 'blk' for _, g in gens):
        out = []
        for g2, c2, (e2,) in expand_gens(gens, c, [e], True):
            out.extend(mk_parts(g2, c2, e2, kind))
        return out
    gens, c, (e,) = norm_gens(gens, c, [e])
    if kind == 'seq' and gens:
        # a block's guard and element are those of its parts
        s, g = gens[-1]
        if g.op == 'src' and g.a[1].op == 'blk' and g.a[1].a[0].op == 'coll' and not (c is TRUE and e is s) \
                and not has_ptr_node(e):
            m2 = []
            for p in parts_of(g.a[1].a[0], 'seq'):
                ss, gg, c1, e1 = part_open(p)
                m2.extend(mk_parts(list(zip(ss, gg)), AND(c1, subst(c, {s: e1})), subst(e, {s: e1}), 'seq'))
            inner = mkcoll('seq', m2)
            if inner.op == 'coll':
                s2 = sym('b')
                gens, c, e = gens[:-1] + [(s2, mk('src', 'seq', mk('blk', inner)))], TRUE, s2
    if kind == 'set':
        # unused generators only assert that their source is not empty
        i = len(gens) - 1
        while i >= 0:
            s, g = gens[i]
            if not used(s, [x for _, x in gens[i + 1:]] + [e]):
                c = exists([(s, g)], c) if s in c.fv else AND(nonempty_src(g), c)
                gens = gens[:i] + gens[i + 1:]
            i -= 1
    if kind == 'set':
        l = to_leaf(e) if not has_ptr_node(e) else e
        if l.op == 'case':
            # one part per possible element
            ls = leaves_of(l)
            if 1 < len(ls) <= 8:
                out = []
                for x in ls:
                    w = AND(c, vmap(lambda t: TRUE if t is x else FALSE, l))
                    out.extend(mk_parts(gens, nobot(w), x, kind))
                return out
    return [mkpart([s for s, _ in gens], [g for _, g in gens], c, e)]


def leaves_of(v):
    out = []

    def f(t):
        if t not in out:
            out.append(t)
        return t
    vmap(f, v)
    return out


def has_ptr_node(v):
    import interp
    return interp.has_ptr(v)


def drop_member(gens, c):
    """an element equal to y shows that y is a member: such a guard needs no member test"""
    if c.op != 'case':
        return c
    for s, g in gens:
        # a collection with an element is not empty
        if g.op == 'src' and g.a[1].op not in ('coll', 'case'):
            at = NOT(ile(num(mk('len', g.a[1])), 0))
            if at.op == 'case' and at.a[0] in atoms_of(c):
                v = cof_any(c, at.a[0], 0 if at.a[1] is TRUE else 1)
                if not has_bot(v):
                    c = v
                    if c.op != 'case':
                        return c
    for at in atoms_of(c):
        if at.op == 'a:b' and at.a[0].op == 'ex' and at.a[0].a[0].a[1] == 1:
            c = self_witness(gens, c, at)
            continue
        if at.op != 'a:b' or at.a[0].op != 'member':
            continue
        tk, X, y = at.a[0].a
        for s, g in gens:
            if g.op == 'src' and g.a[1] is X and s in c.fv:
                impossible = AND(eq_by(tk, s, y), NOT(atomv(at)))
                if impossible is FALSE:
                    continue
                c1, c0 = cof_any(c, at, 1), cof_any(c, at, 0)
                if has_bot(c1) or has_bot(c0):
                    continue
                if AND(ite(c1, NOT(c0), c0), NOT(cof_any(impossible, at, 0))) is FALSE:
                    c = c1
                    break
    return c


def self_witness(gens, c, at):
    """an element of a set equal to this element of it is this element"""
    syms, (g, cond) = open_lam(at.a[0].a[0])
    b = syms[0]
    if g.op != 'src':
        return c
    for s, g2 in gens:
        if g2.op == 'src' and g2.a[1] is g.a[1] and 'set' in (g.a[0], g2.a[0]) and s in at.fv:
            for e in atoms_of(cond):
                if e.op == 'a:b' and e.a[0].op == 'eq' and set(e.a[0].a[1:]) == {b, s} and cof_any(cond, e, 0) is FALSE:
                    v = subst(cond, {b: s})
                    if has_bot(v):
                        return c
                    return select(v, [cof_any(c, at, 0), cof_any(c, at, 1)])
    return c


def norm_gens(gens, cond, elems):
    """index loops over a whole sequence become element loops"""
    for i, (s, g) in enumerate(gens):
        if g.op == 'src' and g.a[0] == 'seq' and g.a[1].op == 'tail':
            X = g.a[1].a[0]
            j = sym('b')
            m = {s: nth_leaf(X, j)}
            rest = [(s2, subst(g2, m)) for s2, g2 in gens[i + 1:]]
            gens = gens[:i] + [(j, mkrange(ONE, mk('len', X)))] + rest
            return norm_gens(gens, subst(cond, m), [subst(x, m) for x in elems])
        if g.op == 'range' and const_of(num(g.a[0])) != 0:
            j, g2, m = zero_based(s, g)
            rest = [(s2, subst(x, m)) for s2, x in gens[i + 1:]]
            return norm_gens(gens[:i] + [(j, g2)] + rest, subst(cond, m), [subst(x, m) for x in elems])
        if g.op == 'range':
            lo, hi = g.a
            vs = [x for _, x in gens[i + 1:]] + [cond] + elems
            nv = [wrapped(s, hi, v) for v in vs]
            if any(a is not b for a, b in zip(vs, nv)):
                k = len(gens) - i - 1
                gens = gens[:i + 1] + [(s2, v) for (s2, _), v in zip(gens[i + 1:], nv)]
                cond, elems = nv[k], nv[k + 1:]
            # facts lo <= s < hi
            vals = [cond] + elems
            if s in cond.fv:
                f = AND(NOT(ile_v(num_add(num(s), num(lo), -1), -1)), ile_v(num_add(num(s), num(hi), -1), -1))
                c2 = restrict(cond, f) if f.op == 'case' else cond
                if not has_bot(c2):
                    cond = c2
            if const_of(num(lo)) == 0:
                r = raw_of_num(num(hi))
                if r is not None and r.op == 'len':
                    X = r.a[0]
                    kind = 'seq'
                    rest = gens[i + 1:]
                    allv = [x for _, x in rest] + [cond] + elems
                    nth = mk('nth', X, s)
                    x = sym('b')
                    nv = [repl_node(v, nth, x) for v in allv]
                    if not any(s in v.fv for v in nv):
                        k = len(rest)
                        gens = gens[:i] + [(x, mk('src', kind, X))] + [(s2, v) for (s2, _), v in zip(rest, nv)]
                        cond = nv[k]
                        elems = nv[k + 1:]
                        return norm_gens(gens, cond, elems)
    return gens, cond, elems


def zero_based(s, g):
    """a range counted from zero: (new index, range, what the old index stands for)"""
    lo, hi = num(g.a[0]), num(g.a[1])
    j = sym('b')
    return j, mkrange(ZERO, num_add(hi, lo, -1)), {s: vadd(num(j), lo)}


def wrapped(s, hi, v):
    """for 0 <= s < hi, (s + 1) % hi is s + 1, or 0 for the last one"""
    if s not in v.fv:
        return v
    up = vadd(num(s), ONE)
    old = mk('irem', up, num(hi))
    if up.op == 'case' or repl_node(v, old, s) is v:
        return v
    return repl_node(v, old, ite(ile(num_add(up, num(hi), -1), -1), up, ZERO))


def ile_v(p, k):
    return ile(p, k)


def repl_node(v, old, new):
    """replace every occurrence of a term"""
    if not (old.fv <= v.fv):
        return v
    s = next(iter(old.fv))
    memo = {}

    def go(v):
        if v is old:
            return new
        if not (old.fv <= v.fv):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        op = v.op
        if op in ('sym', 'bv'):
            r = v
        elif op == 'case':
            at = go_atom(v.a[0])
            r = select(at, [go(k) for k in v.a[1:]])
        elif op == 'rec':
            r = mk('rec', v.a[0], *[go(x) for x in v.a[1:]])
        elif op == 'enum':
            r = mk('enum', v.a[0], go(v.a[1]), tuple(tuple(go(x) for x in p) for p in v.a[2]))
        elif op == 'lam':
            syms, bodies = open_lam(v)
            r = lam(syms, [go(b) for b in bodies])
        elif op == 'poly':
            r = ZERO
            for mono, c in v.a[0]:
                t = const(c)
                for g, e in mono:
                    gv = go(g)
                    for _ in range(e):
                        t = vmul(t, gv)
                r = vadd(r, t)
        else:
            args = [go(x) if isinstance(x, N) else tuple(go(y) if isinstance(y, N) else y for y in x)
                    if isinstance(x, tuple) else x for x in v.a]
            r = rebuild(op, args)
        memo[v] = r
        return r

    def go_atom(at):
        if not (old.fv <= at.fv):
            return atomv(at)
        args = [go(x) if isinstance(x, N) else x for x in at.a]
        return rebuild_atom(at.op, args)
    return go(v)


def forced(pc):
    """the atoms whose outcome pc determines"""
    out = {}
    if pc.op != 'case':
        return out
    for at in atoms_of(pc):
        live = [i for i in range(arity(at)) if cof_any(pc, at, i) is not FALSE and cof_any(pc, at, i) is not BOT]
        if len(live) == 1:
            out[at] = live[0]
    return out


def under(v, pc):
    """what v is where pc holds, with the tests that pc decides left out"""
    if v.op != 'case' or pc is TRUE:
        return v
    memo = {}

    def go(x):
        if x.op != 'case':
            return x
        r = memo.get(x)
        if r is None:
            ks = [go(k) for k in x.a[1:]]
            live = {k for k in ks if k is not BOT}
            r = memo[x] = live.pop() if len(live) == 1 else BOT if not live else build_case(x.a[0], ks)
        return r
    r = go(on_care(v, pc))
    return v if r is BOT or has_bot(r) else r


def settle(v):
    """v with the tests inside each of its outcomes left out that are decided where v has that
    outcome"""
    if v.op in ('rec', 'enum'):
        return comp_map(v, settle)
    if v.op != 'case':
        return v
    tests = frozenset(atoms_of(v))
    least = min(len(t.fv) for t in tests)
    leaves = leaves_of(v)
    new = {}
    for l in leaves:
        if len(l.fv) >= least and not tests.isdisjoint(inner_atoms(l)):
            here = vmap(lambda x: TRUE if x is l else FALSE, v)
            r = force(l, forced(here), here)
            if r is not l:
                new[l] = r
    return vmap(lambda x: new.get(x, x), v) if new else v


def inner_atoms(v):
    """the tests anywhere inside v"""
    r = _INNER.get(v)
    if r is not None:
        return r
    out = _NOTHING
    for z in terms._iter(v.a):
        t = inner_atoms(z)
        if not t <= out:
            out = t if out <= t else out | t
    if v.op == 'case' and v.a[0] not in out:
        out = out | {v.a[0]}
    r = _INNER[v] = _SETS.setdefault(out, out)
    return r


_INNER = {}
_NOTHING = frozenset()
_SETS = {}


def force(v, known, care=None):
    """v with the outcome of some atoms given, everywhere inside; care: what holds besides"""
    if care is not None and care.op == 'case':
        fvs = [at.fv for at in atoms_of(care)]
        tests = frozenset(atoms_of(care))
    else:
        fvs = [at.fv for at in known]
        tests = None
    if not fvs:
        return v
    memo = {}
    least = frozenset(known) | (tests or _NOTHING)

    def go(v):
        if not any(f <= v.fv for f in fvs):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        if least.isdisjoint(inner_atoms(v)):
            return v
        op = v.op
        if op in ('sym', 'bv'):
            r = v
        elif op == 'case':
            i = known.get(v.a[0])
            if i is not None:
                r = go(v.a[1 + i])
            else:
                u = v
                if tests and not tests.isdisjoint(atoms_of(v)):
                    u = under(v, care)
                if u is not v:
                    r = go(u)
                else:
                    r = select(go_atom(v.a[0]), [go(k) for k in v.a[1:]])
        elif op == 'rec':
            r = mk('rec', v.a[0], *[go(x) for x in v.a[1:]])
        elif op == 'enum':
            r = mk('enum', v.a[0], go(v.a[1]), tuple(tuple(go(x) for x in p) for p in v.a[2]))
        elif op == 'lam':
            syms, bodies = open_lam(v)
            r = lam(syms, [go(b) for b in bodies])
        elif op == 'poly':
            r = ZERO
            for mono, c in v.a[0]:
                t = const(c)
                for g, e in mono:
                    gv = go(g)
                    for _ in range(e):
                        t = vmul(t, gv)
                r = vadd(r, t)
        else:
            args = [go(x) if isinstance(x, N) else tuple(go(y) if isinstance(y, N) else y for y in x)
                    if isinstance(x, tuple) else x for x in v.a]
            r = rebuild(op, args)
        memo[v] = r
        return r

    def go_atom(at):
        if not any(f <= at.fv for f in fvs):
            return atomv(at)
        i = known.get(at)
        if i is not None:
            return K(i)
        args = [go(x) if isinstance(x, N) else x for x in at.a]
        return rebuild_atom(at.op, args)
    return go(v)


def rebuild_atom(op, a):
    if op == 'a:sgn':
        return lift(sgn, tonumv(a[0]))
    if op == 'a:near':
        return lift(lambda p: near_raw(p, a[1], a[2]), tonumv(a[0]))
    if op == 'a:ile':
        return lift(lambda p: ile(p, a[1]), tonumv(a[0]))
    if op == 'a:tag':
        return tagv(a[0], a[1])
    return asbool(a[0])


def rebuild(op, a):
    if op in REBUILD:
        return REBUILD[op](*a)
    if op == 'fn':
        return lift(lambda p: num_inv(p) if a[0] == 'inv' else num_fn(a[0], p), tonumv(a[1]))
    return generic(op, a)


# ---------------------------------------------------------------- quantifiers
def nonempty_src(g):
    if g.op == 'range':
        return ile(num_add(num(g.a[0]), num(g.a[1]), -1), -1)
    if g.op == 'case':
        return vmap(nonempty_src, g)
    return nonempty_leaf(g.a[0], g.a[1])


def nonempty_leaf(kind, t):
    if t.op == 'coll':
        r = FALSE
        for p in t.a[1:]:
            ss, gg, c, e = part_open(p)
            r = OR(r, exists(list(zip(ss, gg)), c))
        return r
    if t.op == 'mempty':
        return FALSE
    if t.op == 'mput':
        syms, b = open_lam(t.a[1])
        n = len(syms)
        return OR(nonempty_leaf(kind, t.a[0]), exists(list(zip(syms, b[:n])), b[n]))
    return NOT(ile(num(mk('len', t)), 0))


def nonempty(kind, v):
    if is_comp(v):
        v = to_leaf(v)
    v = as_leaf(v, kind) if kind != 'map' else v
    return vmap(lambda t: nonempty_leaf(kind, t), v)


def cof_any(v, atom, i, memo=None):
    if v.op != 'case' or v.a[0].rank > atom.rank:
        return v
    if v.a[0] is atom:
        return v.a[1 + i]
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        r = memo[v] = build_case(v.a[0], [cof_any(k, atom, i, memo) for k in v.a[1:]])
    return r


def atoms_of(v, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if v.op == 'case' and v not in seen:
        seen.add(v)
        if v.a[0] not in acc:
            acc.append(v.a[0])
        for k in v.a[1:]:
            atoms_of(k, acc, seen)
    return acc


def exists(gens, cond):
    r = FALSE
    for g, c, _ in expand_gens(gens, cond, [], True):
        r = OR(r, exatom(g, c))
    return r


def forall(gens, cond):
    return NOT(exists(gens, NOT(cond)))


def exatom(gens, cond):
    if cond is FALSE or cond is BOT:
        return FALSE
    if not gens:
        return nobot(cond)
    cond = nobot(cond)
    syms = [s for s, _ in gens]
    ss = frozenset(syms)
    for s, g in gens:
        # a number below the bound shows that the bound is above zero
        if g.op == 'range' and g.fv.isdisjoint(ss) and cond.op == 'case':
            some = nonempty_src(g)
            if some.op == 'case' and some.a[0] in atoms_of(cond):
                cond = nobot(restrict(cond, some))
    for at in atoms_of(cond):
        if at.fv.isdisjoint(ss):
            return select(atomv(at), [exatom(gens, cof_any(cond, at, i)) for i in range(arity(at))])
    given = cond
    gens, cond, _ = norm_gens(gens, cond, [])
    if cond is not given:
        ss = frozenset(s for s, _ in gens)
        if cond is FALSE or any(at.fv.isdisjoint(ss) for at in atoms_of(cond)):
            return exatom(gens, cond)
    syms = [s for s, _ in gens]
    for i in range(len(gens) - 1, -1, -1):
        s, g = gens[i]
        if not used(s, [x for _, x in gens[i + 1:]] + [cond]):
            rest = gens[:i] + gens[i + 1:]
            c2 = AND(nonempty_src(g), cond)
            return exatom(rest, c2)
    if len(gens) == 1:
        s, g = gens[0]
        if cond.op == 'case' and len(cond.a) == 3 and cond.a[1] is FALSE and cond.a[2] is TRUE and cond.a[0].op == 'a:b':
            t = cond.a[0].a[0]
            if t.op == 'eq' and g.op == 'src' and g.a[0] in ('seq', 'set'):
                x, y = t.a[1], t.a[2]
                if x is s and s not in y.fv:
                    return member(t.a[0], g.a[1], y)
                if y is s and s not in x.fv:
                    return member(t.a[0], g.a[1], x)
    ordered = norm_gen_order(gens)
    l = lam([s for s, _ in ordered], [g for _, g in ordered] + [cond])
    return atomv(mk('a:b', mk('ex', l)))


def norm_gen_order(gens):
    """independent generators of a quantifier commute: order them by source"""
    if len(gens) < 2:
        return gens
    ss = [s for s, _ in gens]
    if any(used(s, [g for _, g in gens]) for s in ss):
        return gens
    return sorted(gens, key=lambda sg: sg[1].id)


def nobot(c):
    """a condition: undefined means false"""
    if not has_bot_deep(c):
        return c

    def go(v):
        if v is BOT:
            return FALSE
        if v.op == 'case':
            return build_case(v.a[0], [go(k) for k in v.a[1:]])
        return v
    return go(c)


def has_bot_deep(v):
    return has_bot(v)


def r_ex(l):
    n = l.a[1]
    syms, b = open_lam(l)
    return boolterm(exists(list(zip(syms, b[:n])), b[n]))


def boolterm(v):
    return v


# 'ex' sits under an a:b atom; rebuilding yields a boolean value, which asbool passes through
REBUILD['ex'] = r_ex

EQ = {}
STRUCT_EQ = {}     # type key -> ((field, type key), ...): equality is field by field


def eq_fields(tk, a, b):
    """expand the comparison with a freshly built value into its fields"""
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == 'S' or y.op == 'S':
            r = TRUE
            for n, k in STRUCT_EQ[tk]:
                r = AND(r, eq_by(k, proj(x, n), proj(y, n)))
            return r
        return eq_opaque(tk, x, y)
    return lift(f, to_leaf(a), to_leaf(b))


def eq_by(tk, a, b):
    f = EQ.get(tk)
    if f is not None:
        return f(a, b)
    if tk in STRUCT_EQ:
        return eq_fields(tk, a, b)
    return eq_opaque(tk, a, b)


def eq_opaque(tk, a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if y.id < x.id:
            x, y = y, x
        return atomv(mk('a:b', mk('eq', tk, x, y)))
    return lift(f, to_leaf(a), to_leaf(b))


REBUILD['eq'] = lambda tk, a, b: eq_by(tk, a, b)


def member(tk, X, x):
    """X a leaf, x a leaf"""
    def f(X, x):
        if X.op == 'coll':
            return contains(tk, X.a[0], X, x)
        return atomv(mk('a:b', mk('member', tk, X, x)))
    return lift(f, X, to_leaf(x))


REBUILD['member'] = lambda tk, X, x: member(tk, X, x)


def contains(tk, kind, v, x):
    v = as_leaf(v, kind)

    def f(t, x):
        if t.op != 'coll':
            return atomv(mk('a:b', mk('member', tk, t, x)))
        r = FALSE
        for p in t.a[1:]:
            ss, gg, c, e = part_open(p)
            if len(ss) == 1 and e is ss[0] and gg[0].op == 'src' and gg[0].a[0] in ('seq', 'set'):
                r = OR(r, AND(member(tk, gg[0].a[1], x), subst(c, {ss[0]: x})))
            else:
                r = OR(r, exists(list(zip(ss, gg)), AND(c, eq_by(tk, e, x))))
        return r
    return lift(f, v, to_leaf(x))


def add_elem(kind, v, elem, cond=TRUE, front=False):
    v = as_leaf(v, kind)
    e = to_leaf(elem) if False else elem

    def f(t):
        ps = parts_of(t, kind)
        p = mk_parts([], cond, e, kind) if kind == 'set' else [mkpart([], [], cond, e)]
        return mkcoll(kind, p + ps if front else ps + p)
    return vmap(f, v)


def union(kind, v, w, wkind=None):
    v = as_leaf(v, kind)
    w = as_leaf(w, wkind or kind)

    def f(a, b):
        return mkcoll(kind, parts_of(a, kind) + parts_of(b, wkind or kind))
    return lift(f, v, w)


def convert(kind, v, vkind):
    v = as_leaf(v, vkind)

    def f(t):
        if t.op != 'coll':
            return mkcoll(kind, [eta_part(vkind, t)])
        if t.a[0] == kind:
            return t
        out = []
        for p in t.a[1:]:
            ss, gg, c, e = part_open(p)
            out.extend(mk_parts(list(zip(ss, gg)), c, e, kind))
        return mkcoll(kind, out)
    return vmap(f, v)


def map_parts(v, kind, f, newkind=None):
    """f(gens, cond, elem) -> list of (gens, cond, elem)"""
    v = as_leaf(v, kind)
    nk = newkind or kind

    def g(t):
        parts = []
        for p in parts_of(t, kind):
            ss, gg, c, e = part_open(p)
            for (g2, c2, e2) in f(list(zip(ss, gg)), c, e):
                for g3, c3, (e3,) in expand_gens(g2, c2, [e2]):
                    parts.extend(mk_parts(g3, c3, e3, nk))
        return mkcoll(nk, parts)
    return vmap(g, v)


def cfilter(v, kind, f):
    return map_parts(v, kind, lambda g, c, e: [(g, AND(c, f(e)), e)])


def cmap(v, kind, f):
    return map_parts(v, kind, lambda g, c, e: [(g, c, f(e))])


def remove_elem(tk, kind, v, x):
    return cfilter(v, kind, lambda e: NOT(eq_by(tk, e, x)))


def any_elem(v, kind, f):
    """exists an element with f"""
    v = as_leaf(v, kind)

    def g(t):
        r = FALSE
        for p in parts_of(t, kind):
            ss, gg, c, e = part_open(p)
            r = OR(r, exists(list(zip(ss, gg)), AND(c, f(e))))
        return r
    return vmap(g, v)


def first_such(v, kind, f):
    """(found, element) of the first element satisfying f"""
    v = as_leaf(v, kind)

    def run(t):
        found, val = FALSE, BOT
        for p in reversed(parts_of(t, kind)):
            ss, gg, c, e = part_open(p)
            cc = nobot(AND(c, f(e)))
            fx = exists(list(zip(ss, gg)), cc)
            x = pick(list(zip(ss, gg)), cc, e, kind)
            val = ite(fx, x, val)
            found = OR(fx, found)
        return found, val
    return vmap(lambda t: run(t)[0], v), vmap(lambda t: run(t)[1], v)


def pick(gens, cond, elem, kind):
    if not gens:
        return elem
    r = BOT
    for g, c, (e,) in expand_gens(gens, cond, [elem]):
        if not g:
            return e
        g, c, (e,) = norm_gens(g, c, [e])
        if len(g) == 1 and c is TRUE and e is g[0][0] and g[0][1].op == 'src' and g[0][1].a[0] == 'seq':
            return nth_leaf(g[0][1].a[1], ZERO)
        if len(g) == 1 and c is TRUE and g[0][0] is not e:
            x = pick(g, TRUE, g[0][0], kind)
            return subst(e, {g[0][0]: x})
        # the element is a function of the bound variables: pick the variables
        if len(g) == 1 and e is not g[0][0]:
            x = mk('pick', lam([g[0][0]], [g[0][1], c, g[0][0]]))
            return subst(e, {g[0][0]: x})
        return mk('pick', lam([s for s, _ in g], [x for _, x in g] + [c, to_leaf(e)]))
    return r


def r_pick(l):
    n = l.a[1]
    syms, b = open_lam(l)
    ex = list(expand_gens(list(zip(syms, b[:n])), b[n], [b[n + 1]]))
    if len(ex) == 1:
        g, c, (e,) = ex[0]
        return pick(g, nobot(c), e, 'seq')
    found, val = FALSE, BOT
    for g, c, (e,) in reversed(ex):
        fx = exists(g, c)
        val = ite(fx, pick(g, nobot(c), e, 'seq'), val)
    return val


REBUILD['pick'] = r_pick


def r_coll(kind, *parts):
    out = []
    for p in parts:
        ss, gg, c, e = part_open(p)
        for g, c2, (e2,) in expand_gens(list(zip(ss, gg)), c, [e]):
            out.extend(mk_parts(g, c2, e2, kind))
    return mkcoll(kind, out)


REBUILD['coll'] = r_coll


def r_src(kind, t):
    return lift(lambda x: mk('src', kind, x), as_leaf(to_leaf(t), kind) if kind not in ('map', 'keys') else to_leaf(t))


REBUILD['src'] = r_src


def length(kind, v):
    v = as_leaf(v, kind) if kind != 'map' else v

    def f(t):
        if t.op != 'coll':
            if t.op == 'mempty':
                return ZERO
            return num(mk('len', t))
        if not t.a[1:]:
            return ZERO
        if t.a[0] == 'set' and len(t.a) > 2:
            return num(mk('len', t))
        r = ZERO
        for p in t.a[1:]:
            ss, gg, c, e = part_open(p)
            if not ss:
                r = vadd(r, ite(c, ONE, ZERO))
            elif c is TRUE and len(ss) == 1 and gg[0].op == 'src' and (t.a[0] == 'seq' or e is ss[0]):
                if t.a[0] == 'set' and gg[0].a[0] != 'set':
                    r = vadd(r, num(mk('len', t)))
                else:
                    r = vadd(r, num(mk('len', gg[0].a[1])))
            elif t.a[0] == 'seq':
                if c is TRUE and len(ss) == 1 and gg[0].op == 'range':
                    r = vadd(r, num(mk('count', lam(ss, list(gg) + [c]))))
                else:
                    r = vadd(r, num(mk('count', lam(ss, list(gg) + [nobot(c)]))))
            else:
                r = vadd(r, num(mk('len', mkcoll('set', [p]))))
        return r
    return vmap(f, v)


def r_len(t):
    def f(x):
        if x.op == 'coll':
            return length(x.a[0], x)
        if x.op == 'mempty':
            return ZERO
        return num(mk('len', x))
    return vmap(f, to_leaf(t))


REBUILD['len'] = r_len


def r_count(l):
    n = l.a[1]
    syms, b = open_lam(l)
    r = ZERO
    for g, c, _ in expand_gens(list(zip(syms, b[:n])), b[n], []):
        if c is FALSE:
            continue
        if not g:
            r = vadd(r, ite(c, ONE, ZERO))
        elif c is TRUE and len(g) == 1 and g[0][1].op == 'src':
            r = vadd(r, num(mk('len', g[0][1].a[1])))
        elif c is TRUE and len(g) == 1 and g[0][1].op == 'range':
            d = num_add(num(g[0][1].a[1]), num(g[0][1].a[0]), -1)
            r = vadd(r, ite(ile(d, 0), ZERO, d))
        else:
            r = vadd(r, num(mk('count', lam([s for s, _ in g], [x for _, x in g] + [c]))))
    return r


REBUILD['count'] = r_count


def mkrange(lo, hi):
    return mk('range', to_leaf(lo), to_leaf(hi))


def nth_leaf(t, i):
    """element i of a leaf sequence (assumed in range)"""
    i = num(i)
    if t.op == 'tail':
        return nth_leaf(t.a[0], num_add(i, ONE))
    c = const_of(i)
    if t.op == 'coll':
        if c is not None and c >= 0:
            ps = t.a[1:]
            k = int(c)
            ok = True
            for j, p in enumerate(ps):
                if p.a[1] != 0 or p.a[2] is not TRUE:
                    if j == 0 and p.a[1] == 1 and p.a[3] is TRUE and k >= 0:
                        # a map over a whole sequence: element k of the source
                        ss, gg, cc, e = part_open(p)
                        if gg[0].op == 'src' and gg[0].a[0] == 'seq' and len(ps) == 1:
                            return subst(e, {ss[0]: nth_leaf(gg[0].a[1], i)})
                    ok = False
                    break
                if j == k:
                    return p.a[3]
            if ok:
                return BOT
        elif len(t.a) == 2 and t.a[1].a[1] == 1:
            ss, gg, cc, e = part_open(t.a[1])
            if cc is TRUE and gg[0].op == 'src' and gg[0].a[0] == 'seq':
                return subst(e, {ss[0]: nth_leaf(gg[0].a[1], i)})
            if cc is TRUE and gg[0].op == 'range':
                return subst(e, {ss[0]: num_add(num(gg[0].a[0]), i)})
    if t.op != 'coll':
        d = num_add(i, num(mk('len', t)), -1)
        if const_of(d) == -1:
            return mk('last', t)
    r = raw_of_num(i)
    return mk('nth', t, r if r is not None else i)


def nth(v, i):
    v = as_leaf(v, 'seq')
    return lift(lambda t, j: nth_leaf(t, j), v, i)


REBUILD['nth'] = lambda t, i: lift(lambda a, b: nth_leaf(a, b), as_leaf(to_leaf(t), 'seq'), to_leaf(i))


def get(v, i):
    """(in range, element)"""
    n = length('seq', as_leaf(v, 'seq'))
    ok = nlift(lambda a, b: ile(num_add(a, b, -1), -1), i, n)
    ok = AND(ok, nlift(lambda a: NOT(ile(a, -1)), i)) if not nonneg_index(i) else ok
    return ok, nth(v, i)


def nonneg_index(i):
    return True          # usize


def last_leaf(t):
    if t.op == 'coll':
        ps = t.a[1:]
        if not ps:
            return BOT
        ss, gg, c, e = part_open(ps[-1])
        if not ss:
            if c is TRUE:
                return e
            return ite(c, e, last_leaf(mkcoll(t.a[0], ps[:-1])))
        if len(ss) == 1 and c is TRUE and gg[0].op == 'src' and gg[0].a[0] == 'seq':
            x = subst(e, {ss[0]: last_leaf(gg[0].a[1])})
            if len(ps) == 1:
                return x
            return ite(nonempty_src(gg[0]), x, last_leaf(mkcoll(t.a[0], ps[:-1])))
        return mk('last', t)
    return mk('last', t)


def last(v):
    return vmap(last_leaf, as_leaf(v, 'seq'))


REBUILD['last'] = lambda t: vmap(last_leaf, as_leaf(to_leaf(t), 'seq'))


def init_leaf(t):
    if t.op == 'coll':
        ps = t.a[1:]
        if not ps:
            return t
        ss, gg, c, e = part_open(ps[-1])
        if not ss:
            if c is TRUE:
                return mkcoll(t.a[0], ps[:-1])
            rest = mkcoll(t.a[0], ps[:-1])
            return as_leaf(ite(c, as_c(rest), as_c(init_leaf(rest))), 'seq')
        if len(ss) == 1 and c is TRUE and gg[0].op == 'src' and gg[0].a[0] == 'seq':
            x = mkpart(ss, [mk('src', 'seq', init_leaf(gg[0].a[1]))], c, e)
            if len(ps) == 1:
                return mkcoll(t.a[0], [x])
            rest = mkcoll(t.a[0], ps[:-1])
            return as_leaf(ite(nonempty_src(gg[0]), as_c(mkcoll(t.a[0], list(ps[:-1]) + [x])), as_c(init_leaf(rest))), 'seq')
        return mk('init', t)
    return mk('init', t)


def as_c(t):
    if t.op in ('coll', 'case'):
        return t
    return mk('coll', 'seq', eta_part('seq', t))


def init(v):
    return vmap(init_leaf, as_leaf(v, 'seq'))


REBUILD['init'] = lambda t: vmap(init_leaf, as_leaf(to_leaf(t), 'seq'))


# ---------------------------------------------------------------- keyed stores and update chains
# mput(base, lam(gens.., cond, key, val)), mdel(base, lam(gens.., cond, key))
# incl/remv(base, lam(gens.., cond, triangle)): updates of the triangulation store
def chain_link(op, base, gens, cond, args):
    if cond is FALSE:
        return base
    r = base
    for g, c, a in expand_gens(gens, cond, list(args)):
        g, c, a = norm_gens(g, c, a)
        if c is FALSE:
            continue
        l = lam([s for s, _ in g], [x for _, x in g] + [nobot(c)] + list(a))
        r = vmap(lambda t: push_link(op, t, l), r)
    return r


def push_link(op, t, l):
    """t updated by one more link; two writes of the same entry are one"""
    if op == 'mput' and t.op == 'mput' and l.a[1] == 0 and t.a[1].a[1] == 0:
        c1, k1, v1 = open_lam(t.a[1])[1]
        c2, k2, v2 = open_lam(l)[1]
        if k1 is k2:
            c = OR(c1, c2)
            v = to_leaf(merge2(c2, v2, AND(c1, NOT(c2)), v1))
            return mk(op, t.a[0], lam([], [nobot(c), k1, v]))
    if op == 'mdel' and l.a[1] == 0:
        # removing an absent entry changes nothing; a removal comes before the insertions it excludes
        c, k = open_lam(l)[1]
        over, b = [], t
        while b.op == 'mput' and b.a[1].a[1] == 0 and AND(c, b.a[1].a[2]) is FALSE:
            over.append(b.a[1])
            b = b.a[0]
        for at in atoms_of(c):
            if at.op == 'a:tag' and at.a[0].op == 'mget' and at.a[0].a[1] is b and at.a[0].a[2] is k:
                c = nobot(cof_any(c, at, 1))
                break
        if c is FALSE:
            return t
        b = b if b.op == 'mempty' else mk(op, b, lam([], [c, k]))
        for l2 in reversed(over):
            b = push_link('mput', b, l2)
        return b
    return mk(op, t, l)


def chain_of(t):
    out = []
    while t.op in CHAIN:
        out.append((t.op, t.a[1]))
        t = t.a[0]
    out.reverse()
    return t, out


def link_key(op, l):
    b = open_key(l)
    n = l.a[1]
    return (op, n) + tuple(b[:n]) + tuple(b[n + 1:])


def chain_merge(atom, kids):
    ch = []
    for k in kids:
        if k is BOT:
            ch.append(None)
        elif k.op == 'case' or is_comp(k):
            return None
        else:
            ch.append(chain_of(k))
    live = [c for c in ch if c is not None]
    if any(c[0] is not live[0][0] for c in live):
        return None
    base = live[0][0]
    keyed = []
    for c in ch:
        row = []
        cnt = {}
        if c is not None:
            for op, l in c[1]:
                k = link_key(op, l)
                n = cnt.get(k, 0)
                cnt[k] = n + 1
                row.append(((k, n), l))
        keyed.append(row)
    merged = []
    for i, row in enumerate(keyed):
        if ch[i] is not None:
            merged = merge_order(merged, [k for k, _ in row])
    r = base
    for k in merged:
        op, n = k[0][0], k[0][1]
        syms = [sym('b') for _ in range(n)]
        conds = []
        body = None
        for i, row in enumerate(keyed):
            if ch[i] is None:
                conds.append(BOT)
                continue
            hit = [l for q, l in row if q == k]
            if hit:
                _, b = open_lam(hit[0], syms)
                conds.append(b[n])
                body = b
            else:
                conds.append(FALSE)
        c = nobot(build_case(atom, conds))
        r = push_link(op, r, lam(syms, list(body[:n]) + [c] + list(body[n + 1:])))
    return r


terms.CHAIN_MERGE = chain_merge


def r_chain(op):
    def f(base, l):
        n = l.a[1]
        syms, b = open_lam(l)
        return chain_link(op, base, list(zip(syms, b[:n])), b[n], b[n + 1:])
    return f


for _op in CHAIN:
    REBUILD[_op] = r_chain(_op)


def mget(tk, m, k):
    """raw option term(s): map lookup"""
    def f(t, k):
        if t.op == 'mempty':
            return NONE()
        if t.op == 'mput' and t.a[1].a[1] == 0:
            c, kk, val = t.a[1].a[2:]
            hit = AND(c, eq_by(tk, kk, k))
            return ite(hit, SOME(val), f2(t.a[0], k))
        if t.op == 'mdel' and t.a[1].a[1] == 0:
            c, kk = t.a[1].a[2:]
            hit = AND(c, eq_by(tk, kk, k))
            return ite(hit, NONE(), f2(t.a[0], k))
        return enum_expand(mk('mget', tk, t, k), OPTION)

    def f2(t, k):
        return lift(f, t, k)
    return lift(f, m, to_leaf(k))


OPTION = 'core::option::Option'


def NONE():
    return mk('enum', OPTION, K(0), ((), (BOT,)))


def SOME(v):
    return mk('enum', OPTION, K(1), ((), (v,)))


def OPT(found, v):
    return mk('enum', OPTION, found, ((), (v,)))


REBUILD['mget'] = lambda tk, m, k: mget(tk, m, k)
