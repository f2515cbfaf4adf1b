"""Three-valued comparison of a computed value with the specified one."""
import re
import time
from terms import *
import terms
import coll

SAME, DIFF, UNKNOWN = 'same', 'differs', 'undecided'


def source_shape(g):
    """how a loop's source is generated: generators per part, literal elements aside"""
    if g.op == 'src' and g.a[1].op == 'coll':
        return tuple(sorted(p.a[1] for p in g.a[1].a[1:] if p.a[1]))
    return g.op if g.op != 'src' else (1,)


_L = {}
EMPTY = frozenset()


def loops_in(v):
    """the very loops a value refers to"""
    r = _L.get(v.id)
    if r is None:
        r = EMPTY
        for c in terms._iter(v.a):
            w = loops_in(c)
            if not (w <= r):
                r = r | w
        if v.op in ('mux', 'mus', 'muw'):
            r = r | {v.id}
        _L[v.id] = r
    return r


_T = {}
OUTSIDE = re.compile(r'::(now|new_v4|random|thread_rng)$')


def sources(v):
    """what a value takes from the clock or from chance"""
    if not v.taint:
        return EMPTY
    r = _T.get(v.id)
    if r is None:
        r = EMPTY
        for c in terms._iter(v.a):
            r = r | sources(c)
        if v.op == 'opq':
            r = r | frozenset(x for x in v.a if isinstance(x, str) and OUTSIDE.search(x))
        _T[v.id] = r
    return r


def loop_sig(v, seen=None, acc=None):
    """the loops a value still refers to (those without a closed form)"""
    if acc is None:
        acc, seen = [], set()
    if v.id in seen:
        return acc
    seen.add(v.id)
    if v.op in ('mux', 'mus', 'muw'):
        l = v.a[0]
        acc.append((v.op, l.a[1], len(v.a), str(source_shape(v.a[1])) if v.op != 'muw' else ''))
    for c in terms._iter(v.a):
        loop_sig(c, seen, acc)
    return acc


# ---------------------------------------------------------------- what a value is made from
# Loops that take another form cannot be compared step by step. What they use can: every input and field
# read, every summarised function called and what its arguments stem from.
_USES = {}
PARTIAL = ('take', 'skip', 'step', 'chunks', 'windows')


def access(v):
    """a chain of projections as (base, path)"""
    fs = []
    while v.op == 'proj':
        fs.append(v.a[1])
        v = v.a[0]
    return v, tuple(reversed(fs))


def uses(v):
    """(accesses, calls with the inputs their arguments stem from, partial traversals, loop kinds)"""
    r = _USES.get(v.id)
    if r is not None:
        return r
    acc, calls, part, kinds = set(), set(), set(), set()
    if v.op in ('proj', 'sym', 'bv'):
        b, path = access(v)
        if b.op == 'sym' and len(b.a) > 1 and b.a[1] == 'arg':
            acc.add((b.a[0],) + path)
        else:
            acc.add(('_',) + path)
            if b.op not in ('sym', 'bv'):
                for x, y in zip((acc, calls, part, kinds), uses(b)):
                    x |= y
    else:
        for c in terms._iter(v.a):
            for x, y in zip((acc, calls, part, kinds), uses(c)):
                x |= y
        if v.op in ('call', 'upd'):
            calls.add((v.a[0], None, None))
            for i, c in enumerate(x for x in v.a[1:] if isinstance(x, N)):
                for q in uses(c)[0]:
                    if q[0] != '_':
                        calls.add((v.a[0], i, q[:2]))
        if v.op in PARTIAL:
            part.add(v.op)
        if v.op == 'nth' and unordered(v.a[0]):
            part.add('what happens to be at some place')
        if v.op in ('mux', 'mus', 'muw'):
            kinds.add((len(v.a) - (v.op != 'muw'), v.op, v.id))
    r = tuple(frozenset(x) for x in (acc, calls, part, kinds))
    _USES[v.id] = r
    return r


def unordered(v):
    """a sequence in the order in which a set happens to be visited"""
    return v.op == 'coll' and v.a[0] == 'seq' and any(
        g.op == 'src' and g.a[0] != 'seq' for p in v.a[1:] for g in p.a[2:2 + p.a[1]])


FEW = 5
TINY = 1e-3
_LIMITS = {}


def limits(v):
    """fixed numbers beyond a few with which sizes, positions or rounds are compared, or at which loops end"""
    r = _LIMITS.get(v.id)
    if r is not None:
        return r
    r = EMPTY
    for c in terms._iter(v.a):
        r = r | limits(c)
    if v.op == 'a:ile' and (abs(v.a[1]) >= FEW):
        r = r | {abs(v.a[1])}
    elif v.op == 'a:near' and 0 < v.a[1] < TINY:
        r = r | {v.a[1]}
    elif v.op == 'a:sgn':
        r = r | {abs(c) for m, c in v.a[0].a[0] if m == () and abs(c) < TINY}
    elif v.op == 'range':
        n = terms.const_of(num_add(num(v.a[1]), num(v.a[0]), -1))
        if n is not None and n >= FEW:
            r = r | {int(n)}
    elif v.op in ('mux', 'mus', 'muw'):
        # a counter that starts at some number and is compared with another one
        k = 1 if v.op == 'muw' else 2
        off = 0 if v.op == 'mux' else 1
        syms, bs = open_lam(v.a[0])
        for q, i0 in enumerate(v.a[k:]):
            n = terms.const_of(i0) if i0.op == 'poly' else None
            if n is None or abs(n) < FEW:
                continue
            y = num(syms[q])
            if any(at.op == 'a:ile' and syms[q] in at.fv for b in bs for at in coll.atoms_of(b)) and \
                    all(terms.const_of(l) is not None or terms.const_of(num_add(l, y, -1)) is not None for l in leaves_of(bs[off + q]) if l.op == 'poly'):
                r = r | {int(abs(n))}
    _LIMITS[v.id] = r
    return r


def leaves_of(v):
    if v.op == 'case':
        return [l for k in v.a[1:] for l in leaves_of(k)]
    return [num(v)] if v.op == 'sym' else [v]


def lacking(a, b):
    """what b is made from and a is not, or None"""
    (aa, ac, ap, ak), (ba, bc, bp, bk) = uses(a), uses(b)
    whole = {q[:1] + q[i:] for q in aa for i in range(1, len(q))}
    for q in sorted(ba - aa, key=str):
        # read in two steps: first the part, then its field
        if any(('_',) + q[i:] in aa and q[:i] in aa for i in range(1, len(q))) or ('_',) == q:
            continue
        if q[0] != '_' and any(p[:len(q)] == q for p in aa):
            continue
        if q[0] == '_' and any(p[-len(q) + 1:] == q[1:] for p in aa if len(p) >= len(q)):
            continue
        return 'nothing is read from ' + '.'.join(map(str, q))
    for key, i, q in sorted(bc - ac, key=str):
        if i is None:
            return '%s is not called' % key.replace('nlsn_delaunay::', '')
        if q[:1] + () in {p[:1] for k, j, p in ac if k == key and j == i and p is not None and len(p) == 1}:
            continue
        return 'argument %d of %s does not stem from %s' % (i, key.replace('nlsn_delaunay::', ''), '.'.join(map(str, q)))
    la, lb = limits(a), limits(b)
    for what, few in (('a fixed number of elements or rounds', 1), ('a fixed tolerance', 0)):
        xs, ys = (sorted(n for n in l if (n >= 1) == few) for l in (la, lb))
        if xs and (not ys if few else set(xs) > set(ys)):
            return '%s makes a difference (%s)' % (what, ', '.join('%g' % n for n in xs))
    more = ap - bp
    if more:
        return 'only part of a collection is visited (%s)' % ', '.join(sorted(more))
    # how many values each loop carries, and whether it may end early
    ka, kb = sorted(k[:2] for k in ak), sorted(k[:2] for k in bk)
    if ka != kb and [k[0] for k in ka] == [k[0] for k in kb] and all((x == 'muw') == (y == 'muw') for (_, x), (_, y) in zip(ka, kb)):
        return 'a loop ends early on one side only'
    # a loop that goes on until nothing is left to do, and one that passes over what was there at first
    wa, wb = sum(k[1] == 'muw' for k in ka), sum(k[1] == 'muw' for k in kb)
    if wa < wb and len(ka) <= len(kb) and not {k for k, _, _ in ac} - {k for k, _, _ in bc}:
        return 'a loop that goes on until nothing is left is a single pass'
    return None


class Diff(object):
    def __init__(self, path, got, want):
        self.path, self.got, self.want = path, got, want

    def text(self, depth=9):
        conds = []
        for at, i in self.path:
            n = arity(at)
            s = show(at, 6)
            if n == 2:
                conds.append(s if i else 'not ' + s)
            elif at.op == 'a:sgn':
                conds.append(s + ' ' + '<=>'[i] + ' 0' if len(s) < 400 else 'sgn ' + '-0+'[i])
            else:
                conds.append('%s=%d' % (s, i))
        return {'note': getattr(self, 'note', None), 'when': conds, 'got': show(self.got, depth)[:1500], 'expected': show(self.want, depth)[:1500]}


def emptied(v, S):
    """v when the collection S is empty"""
    kinds, seen = set(), set()

    def find(t):
        if t.id in seen or not (S.fv <= t.fv):
            return
        seen.add(t.id)
        if t.op == 'src' and t.a[1] is S:
            kinds.add(t.a[0])
        for c in terms._iter(t.a):
            find(c)
    find(v)
    if len(kinds) != 1 or kinds & {'keys', 'values', 'entries'} or not S.fv:
        return v
    return coll.repl_node(v, S, coll.empty(kinds.pop()))


def force(v, known):
    for _ in range(4):
        w = coll.force(v, known)
        if w is v:
            break
        v = w
    return v


def decided(v, known):
    """v where the atoms are as known"""
    for _ in range(3):
        w = v
        for at, i in known.items():
            if v.op == 'case':
                v = coll.cof_any(v, at, i)
        if v is w:
            break
    return v


class Consulted(dict):
    """remembers what was asked for"""

    def get(self, k, other=None):
        if k in self:
            self.used.add(k)
        return dict.get(self, k, other)

    def items(self):
        return [(k, self[k]) for k in self]


def infeasible(path, cores=None):
    """decisions that contradict each other once each is read in the light of the others"""
    lits = {}
    for at, i in path:
        lits.setdefault(at, i)
    both = TRUE
    for at, i in lits.items():
        known = Consulted(lits)
        known.used = set()
        del known[at]
        v = force(atomv(at), known)
        v = NOT(v) if arity(at) == 2 and i == 0 else v if arity(at) == 2 else select(v, [K(int(j == i)) for j in range(arity(at))])
        if v is FALSE and cores is not None:
            cores.append([(at, i)] + [(k, lits[k]) for k in known.used])
        both = AND(both, v)
        if both is FALSE:
            return True
    return False


_PARTICULAR = [60.0, False]


def bases(vs):
    """the collections of unknown content that loops in the values go over"""
    out, seen = {}, set()

    def sources_of(v):
        if v.id in seen:
            return
        seen.add(v.id)
        if v.op == 'src' and v.a[0] in ('seq', 'set') and v.a[1].op != 'coll' and v.a[1].fv and all(s.op != 'bv' for s in v.a[1].fv):
            out.setdefault(v.a[1], set()).add(v.a[0])
        for c in terms._iter(v.a):
            sources_of(c)
    done = set()

    def go(v):
        if v.id in done:
            return
        done.add(v.id)
        if v.op in ('mux', 'mus', 'muw'):
            for c in v.a[1:]:
                sources_of(c)
        for c in terms._iter(v.a):
            go(c)
    for v in vs:
        go(v)
    return [(t, k.pop()) for t, k in out.items() if len(k) == 1]


def particular(a, b, live):
    """a difference that shows where some collection holds just one or two elements"""
    if _PARTICULAR[1] or _PARTICULAR[0] <= 0:
        return None
    import loops
    start = time.time()
    _PARTICULAR[1] = True
    loops.ROUNDS[0] = 1
    try:
        for t, kind in bases([a, b])[:4]:
            for n in (1, 2) if kind == 'seq' else (1,):
                if t.op == 'proj' and t.a[1] == 'vertices' and n < 3:
                    continue
                loops.UNTIL[0] = time.time() + 8
                es = [sym('one', 'given') for _ in range(n)]
                c = coll.mkcoll(kind, [coll.mkpart([], [], TRUE, e) for e in es])
                x, y, l = (coll.repl_node(v, t, c) for v in (a, b, live))
                if x is a or y is b:
                    continue
                r, d = compare(x, y, l, 20000)
                if r == DIFF and not any(loops_in(v) for v in (d.got, d.want) + tuple(at for at, _ in d.path)):
                    d.note = 'where %s holds %s' % (show(t, 6)[:200], ('one element', 'two elements')[n - 1])
                    return d
                if time.time() - start > _PARTICULAR[0]:
                    return None
    except RecursionError:
        return None
    finally:
        _PARTICULAR[1] = False
        loops.ROUNDS[0] = 0
        _PARTICULAR[0] -= time.time() - start
    return None


def compare(a, b, live=TRUE, limit=200000):
    r, d = compare_values(a, b, live, limit)
    if r == UNKNOWN and isinstance(d, tuple) and str(d[1]).startswith('loop'):
        p = particular(a, b, live)
        if p is not None:
            return DIFF, p
    return r, d


def compare_values(a, b, live, limit):
    """a: the analysed value, b: the specified one, live: where both are computed"""
    r = compatible(a, b)
    if r is not None:
        return SAME, None
    seen = set()
    best = [None, None]
    # loops both values make use of: how they are written is no difference
    common = (loops_in(a) & loops_in(b)) | loops_in(live)
    # decisions found to contradict each other
    cores = []
    budget = [limit]
    end = time.time() + (15 if _PARTICULAR[1] else 100)

    def shared(x, y, path):
        return all(loops_in(t) <= common for t in (x, y) + tuple(at for at, _ in path))

    def walk(x, y, path, taint, live, forced=0, known_loops=False):
        """first differing pair of leaves, untainted pairs preferred. Returns whether what was found out about
        the pair holds on every path to it"""
        if best[0] is not None or budget[0] <= 0:
            return False
        if x is y or x is BOT or y is BOT or live is FALSE or live is BOT:
            return True
        key = (x.id, y.id, taint, live.id)
        if key in seen:
            return True
        if path and cores:
            lits = dict(reversed(path))
            for c in cores:
                if all(lits.get(k) == j for k, j in c):
                    return False
        budget[0] -= 1
        if time.time() > end:
            budget[0] = 0
        if x.op != 'case' and y.op != 'case':
            # what the path decides may occur inside the values as well
            known = {}
            for at, i in path:
                known.setdefault(at, i)
            if forced < 4:
                x2, y2 = decided(force(x, known), known), decided(force(y, known), known)
                if x2 is not x or y2 is not y:
                    walk(x2, y2, path, taint, live, forced + 1, known_loops or shared(x, y, path))
                    return False
            if infeasible(path, cores):
                return False
            d = Diff(path, x, y)
            if sources(x) != sources(y):
                best[0] = d
                return True
            if taint or x.taint or y.taint:
                best[1] = best[1] or (d, 'imprecise value')
                return True
            lx, ly = loop_sig(x), loop_sig(y)
            if sorted(lx) == sorted(ly) or judge(x, y, path) == DIFF or known_loops or shared(x, y, path):
                d.shared = known_loops or shared(x, y, path)
                best[0] = d
            else:
                best[1] = best[1] or (d, 'loop of another form')
            return True
        m = x.a[0] if x.op == 'case' else None
        if y.op == 'case' and (m is None or y.a[0].rank < m.rank):
            m = y.a[0]
        if live.op == 'case' and live.a[0].rank < m.rank:
            m = live.a[0]
        t2 = taint or m.taint
        every = True
        for i in range(arity(m)):
            u, v, w = cof(x, m, i), cof(y, m, i), cof(live, m, i)
            if i == 1 and u is not v and m.op == 'a:ile' and m.a[1] == 0:
                S = raw_of_num(m.a[0]) if m.a[0].op == 'poly' else None
                if S is not None and S.op == 'len':
                    u, v = emptied(u, S.a[0]), emptied(v, S.a[0])
            every &= walk(u, v, path + ((m, i),), t2, w, forced, known_loops)
        if every:
            seen.add(key)
        return every
    walk(a, b, (), False, live)
    if best[0] is not None:
        d = best[0]
        # atoms that stem from loops must be the same loops on both sides
        la = sorted(set(atom_loops(a)))
        lb = sorted(set(atom_loops(b)))
        if la != lb and not getattr(d, 'shared', False) and judge(d.got, d.want, d.path) != DIFF and other_condition(a, b) != DIFF:
            return weigh(a, b, d, 'loop of another form decides')
        return DIFF, d
    if best[1] is None and budget[0] > 0:
        return SAME, None
    if best[1] is not None and best[1][1].startswith('loop'):
        return weigh(a, b, *best[1])
    return UNKNOWN, best[1] or (None, 'budget')


# ---------------------------------------------------------------- values that still refer to loops
_J = {}
INJECTIVE = frozenset(['upd', 'call', 'rec', 'S', 'E', 'lam', 'src', 'coll'])


def judge(x, y, path=(), depth=0):
    """two unequal values: DIFF when what differs is not the form of a loop"""
    if x is y or x is BOT or y is BOT:
        return SAME
    if x.taint or y.taint or depth > 6:
        return UNKNOWN
    none = path is True or bool(path) and none_of(path)
    key = (x.id, y.id, none)
    if key in _J:
        return _J[key]
    _J[key] = UNKNOWN
    r = _J[key] = _judge(x, y, none, depth)
    return r


def _judge(x, y, none, depth):
    if x.op == 'case' or y.op == 'case':
        return compare(x, y)[0]
    if sorted(loop_sig(x)) == sorted(loop_sig(y)):
        return DIFF
    if x.op == y.op == 'fin':
        r = loops_differ(x.a[1], x.a[0], y.a[1], y.a[0], none, depth)
        if r == DIFF:
            return r
    for u, v in ((x, y), (y, x)):
        # left as it was before a loop
        if v.op == 'fin':
            m, i = v.a[1], v.a[0]
            if m.a[(1 if m.op == 'muw' else 2) + i] is u and (m.op == 'muw' or not none):
                return DIFF
    if x.op == y.op and x.op in INJECTIVE and len(x.a) == len(y.a) and \
            all(p is q or (isinstance(p, N) and isinstance(q, N)) or p == q for p, q in zip(x.a, y.a)):
        pairs = [(p, q) for p, q in zip(x.a, y.a) if isinstance(p, N) and p is not q]
        if x.op not in ('coll', 'lam') or len(pairs) == 1:
            if DIFF in [judge(p, q, none, depth + 1) for p, q in pairs]:
                return DIFF
    return UNKNOWN


def none_of(path):
    """whether the path says that something is empty or that nothing is of some kind"""
    for at, i in path:
        if (at.op == 'a:ile' and i == 1) or (at.op == 'a:b' and at.a[0].op == 'ex' and i == 0) or at.op not in ('a:ile', 'a:b', 'a:tag', 'a:sgn'):
            return True
    return False


def loops_differ(m, i, n, j, none, depth):
    """carried values of two loops matched so that one thing alone differs"""
    if m.op != n.op:
        return UNKNOWN
    w = m.op == 'muw'
    k = 1 if w else 2
    A, B = m.a[k:], n.a[k:]
    if len(A) > len(B):
        return loops_differ(n, j, m, i, none, depth)
    if len(A) > 5 or len(B) > 7:
        return UNKNOWN
    sa, ba = open_lam(m.a[0])
    nb = len(B)
    extra = 0 if w else 1
    off = 0 if m.op == 'mux' else 1
    best = None
    import itertools
    others = [q for q in range(len(A)) if q != i]
    for perm in itertools.permutations([q for q in range(nb) if q != j], len(others)):
        to = dict(zip(others, perm))
        to[i] = j
        if sum(A[q] is not B[to[q]] for q in to) > 1:
            continue
        syms = [None] * (nb + extra)
        for q, t in to.items():
            syms[t] = sa[q]
        if extra:
            syms[-1] = sa[-1]
        syms = [t if t is not None else sym('b') for t in syms]
        _, bb = open_lam(n.a[0], syms)
        diffs = [(A[q], B[to[q]]) for q in to if A[q] is not B[to[q]]]
        if not w and m.a[1] is not n.a[1]:
            diffs.append((m.a[1], n.a[1]))
        if off and ba[0] is not bb[0]:
            diffs.append((ba[0], bb[0]))
        diffs += [(ba[off + q], bb[off + to[q]]) for q in to if ba[off + q] is not bb[off + to[q]]]
        if len(diffs) == 1:
            best = diffs[0]
            free = [q for q in range(nb) if q not in to.values()]
            if not all(carried(n, B, syms, q, bb, off) for q in free if syms[q] in best[1].fv):
                best = None
                continue
            break
        if not diffs:
            return UNKNOWN
    if best is None:
        return UNKNOWN
    return judge(best[0], best[1], none, depth + 1)


def reset():
    """after a comparison that was cut short"""
    import loops
    _J.clear()
    _PARTICULAR[1] = False
    loops.ROUNDS[0] = loops._DEPTH[0] = 0
    coll.OPENED = None


_PEERS = []


def peers(outs):
    """the loops that occur in what the two sides compute"""
    del _PEERS[:]
    _J.clear()
    _PARTICULAR[:] = [60.0, False]
    seen = set()

    def go(v):
        if v.id in seen:
            return
        seen.add(v.id)
        if v.op in ('mux', 'mus', 'muw'):
            _PEERS.append(v)
        for c in terms._iter(v.a):
            go(c)
    for v in outs:
        go(v)


def carried(n, B, syms, q, bb, off):
    """whether the carried value q of loop n is the state of a loop on the other side as well"""
    import itertools
    need, work = set(), [q] + [i for i in range(len(B)) if off and syms[i] in bb[0].fv]
    while work:
        q = work.pop()
        if q not in need:
            need.add(q)
            work += [i for i in range(len(B)) if syms[i] in bb[off + q].fv]
    idx = sorted(need)
    for m in _PEERS:
        k = 1 if m.op == 'muw' else 2
        A = m.a[k:]
        if m is n or m.op != n.op or len(A) != len(idx) or len(A) > 5:
            continue
        for perm in itertools.permutations(idx):
            if any(A[i] is not B[t] for i, t in enumerate(perm)):
                continue
            _, mb = open_lam(m.a[0], [syms[t] for t in perm] + ([syms[-1]] if k == 2 else []))
            if all(mb[off + i] is bb[off + t] for i, t in enumerate(perm)):
                return True
    return False


def other_condition(a, b):
    """the same decision taken on another condition"""
    at, bt = coll.atoms_of(a), coll.atoms_of(b)
    xs, ys = [t for t in at if t not in bt], [t for t in bt if t not in at]
    if len(xs) != 1 or len(ys) != 1 or xs[0].op != ys[0].op or xs[0].taint or ys[0].taint:
        return UNKNOWN
    x, y = xs[0], ys[0]

    def put(v, memo={}):
        if v.op != 'case':
            return v
        return build_case(y if v.a[0] is x else v.a[0], [put(k) for k in v.a[1:]])
    c = put(a)
    if c is not b and compare(c, b)[0] != SAME:
        return UNKNOWN
    rs = [judge(p, q) for p, q in zip(x.a, y.a) if isinstance(p, N) and p is not q]
    return DIFF if rs == [DIFF] else UNKNOWN


def weigh(a, b, d, why):
    """loops of another form still have to be made from the same things"""
    if a.taint or b.taint:
        return UNKNOWN, (d, why)
    w = lacking(a, b)
    if w is None:
        return UNKNOWN, (d, why)
    d.note = w
    return DIFF, d


def atom_loops(v, seen=None, acc=None):
    if acc is None:
        acc, seen = [], set()
    if v.id in seen:
        return acc
    seen.add(v.id)
    if v.op == 'case':
        loop_sig(v.a[0], set(), acc)
        for k in v.a[1:]:
            atom_loops(k, seen, acc)
    return acc
