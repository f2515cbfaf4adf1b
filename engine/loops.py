"""Loop summaries.

A loop is summarised from its recurrence: the values carried round the loop become symbols, the
body is analysed once (to a fixpoint of the set of carried places), and every carried value is
replaced by a closed form where the recurrence has one (last write, absorbing flag, collection,
filter, update chain, sum, first match) or otherwise by a canonical recurrence term.  Iterations
are unrolled only when the source is a literal list.
"""
import time
import zlib

from terms import *
import terms
from coll import *
import coll
from interp import (idiv, iter_of, read_path, write_path, fieldv, has_ptr, coerce, coerce_num, RANGE, RANGEI)

MAXPEEL = 12


class Phi(object):
    __slots__ = ('cell', 'path', 'sym', 'init', 'next', 'final', 'rep', 'kind')


def is_iter(v):
    return v.op == 'rec' and v.a[0] in ('iter', RANGE, RANGEI)


def iter_seq(v):
    from models import range_seq
    if v.a[0] == 'iter':
        return v.a[1]
    lo, hi = v.a[1], v.a[2]
    if v.a[0] == RANGEI:
        hi = vadd(coerce_num(hi), ONE)
    return range_seq(coerce_num(lo), coerce_num(hi))


def get_leaf(v, path):
    for i, name, n in path:
        v = expand(v, name, n).a[1 + i]
    return v


def expand(v, name, n):
    if v.op == 'rec':
        return v
    fs = REC_FIELDS.get(name) or [str(i) for i in range(n)]
    return mk('rec', name, *[BOT if v is BOT else fieldv(v, f) for f in fs])


def set_leaf(v, path, new):
    if not path:
        return new
    i, name, n = path[0]
    r = expand(v, name, n)
    a = list(r.a)
    a[1 + i] = set_leaf(a[1 + i], path[1:], new)
    return mk('rec', *a)


def diff(old, new, path, out):
    """places where new differs from old"""
    if new is old:
        return
    if is_iter(new) or is_iter(old):
        out.append((path, 'iter' if is_iter(new) and is_iter(old) else 'phi'))
        return
    if new.op == 'rec' and (old.op != 'rec' or old.a[0] == new.a[0]):
        if old.op != 'rec' and coerced_of(new, old):
            return
        n = len(new.a) - 1
        o = expand(old, new.a[0], n)
        if len(o.a) == len(new.a):
            for i in range(n):
                diff(o.a[1 + i], new.a[1 + i], path + ((i, new.a[0], n),), out)
            return
    if old.op != 'rec' and coerced_of(new, old):
        return
    if old.op == 'rec' and new.op != 'rec' and coerced_of(old, new):
        return
    out.append((path, 'phi'))


def summarise(I, key, st, runner, join, meet=None):
    st = dict(st)
    mods = I.loop_cache.setdefault(key, {})
    more, x = sym('more'), sym('x')
    syms = {}
    itv = iter_of(mk('itersym', more, x))
    tries = 0
    while True:
        tries += 1
        s = dict(st)
        # peel a loop over a literal list
        its = [m for m, k in mods.items() if k == 'iter' and m[0] in st]
        if len(its) == 1:
            X = iter_seq(get_leaf(st[its[0][0]], its[0][1]))
            if X.op == 'coll' and all(p.a[1] == 0 for p in X.a[1:]) and len(X.a) - 1 <= MAXPEEL:
                return peel(I, st, its[0], X, runner, join)
        for (cell, path), kind in mods.items():
            if cell not in s:
                s[cell] = BOT
            if kind == 'iter':
                s[cell] = set_leaf(s[cell], path, itv)
            else:
                y = syms.get((cell, path))
                if y is None:
                    y = syms[(cell, path)] = sym('phi')
                    i0 = get_leaf(st[cell], path) if cell in st else BOT
                    _SYMSIG[y] = hash((1, sig(to_leaf(i0)))) if i0 is not BOT and i0 is not None else 0
                s[cell] = set_leaf(s[cell], path, y)
        I.pans.append(FALSE)
        backs, exits = runner(s)
        pan = I.pans.pop()
        backs = [(p, q) for p, q in backs if p is not FALSE and p is not BOT]
        if not backs:
            if any(k == 'phi' or k == 'iter' for k in mods.values()):
                if tries == 1 and mods:
                    mods.clear()
                    continue
            I.pan(pan)
            return exits
        bpc, bst = join(backs)
        new = []
        for cell, v in bst.items():
            out = []
            diff(s.get(cell, BOT), v, (), out)
            for path, kind in out:
                if (cell, path) in mods:
                    if kind == 'phi' and mods[(cell, path)] == 'iter':
                        mods[(cell, path)] = 'lost'
                    continue
                new.append(((cell, path), kind))
        if not new:
            break
        if tries > 25:
            I.note('loop does not stabilise')
            return lose(I, st, mods, exits)
        for k, kind in new:
            # a longer path subsumed by a shorter one, or the reverse
            for k2 in [q for q in mods if q[0] == k[0] and q[1][:len(k[1])] == k[1]]:
                del mods[k2]
            mods[k] = kind
    L = Loop(I, st, bst, bpc, exits, mods, syms, more, x, pan)
    L.meet = meet
    return L.solve()


def lose(I, st, mods, exits):
    I.note('unsummarised loop')
    out = []
    for t, pc, s in exits:
        s = dict(s)
        for (cell, path), k in mods.items():
            if cell in s:
                s[cell] = set_leaf(s[cell], path, opq('loop'))
        if pc is not TRUE:
            pc = atomv(mk('a:b', opq('loopexit', to_leaf(pc))))
        out.append((t, pc, s))
    return out


def peel(I, st, it, X, runner, join):
    cell, path = it
    cur = dict(st)
    pc = TRUE
    outs = []
    for p in X.a[1:]:
        _, _, cond, e = part_open(p)
        s = dict(cur)
        s[cell] = set_leaf(s[cell], path, iter_of(mk('itersym', TRUE, e)))
        here = AND(pc, cond)
        I.pans.append(FALSE)
        backs, exits = runner(s)
        pn = I.pans.pop()
        I.pan(AND(here, pn))
        for t, epc, es in exits:
            q = AND(here, epc)
            if q is not FALSE and q is not BOT:
                outs.append((t, q, es))
        backs = [(q, b) for q, b in backs if q is not FALSE and q is not BOT]
        live = []
        if backs:
            bpc, bst = join(backs)
            live.append((AND(here, bpc), bst))
        skip = AND(pc, NOT(cond))
        if skip is not FALSE:
            live.append((skip, cur))
        live = [(q, b) for q, b in live if q is not FALSE]
        if not live:
            return outs
        if len(live) == 1:
            pc, cur = live[0]
            cur = dict(cur)
        else:
            pc = OR(live[0][0], live[1][0])
            cells = dict.fromkeys(list(live[0][1]) + list(live[1][1]))
            n = {}
            for c in cells:
                a, b = live[0][1].get(c, BOT), live[1][1].get(c, BOT)
                if c == cell:
                    n[c] = st[c]
                    continue
                n[c] = a if a is b else overlay([(live[0][0], a), (live[1][0], b)])
            cur = n
    s = dict(cur)
    s[cell] = set_leaf(s.get(cell, st[cell]), path, iter_of(mk('itersym', FALSE, BOT)))
    I.pans.append(FALSE)
    _, exits = runner(s)
    pn = I.pans.pop()
    I.pan(AND(pc, pn))
    for t, epc, es in exits:
        q = AND(pc, epc)
        if q is not FALSE and q is not BOT:
            outs.append((t, q, es))
    return outs


def distinct_leaves(v):
    out = []

    def f(t):
        if t not in out:
            out.append(t)
        return t
    if is_comp(v):
        v = to_leaf(v)
    vmap(f, v)
    return out


def kids_of(v):
    for c in terms._iter(v.a):
        yield c


def collapse(v):
    ls = distinct_leaves(v)
    return ls[0] if len(ls) == 1 else None


def taken(v, n):
    """the element of the set v that n is v without, if it is any element of v"""
    if n.op != 'coll' or n.a[0] != 'set':
        return None
    for at in atoms_of_parts(n):
        at = at.a[0] if at.op == 'a:b' else at
        if at.op == 'eq':
            for top in at.a[1:]:
                if top.op == 'pick' and top.a[0].a[1] == 1:
                    ss, b = open_lam(top.a[0])
                    if b[0].op == 'src' and b[0].a[1] is v and b[1] is TRUE and b[2] is ss[0] and coll.remove_elem(at.a[0], 'set', v, top) is n:
                        return top
    return None


def kind_of_phi(p):
    if p.init is BOT or is_comp(p.next):
        return None
    for l in distinct_leaves(to_leaf(p.next)):
        if l is not BOT and l.op == 'coll':
            return l.a[0]
    return None


def atoms_of_parts(n):
    r = []
    for q in n.a[1:]:
        ss, gg, c, e = part_open(q)
        r += atoms_of(c)
    return r


class Loop(object):
    def __init__(self, I, st, bst, bpc, exits, mods, syms, more, x, pan):
        self.I = I
        self.st = st
        self.more = more
        self.x = x
        self.exits = exits
        self.bpc = bpc
        self.pan = pan
        self.mods = mods
        self.iters = []
        self.phis = []
        self.lost = False
        for (cell, path), kind in mods.items():
            if cell not in bst:
                # not live at the header: the value never survives an iteration
                continue
            if kind == 'lost':
                self.lost = True
                continue
            if kind == 'iter':
                self.iters.append((cell, path, iter_seq(get_leaf(st[cell], path)), get_leaf(bst[cell], path)))
                continue
            p = Phi()
            p.cell, p.path, p.sym = cell, path, syms[(cell, path)]
            p.init = get_leaf(st.get(cell, BOT), path)
            p.next = get_leaf(bst[cell], path)
            p.final = None
            p.rep = None
            if has_ptr(p.next) or has_ptr(p.init):
                self.lost = True
            self.phis.append(p)

    # ------------------------------------------------------------------
    def solve(self):
        if self.lost or len(self.iters) > 1:
            return self.lose()
        exits = []
        EX = []
        if self.iters:
            cell, path, X, nx = self.iters[0]
            if nx is not iter_of(mk('itrest', mk('itersym', self.more, self.x))):
                return self.lose()
            self.X = as_leaf(to_leaf(X) if is_comp(X) else X, 'seq')
            on, off = {self.more: TRUE}, {self.more: FALSE}
            if self.sub(self.bpc, off) is not FALSE:
                return self.lose()
            self.src = src_of('seq', self.X)
            self.gens = [(self.x, self.src)]
            normal, early = [], []
            for t, pc, s in self.exits:
                a = nobot(self.sub(pc, off))
                if a is not FALSE:
                    normal.append((t, a, self.substate(s, off)))
                b = nobot(self.sub(pc, on))
                if b is not FALSE:
                    early.append((t, b, self.substate(s, on)))
            self.bpc = self.sub(self.bpc, on)
            self.pan = self.sub(self.pan, on)
            for p in self.phis:
                p.next = self.sub(p.next, on)
            # the iterator itself is spent after the loop
            for t, pc, s in normal:
                if cell in s:
                    s[cell] = set_leaf(s[cell], path, iter_of(empty('seq')))
            for t, pc, s in early:
                if cell in s:
                    s[cell] = set_leaf(s[cell], path, iter_of(opq('rest')))
            return self.generator(normal, early)
        self.congruence()
        c = self.counter() or self.drain()
        if c is not None:
            return self.generator(*c)
        return self.whileloop()

    def sub(self, v, m):
        return subst(v, m)

    def substate(self, s, m):
        out = {}
        keys = frozenset(m)
        for c, v in s.items():
            out[c] = v if v.fv.isdisjoint(keys) else subst(v, m)
        return out

    def lose(self):
        return lose(self.I, self.st, self.mods, self.exits)

    # ------------------------------------------------------------------ counters
    def counter(self):
        """while i < n { .. i += 1 } as a generator over a range"""
        phis = frozenset(p.sym for p in self.phis)
        for p in self.phis:
            if p.init is BOT:
                continue
            nx = self.clean(p.next)
            try:
                d = vsub(coerce_num(nx), num(p.sym)) if nx.op == 'poly' else None
            except Exception:
                d = None
            if d is None or d.op != 'poly' or const_of(d) is None or const_of(d) < 1 or const_of(d).denominator != 1:
                continue
            step = const_of(d)
            i0 = coerce_num(p.init)
            if i0.op != 'poly':
                continue
            for at in self.all_atoms():
                if at.op != 'a:ile' or p.sym not in at.fv or len(at.fv & phis) != 1:
                    continue
                Lp, k = at.a[0], at.a[1]
                co = vsub(subst(Lp, {p.sym: const(1)}), subst(Lp, {p.sym: ZERO}))
                if co.op != 'poly' or const_of(co) not in (1, -1):
                    continue
                # sanity: linear
                back = vadd(subst(Lp, {p.sym: ZERO}), num_scale(num(p.sym), const_of(co)))
                if back is not Lp:
                    continue
                rest = subst(Lp, {p.sym: ZERO})
                if const_of(co) == 1:
                    # phi + rest <= k  <=> phi < k - rest + 1
                    inside, hi = 1, vadd(vneg(rest), const(k + 1))
                else:
                    # -phi + rest <= k <=> phi >= rest - k ; staying means outcome 0
                    inside, hi = 0, vadd(rest, const(-k))
                if hi.op != 'poly':
                    continue
                out = 1 - inside
                if nobot(cof_any(self.bpc, at, out)) is not FALSE:
                    continue
                lo, now = i0, self.x
                if step != 1:
                    # i = i0 + step * j for the j-th round
                    lo, now = ZERO, vadd(i0, vmul(num(self.x), const(step)))
                    hi = idiv(vadd(num_add(hi, i0, -1), const(step - 1)), const(step))
                    if hi.op != 'poly':
                        continue
                normal, early = [], []
                for t, pc, s in self.exits:
                    a = nobot(cof_any(pc, at, out))
                    if a is not FALSE:
                        normal.append((t, a, s))
                    b = nobot(cof_any(pc, at, inside))
                    if b is not FALSE:
                        early.append((t, b, s))
                # only this exit happens at the bound
                self.bpc = self.sub(cof_any(self.bpc, at, inside), {p.sym: now})
                self.pan = self.sub(self.pan, {p.sym: now})
                self.src = mk('range', to_leaf(lo), to_leaf(hi))
                self.gens = [(self.x, self.src)]
                self.X = None
                self.phis = [q for q in self.phis if q is not p]
                for q in self.phis:
                    q.next = subst(cofs(q.next, at, inside), {p.sym: now})
                last = ite(ile(num_add(hi, lo, -1), 0), lo, hi)
                if step != 1:
                    last = vadd(i0, vmul(last, const(step)))
                normal = [(t, self.sub(pc, {p.sym: last}), self.substate(s, {p.sym: last})) for t, pc, s in normal]
                early = [(t, self.sub(pc, {p.sym: now}), self.substate(s, {p.sym: now})) for t, pc, s in early]
                return normal, early
        return None

    def drain(self):
        """while let Some(x) = v.pop() { .. }, where nothing is pushed, as a pass over v from its end"""
        from models import rev
        for p in self.phis:
            if p.init is BOT or p.init.op == 'case':
                continue
            v = p.sym
            kind, top = 'seq', last(v)
            if self.clean(p.next) is not init(v):
                kind, top = 'set', taken(v, self.clean(p.next))
                if top is None:
                    continue
            none, some_ = nonempty(kind, v), None
            if none.op != 'case' or none.a[0] not in self.all_atoms():
                continue
            at = none.a[0]
            inside = [i for i in (0, 1) if none.a[1 + i] is TRUE]
            if len(inside) != 1 or nobot(cof_any(self.bpc, at, 1 - inside[0])) is not FALSE:
                continue
            inside = inside[0]

            def now(w):
                w = cofs(w, at, inside)
                return repl_node(w, top, self.x)
            nexts = [(q, now(q.next)) for q in self.phis if q is not p]
            bpc, pan = now(self.bpc), now(self.pan)
            if any(v in w.fv for _, w in nexts) or v in bpc.fv or v in pan.fv:
                continue
            normal, early = [], []
            for t, pc, s in self.exits:
                a = nobot(cof_any(pc, at, 1 - inside))
                if a is not FALSE:
                    normal.append((t, self.sub(a, {v: empty(kind)}), self.substate(s, {v: empty(kind)})))
                b = nobot(cof_any(pc, at, inside))
                if b is not FALSE:
                    early.append((t, now(b), {c: now(w) if v in w.fv else w for c, w in s.items()}))
            if any(v in b.fv for _, b, _ in early):
                continue
            lost = opq('rest')
            early = [(t, b, self.substate(s, {v: lost})) for t, b, s in early]
            X = as_leaf(rev(p.init) if kind == 'seq' else coll.convert('seq', p.init, 'set'), 'seq')
            if X.op == 'case':
                continue
            self.phis = [q for q in self.phis if q is not p]
            for q, w in nexts:
                q.next = w
            self.bpc, self.pan = bpc, pan
            self.X = X
            self.src = src_of('seq', X)
            self.gens = [(self.x, self.src)]
            return normal, early
        return None

    def all_atoms(self):
        acc, seen = [], set()
        for t, pc, s in self.exits:
            atoms_of(pc, acc, seen)
        atoms_of(self.bpc, acc, seen)
        return acc

    def clean(self, v):
        """forget conditions that only separate defined from undefined"""
        if v.op == 'case' and has_bot(v):
            c = collapse(v)
            if c is not None:
                return c
        return v

    # ------------------------------------------------------------------ congruent and invariant carried values
    def congruence(self):
        # invariants: next is the old value or the initial value
        changed = True
        for p in self.phis:
            if p.init.op in ('rec', 'enum'):
                p.init = to_leaf(p.init)
        while changed:
            changed = False
            for p in list(self.phis):
                if p.init is BOT:
                    continue
                n = self.clean(p.next)
                if p.sym in n.fv:
                    n = self.clean(subst(n, {p.sym: p.init}))
                if same(n, p.init):
                    self.replace(p, p.init)
                    changed = True
        # a value kept in step with others: p = f(q..) before the loop and after every iteration
        for p in list(self.phis):
            f = self.derived(p)
            if f is not None:
                self.replace(p, f)
        # optimistic congruence
        if len(self.phis) > 1:
            color = {p: ('i', p.init.id) for p in self.phis}
            while True:
                marks = {}
                m = {}
                for p in self.phis:
                    c = color[p]
                    if c not in marks:
                        marks[c] = sym('col', 'col%d' % len(marks)) if False else _mark(len(marks))
                    m[p.sym] = marks[c]
                nc = {}
                for p in self.phis:
                    nc[p] = (color[p], to_leaf(subst(self.nextv(p), m)).id)
                ids = {}
                for p in self.phis:
                    ids.setdefault(nc[p], len(ids))
                newc = {p: ids[nc[p]] for p in self.phis}
                if len(set(newc.values())) == len(set(color.values())):
                    color = newc
                    break
                color = newc
            first = {}
            for p in list(self.phis):
                q = first.get(color[p])
                if q is None:
                    first[color[p]] = p
                else:
                    self.replace(p, q.sym)
        # carried values that never reach anything observable are dropped lazily by slicing

    def derived(self, p):
        if p.init is BOT or len(self.phis) < 2 or has_ptr(p.init):
            return None
        init = to_leaf(p.init)
        f, m, deps = init, {}, []
        for q in self.phis:
            if q is p or q.init is BOT:
                continue
            qi = to_leaf(q.init)
            if qi.op in ('case', 'k', 'poly', 'coll') or not qi.fv or not qi.fv <= f.fv or qi is init:
                continue
            g = coll.repl_node(f, qi, q.sym)
            if g is not f and q.sym in g.fv:
                f = g
                m[q.sym] = q.next
                deps.append((q.sym, qi))
        if not deps or not same(self.sub(f, dict(deps)), init):
            return None
        own = {p.sym: f}
        bpc = self.sub(self.bpc, own)
        n = restrict(self.sub(p.next, own), bpc)
        w = restrict(self.sub(f, {q: self.sub(v, own) for q, v in m.items()}), bpc)
        if same(n, w):
            return f
        import verdict
        return f if verdict.compare(to_leaf(n), to_leaf(w), TRUE, 500)[0] == verdict.SAME else None

    def nextv(self, p):
        return restrict(p.next, self.bpc)

    def replace(self, p, v):
        m = {p.sym: v}
        self.phis = [q for q in self.phis if q is not p]
        for q in self.phis:
            q.next = self.sub(q.next, m)
        self.bpc = self.sub(self.bpc, m)
        self.pan = self.sub(self.pan, m)
        self.exits = [(t, self.sub(pc, m), self.substate(s, m)) for t, pc, s in self.exits]
        if getattr(self, 'normal', None) is not None:
            self.normal = [(t, self.sub(pc, m), self.substate(s, m)) for t, pc, s in self.normal]
            self.early = [(t, self.sub(pc, m), self.substate(s, m)) for t, pc, s in self.early]

    # ------------------------------------------------------------------ loops over a source
    def generator(self, normal, early):
        self.normal, self.early = normal, early
        if self.src.op == 'range':
            self.zero_based()
        self.congruence()
        self.queue()
        self.index()
        self.element()
        normal, early = self.normal, self.early
        phis = frozenset(p.sym for p in self.phis)
        EX = FALSE
        for t, pc, s in early:
            EX = OR(EX, pc)
        EX = nobot(EX)
        self.EX = EX
        dep = not EX.fv.isdisjoint(phis)
        if dep and self.x not in EX.fv and len(normal) == 1 and len(early) == 1 and self.guarded(EX):
            return self.generator(self.normal, [])
        # closed forms, in dependency order
        if not dep:
            fin = {}
            for p in self.phis:
                p.final = None
                if self.nextv(p).fv.isdisjoint(phis - {p.sym}):
                    p.final = self.closed(p, self.gens)
            rest = [p for p in self.phis if p.final is None]
            for p in self.phis:
                fin[p.sym] = p.final if p.final is not None else self.mu(p, 'x', self.gens)
            if self.pan is not FALSE and self.I.track:
                pn = nobot(self.pan)
                if pn.fv.isdisjoint(phis):
                    self.I.pan(exists(self.gens, pn))
                else:
                    self.I.pan(self.someround(pn, 'x', self.gens))
            outs = []
            ex = exists(self.gens, EX)
            nex = NOT(ex)
            for t, pc, s in normal:
                q = AND(nex, self.sub(pc, fin))
                if q is not FALSE:
                    outs.append((t, q, self.substate(s, fin)))
            if early and ex is not FALSE:
                at = dict()
                pk = None
                need = any(not v.fv.isdisjoint(phis) for t, pc, s in early for v in [pc] + list(s.values()))
                if need:
                    pg = self.prefix(EX)
                    for p in self.phis:
                        f = None
                        if p.final is not None:
                            f = self.closed(p, pg)
                        at[p.sym] = f if f is not None else self.mu(p, 'x', pg)
                at[self.x] = self.pick(EX)
                for t, pc, s in early:
                    q = ex if len(early) == 1 else AND(ex, self.sub(pc, at))
                    if q is not FALSE:
                        outs.append((t, q, self.substate(s, at)))
            return outs
        # the exit depends on what is carried: keep the recurrence with its stop condition
        if self.pan is not FALSE and self.I.track:
            self.I.pan(self.someround(nobot(self.pan), 's', self.gens))
        fin = {}
        for p in self.phis:
            fin[p.sym] = self.mu(p, 's', self.gens)
        _, m = self.muterm([], 's', self.gens)
        stopped = lift(lambda t: atomv(mk('a:b', mk('stopped', t))), m)
        outs = []
        for t, pc, s in normal:
            q = AND(NOT(stopped), self.sub(pc, fin))
            if q is not FALSE:
                outs.append((t, q, self.substate(s, fin)))
        at = dict(fin)
        at[self.x] = lift(lambda t: mk('stopx', t), m)
        for t, pc, s in early:
            q = stopped if len(early) == 1 else AND(stopped, self.sub(pc, at))
            if q is not FALSE:
                outs.append((t, q, self.substate(s, at)))
        return outs

    def guarded(self, EX):
        """leaving a loop for good as soon as the state says so is doing nothing from then on"""
        (t1, _, s1), (t2, _, s2) = self.normal[0], self.early[0]
        mt = self.meet(t1, t2) if self.meet is not None and t1 != 'ret' and t2 != 'ret' else None
        if mt is None:
            return False
        t, keep = mt
        if OR(EX, nobot(self.bpc)) is not TRUE:
            return False
        s1, s2 = [{c: v for c, v in s.items() if keep(c)} for s in (s1, s2)]
        if self.iters and self.iters[0][0] in s1:
            s1[self.iters[0][0]] = s2.get(self.iters[0][0])
        if set(s1) != set(s2) or any(v is not s2[c] or self.x in v.fv for c, v in s1.items()):
            return False
        for p in self.phis:
            p.next = merge2(EX, p.sym, NOT(EX), restrict(p.next, NOT(EX)))
        self.bpc = TRUE
        self.pan = AND(NOT(EX), self.pan)
        self.normal = [(t, TRUE, s1)]
        self.early = []
        return True

    def pick(self, EX):
        if self.src.op == 'range':
            return num(mk('pick', lam([self.x], [self.src, EX, self.x])))
        return pick(self.gens, EX, self.x, 'seq')

    def prefix(self, EX):
        if self.src.op == 'range':
            return [(self.x, mk('range', self.src.a[0], to_leaf(self.pick(EX))))]
        l = lam([self.x], [EX])
        return [(self.x, lift(lambda t: mk('src', 'seq', mk('prefix', l, t)), self.X))]

    def queue(self):
        """as many rounds as a queue has elements, each taking the first one and putting some
        back at the end: a pass over the elements that rebuilds the queue"""
        if self.early:
            return
        if self.src.op == 'range':
            rounds = num_add(num(self.src.a[1]), num(self.src.a[0]), -1)
        elif self.src.op == 'src' and self.src.a[0] == 'seq':
            c = self.src.a[1]
            rounds = length('seq', c)
            if c.op == 'coll' and len(c.a) == 2 and c.a[1].a[1] == 1:
                _, (g,), w, _ = part_open(c.a[1])
                if g.op == 'range' and w is TRUE and const_of(num(g.a[0])) == 0:
                    rounds = num(g.a[1])
        else:
            return
        if any(self.x in v.fv for v in [self.bpc, self.pan] + [p.next for p in self.phis]):
            return
        for p in self.phis:
            if p.init is BOT or is_comp(p.init):
                continue
            X = as_leaf(p.init, 'seq')
            if X.op == 'case' or length('seq', X) is not rounds:
                continue
            y = p.sym
            n = as_leaf(fill(to_leaf(p.next), self.bpc, BOT), 'seq')
            if n.op != 'coll' or not n.a[1:]:
                continue
            t = self._rest(y)
            if (n.a[1] is not t and is_eta(n.a[1], 'seq') is not mk('tail', y)) or any(q.a[1] != 0 for q in n.a[2:]):
                continue
            x2, first = sym('x'), mk('nth', y, ZERO)
            live = NOT(ile(num(mk('len', y)), 0))

            def conv(v):
                v = repl_node(v, first, x2)
                if y in v.fv:
                    v = restrict(v, live)
                return v
            back = conv(mk('coll', 'seq', *n.a[2:]) if n.a[2:] else empty('seq'))
            nexts = [(q, conv(q.next)) for q in self.phis if q is not p]
            bpc, pan = conv(self.bpc), conv(self.pan)
            if any(y in v.fv for v in [back, bpc, pan] + [v for _, v in nexts]):
                continue
            p.init = empty('seq')
            p.next = union('seq', y, back)
            for q, v in nexts:
                q.next = v
            self.bpc, self.pan = bpc, pan
            self.X, self.x = X, x2
            self.src = src_of('seq', X)
            self.gens = [(self.x, self.src)]
            return

    def _rest(self, y):
        s = sym('b')
        return mk_parts([(s, mk('src', 'seq', mk('tail', y)))], TRUE, s, 'seq')[0]

    def index(self):
        """counters next to a generator become the index of the generator"""
        phis = frozenset(p.sym for p in self.phis)
        for p in list(self.phis):
            if p.init is BOT:
                continue
            n = self.clean(p.next)
            if n.op != 'poly':
                continue
            d = vsub(n, num(p.sym))
            if d.op != 'poly' or const_of(d) is None or const_of(d) == 0:
                continue
            i0 = coerce_num(p.init)
            used_by = any(p.sym in self.nextv(q).fv for q in self.phis if q is not p) or \
                any(p.sym in v.fv for t, pc, s in self.early for v in [pc] + list(s.values())) or p.sym in self.bpc.fv
            if not used_by:
                continue
            step = d
            if self.src.op == 'range':
                val = vadd(i0, vmul(step, num_add(num(self.x), num(self.src.a[0]), -1)))
                count = num_add(num(self.src.a[1]), num(self.src.a[0]), -1)
                m = {p.sym: val}
            else:
                j = sym('j')
                ln = length('seq', self.X)
                count = ln
                val = vadd(i0, vmul(step, num(j)))
                m = {p.sym: val, self.x: nth(self.X, num(j))}
                self.src = lift(lambda h: mk('range', ZERO, h), to_leaf(ln))
                if self.src.op == 'case':
                    continue
            last = vadd(i0, vmul(step, count))
            self.phis = [q for q in self.phis if q is not p]
            for q in self.phis:
                q.next = self.sub(q.next, m)
            self.bpc = self.sub(self.bpc, m)
            self.pan = self.sub(self.pan, m)
            self.early = [(t, self.sub(pc, m), self.substate(s, m)) for t, pc, s in self.early]
            self.normal = [(t, self.sub(pc, {p.sym: last}), self.substate(s, {p.sym: last})) for t, pc, s in self.normal]
            if self.x in m:
                self.x = j
            self.gens = [(self.x, self.src)]

    def zero_based(self):
        if const_of(num(self.src.a[0])) != 0:
            self.x, self.src, m = coll.zero_based(self.x, self.src)
            self.gens = [(self.x, self.src)]
            self.everywhere(lambda v: self.sub(v, m))
        self.everywhere(lambda v: coll.wrapped(self.x, self.src.a[1], v))

    def everywhere(self, f):
        self.bpc, self.pan = f(self.bpc), f(self.pan)
        for q in self.phis:
            q.next = f(q.next)
        self.early = [(t, f(pc), {k: f(v) for k, v in s.items()}) for t, pc, s in self.early]

    def element(self):
        """an index used for nothing but reading the elements of one sequence is a pass over it"""
        g = self.src
        if g.op == 'src' and g.a[0] == 'seq':
            c = g.a[1]
            if c.op != 'coll' or len(c.a) != 2 or c.a[1].a[1] != 1:
                return
            ss, (g,), w, e = part_open(c.a[1])
            if w is not TRUE or (e is not ss[0] and e is not num(ss[0])):
                return
        if g.op != 'range' or const_of(num(g.a[0])) != 0:
            return
        r = raw_of_num(num(g.a[1]))
        if r is None or r.op != 'len':
            return
        at, x2 = mk('nth', r.a[0], self.x), sym('x')

        x = num(self.x)
        within = AND(NOT(ile(num_add(x, num(g.a[0]), -1), -1)), ile(num_add(x, num(g.a[1]), -1), -1))

        def conv(v):
            v = repl_node(v, at, x2)
            return restrict(v, within) if self.x in v.fv and v.op == 'case' else v
        bpc, pan = conv(self.bpc), conv(self.pan)
        nexts = [conv(q.next) for q in self.phis]
        early = [(t, conv(pc), {k: conv(v) for k, v in s.items()}) for t, pc, s in self.early]
        if any(self.x in v.fv for v in [bpc, pan] + nexts + [v for t, pc, s in early for v in [pc] + list(s.values())]):
            return
        for q, v in zip(self.phis, nexts):
            q.next = v
        self.bpc, self.pan, self.early = bpc, pan, early
        self.X, self.x = r.a[0], x2
        self.src = src_of('seq', self.X)
        self.gens = [(self.x, self.src)]

    # ------------------------------------------------------------------ closed forms
    def closed(self, p, gens):
        y = p.sym
        nx, init, bpc = p.next, p.init, nobot(self.bpc)
        if init is BOT and y in nx.fv:
            pass
        # numbers
        n0 = to_leaf(nx) if is_comp(nx) else nx
        leaves = distinct_leaves(n0)
        if not leaves:
            return init
        if all(l.op == 'poly' or l is y for l in leaves) and init is not BOT and any(y in l.fv for l in leaves) and \
                not all(coerced_of(l, y) for l in leaves) and \
                any(y in l.fv and not coerced_of(l, y) for l in leaves):
            d = vmap(lambda l: ZERO if l is y else num_add(l, num(y), -1), n0)
            if y not in d.fv:
                d = fill(d, bpc, ZERO)
                if has_bot(d):
                    d = nobot_val(d, ZERO)
                from models import sum_gens
                return vadd(coerce_num(init), sum_gens(gens, TRUE, d))
        # booleans
        if all(l.op == 'k' for l in leaves):
            at = mk('a:b', y)
            f0, f1 = cof_any(n0, at, 0), cof_any(n0, at, 1)
            if y not in f0.fv and y not in f1.fv and init is not BOT:
                b0, b1 = restrict(f0, bpc), restrict(f1, bpc)
                if OR(nobot(b1), NOT(bpc)) is TRUE:
                    return OR(init, exists(gens, nobot(b0)))
                if nobot(b0) is FALSE:
                    return AND(init, forall(gens, OR(nobot(b1), NOT(bpc))))
            return self.lastwrite(p, n0, bpc, gens) if at not in atoms_of(n0) else None
        # a first match: an option that is set once
        r = self.firstmatch(p, nx, bpc, gens)
        if r is not None:
            return r
        r = self.lastwrite(p, n0, bpc, gens)
        if r is not None:
            return r
        # chains of keyed or store updates
        n1 = fill(n0, bpc, y)
        if n1.op in CHAIN:
            base, links = chain_of(n1)
            if base is y and len(links) == 1 and y not in links[0][1].fv:
                op, l = links[0]
                n = l.a[1]
                ss, b = open_lam(l)
                return chain_link(op, init, list(gens) + list(zip(ss, b[:n])), b[n], b[n + 1:])
            return None
        kind = None
        for l in distinct_leaves(n1):
            if l.op == 'coll':
                kind = l.a[0]
        if kind is None:
            return None
        n1 = as_leaf(n1, kind)
        if n1.op != 'coll':
            return None
        parts = n1.a[1:]
        me = [i for i, q in enumerate(parts) if is_eta(q, kind) is y]
        others = [q for q in parts if y in q.fv]
        if len(me) == 1 and len(others) == 1:
            i = me[0]
            rest = [q for j, q in enumerate(parts) if j != i]
            if kind == 'set' or i == 0:
                return union(kind, init, accumulate(kind, gens, rest))
            return None
        if len(parts) == 1 and not me:
            ss, gg, c, e = part_open(parts[0])
            if len(gg) == 1 and gg[0].op == 'src' and gg[0].a[1] is y and e is ss[0] and y not in c.fv:
                return comp(kind, [(ss[0], src_of(kind, as_leaf(init, kind)))], forall(gens, c), ss[0])
        return None

    def lastwrite(self, p, n0, bpc, gens):
        y = p.sym
        if n0.op == 'poly' and not coerced_of(n0, y) and y in n0.fv:
            return None
        stay = vmap(lambda l: TRUE if coerced_of(l, y) else FALSE, n0)
        w = AND(bpc, NOT(nobot(stay)))
        w = nobot(w)
        if y in w.fv:
            return None
        for l in distinct_leaves(n0):
            if not coerced_of(l, y) and y in l.fv:
                return None
        v = restrict(n0, w)
        gs = frozenset(s for s, _ in gens)
        c = collapse(v)
        if c is not None and c.fv.isdisjoint(gs):
            val = c
        else:
            if v.fv.isdisjoint(gs):
                val = v
            else:
                val = picklast(gens, w, to_leaf(v))
        hit = exists(gens, w)
        if p.init is BOT:
            return val
        return ite(hit, val, to_leaf(p.init) if is_comp(p.init) else p.init)

    def firstmatch(self, p, nx, bpc, gens):
        y = p.sym
        if p.init is BOT:
            return None
        init = p.init
        if init.op == 'E' or init.op == 'k':
            pass
        iv = init if init.op == 'enum' else (enum_expand(init, OPTION) if init.op == 'E' and init.a[0] == OPTION else None)
        if iv is None or iv.a[0] != OPTION or iv.a[1] is not K(0):
            return None
        at = mk('a:tag', y, 2)
        nl = to_leaf(nx) if is_comp(nx) else nx
        if at not in atoms_of(nl):
            return None
        f0, f1 = cof_any(nl, at, 0), cof_any(nl, at, 1)
        ok = vmap(lambda l: TRUE if coerced_of(l, y) else FALSE, restrict(f1, bpc))
        if NOT(nobot(ok)) is not FALSE and OR(nobot(ok), NOT(bpc)) is not TRUE:
            return None
        # from None: either stays None or becomes something free of y
        none = to_leaf(iv)
        f0 = vmap(lambda l: none if coerced_of(l, y) else l, f0)
        if y in f0.fv:
            return None
        o = enum_expand(f0, OPTION)
        c = nobot(AND(bpc, o.a[1]))
        if c.fv.isdisjoint({y}):
            v = pick(gens, c, to_leaf(restrict(o.a[2][1][0], c)), 'seq')
            return to_leaf(OPT(exists(gens, c), v))
        return None

    # ------------------------------------------------------------------ recurrences
    def slice(self, roots, stop):
        phis = {p.sym: p for p in self.phis}
        need, work = set(), list(roots)
        if stop is not None:
            work += [phis[s] for s in stop.fv if s in phis]
        while work:
            p = work.pop()
            if p in need:
                continue
            need.add(p)
            for s in self.nextv(p).fv:
                if s in phis and phis[s] not in need:
                    work.append(phis[s])
        return [p for p in self.phis if p in need]

    def order(self, ps, nextv):
        """canonical order of carried values: refine by recurrence, then by initial value.
        Signatures come first: they do not depend on how enclosing loops named their values"""
        color = {p: () for p in ps}
        for key in (sig, lambda v: v.id):
            for inits in (False, True):
                if inits:
                    names = sorted(set(color.values()))
                    ix = {c: i for i, c in enumerate(names)}
                    color = {p: (ix[color[p]], key(to_leaf(p.init)) if p.init is not BOT else 0) for p in ps}
                for _ in range(len(ps) + 1):
                    names = sorted(set(color.values()))
                    ix = {c: i for i, c in enumerate(names)}
                    m = {p.sym: _mark(ix[color[p]]) for p in ps}
                    nc = {p: (ix[color[p]], key(to_leaf(subst(nextv[p], m)))) for p in ps}
                    done = len(set(nc.values())) == len(set(color.values()))
                    color = nc
                    if done:
                        break
                if len(set(color.values())) == len(ps):
                    break
            if len(set(color.values())) == len(ps):
                break
        return sorted(ps, key=lambda p: color[p])

    def muterm(self, roots, mode, gens):
        stop = None
        if mode == 's':
            stop = self.EX
        elif mode == 'w':
            stop = nobot(self.bpc)
        # only the states with which the loop goes on matter
        known = forced(NOT(stop)) if mode == 's' else forced(stop) if mode == 'w' else {}
        care = NOT(stop) if mode == 's' else stop if mode == 'w' else TRUE
        nextv = {p: restrict(to_leaf(settle(force(self.nextv(p), known))), care) for p in self.slice(roots, stop)}
        ps = self.order(list(nextv), nextv)
        syms = [p.sym for p in ps]
        nexts = [nextv[p] for p in ps]
        inits = [to_leaf(p.init) if p.init is not BOT else mk('undef') for p in ps]
        if mode == 'w':
            l = lam(syms, [stop] + nexts)
            return ps, lift(lambda *ls: mk('muw', l, *ls), *inits)
        g = gens[0][1]
        if mode == 'x' and g.op == 'src':
            # elements that change nothing are no elements of the loop
            w = FALSE
            for p, n in zip(ps, nexts):
                y = p.sym
                w = OR(w, NOT(nobot(vmap(lambda t: TRUE if coerced_of(t, y) else FALSE, n))))
            if w.op == 'case' and self.x in w.fv and w.fv.isdisjoint(syms) and not any(at.op == 'a:b' and at.a[0].op == 'opaque' for at in atoms_of(w)):
                X = cfilter(g.a[1], 'seq', lambda e: subst(w, {self.x: e}))
                g2 = lift(lambda t: mk('src', 'seq', t), as_leaf(X, 'seq'))
                if g2.op == 'src':
                    g = g2
                    nexts = [restrict(n, w) for n in nexts]
        if mode == 'x' and g.op == 'src' and g.a[0] == 'seq' and g.a[1].op != 'coll':
            # a first element that leaves the initial values as they are needs no round of its own
            first = nth(g.a[1], ZERO)
            if first.op != 'case' and any(repl_node(i, first, self.x) is not i for i in inits):
                m = dict(zip(syms, inits))
                m[self.x] = first
                if all(to_leaf(self.sub(n, m)) is i for n, i in zip(nexts, inits)):
                    g = mk('src', 'seq', mk('tail', g.a[1]))
        l = lam(syms + [self.x], ([stop] if mode == 's' else []) + nexts)

        def f(gg, *ls):
            return mk('mus' if mode == 's' else 'mux', l, gg, *ls)
        return ps, lift(f, g, *inits)

    def someround(self, c, mode, gens):
        """c holds in some round of the loop"""
        ps, m = self.muterm([p for p in self.phis if p.sym in c.fv], mode, gens)
        syms = [p.sym for p in ps]
        if mode == 'w':
            l = lam(syms, [to_leaf(c)])
            return lift(lambda t: atomv(mk('a:b', mk('someround', l, t))), m)
        l = lam(syms + [self.x], [to_leaf(c)])
        return lift(lambda g, t: atomv(mk('a:b', mk('someround', l, g, t))), gens[0][1], m)

    def mu(self, p, mode, gens):
        ps, m = self.muterm([p], mode, gens)
        return r_fin(ps.index(p), m)

    def whileloop(self):
        fin = {}
        if self.pan is not FALSE and self.I.track:
            self.I.pan(self.someround(nobot(self.pan), 'w', None))
        for p in self.phis:
            fin[p.sym] = self.mu(p, 'w', None)
        outs = []
        exits = [(t, pc, s) for t, pc, s in self.exits if nobot(pc) is not FALSE]
        if len(exits) == 1:
            # what the loop empties is empty behind it
            for p in self.phis:
                k = kind_of_phi(p)
                if k is not None and AND(nobot(exits[0][1]), nonempty(k, p.sym)) is FALSE:
                    fin[p.sym] = empty(k)
        for t, pc, s in exits:
            q = TRUE if len(exits) == 1 else self.sub(nobot(pc), fin)
            if q is not FALSE:
                here = nobot(pc)
                s = {c: v if v.op == 'ptr' or v.fv.isdisjoint(fin) else comp_map(v, lambda x: under(x, here)) for c, v in s.items()}
                outs.append((t, q, self.substate(s, fin)))
        return outs


def _mark(i):
    return sym('M', 'mark%d' % i)


def r_fin(i, m):
    """what a loop over nothing leaves is what it started with"""
    def f(t):
        if t.op in ('mux', 'mus') and t.a[1].op == 'src' and t.a[1].a[1].op == 'coll' and len(t.a[1].a[1].a) == 1:
            return t.a[2 + i]
        if ROUNDS[0] and t.op == 'mux' and t.a[1].op == 'src' and t.a[1].a[1].op == 'coll' and not any(p.a[1] for p in t.a[1].a[1].a[1:]):
            return rounds(t)[i]
        if ROUNDS[0] and t.op == 'muw':
            r = one_round(t, i)
            if r is not None:
                return r
        if t.op == 'muw':
            # a loop not entered leaves what it started with
            inits = t.a[1:]
            go = _ENTERED.get(t)
            if go is None:
                l = t.a[0]
                syms = [sym('b') for _ in range(l.a[1])]
                b = subst(l.a[2], {mk('bv', l.a[0], k): x for k, x in enumerate(syms)})
                go = _ENTERED[t] = nobot(subst(b, dict(zip(syms, inits))))
            return ite(go, mk('fin', i, t), inits[i])
        return mk('fin', i, t)
    return vmap(f, m)


# while a particular case is looked at: loops over a few given elements are gone through
ROUNDS = [0]
UNTIL = [0.0]
_ROUNDS = {}
_DEPTH = [0]


def rounds(t):
    r = _ROUNDS.get(t)
    if r is None:
        cur = list(t.a[2:])
        for p in t.a[1].a[1].a[1:]:
            ss, gg, c, e = coll.part_open(p)
            syms, bs = open_lam(t.a[0])
            m = dict(zip(syms, cur + [to_leaf(e)]))
            cur = [ite(c, to_leaf(subst(b, m)), v) for b, v in zip(bs, cur)]
        r = _ROUNDS[t] = cur
    return r


def one_round(t, i):
    inits = list(t.a[1:])
    syms, bs = open_lam(t.a[0])
    m = dict(zip(syms, inits))
    go = nobot(subst(bs[0], m))
    if go is FALSE:
        return inits[i]
    if go is not TRUE or _DEPTH[0] > 5 or time.time() > UNTIL[0]:
        return None
    _DEPTH[0] += 1
    try:
        return lift(lambda *ls: r_fin(i, mk('muw', t.a[0], *ls)), *[to_leaf(subst(b, m)) for b in bs[1:]])
    finally:
        _DEPTH[0] -= 1


_ENTERED = {}
coll.REBUILD['fin'] = r_fin

_SYMSIG = {}
_SIG = {}
_UNORDERED = frozenset(['eq', 'case', 'poly', 'coll', 'mux', 'mus', 'muw', 'fin'])


def _crc(x):
    return zlib.crc32(str(x).encode())


def sig(v):
    """a structural hash that does not depend on the names of free values, on the order of
    tests, or on the order of carried values"""
    r = _SIG.get(v)
    if r is not None:
        return r
    op = v.op
    if op == 'sym':
        r = _SYMSIG.get(v)
        if r is None:
            r = hash((_crc(v.a[0]), _crc(v.a[1]) if isinstance(v.a[1], str) else 0))
    elif op == 'bv':
        r = 7
    elif op == 'case':
        ats, lv, seen, work = set(), set(), set(), [v]
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'case':
                ats.add(sig(t.a[0]))
                work.extend(t.a[1:])
            else:
                lv.add(sig(t))
        r = hash((2, tuple(sorted(ats)), tuple(sorted(lv))))
    elif op == 'lam':
        r = hash((3, tuple(sorted(sig(b) for b in v.a[2:]))))
    else:
        def one(x):
            if isinstance(x, N):
                return sig(x)
            if isinstance(x, tuple):
                t = [one(y) for y in x]
                return hash(tuple(sorted(t) if op in _UNORDERED else t))
            return _crc(x)
        if op == 'fin':
            r = hash((4, sig(v.a[1])))
        else:
            t = [one(x) for x in v.a]
            r = hash((_crc(op), tuple(sorted(t) if op in _UNORDERED else t)))
    _SIG[v] = r
    return r


def same(a, b):
    if a is b:
        return True
    la = to_leaf(a) if is_comp(a) or a.op == 'poly' else a
    lb = to_leaf(b) if is_comp(b) or b.op == 'poly' else b
    return la is lb


def cofs(v, at, i):
    if v.op == 'rec':
        return mk('rec', v.a[0], *[cofs(x, at, i) for x in v.a[1:]])
    if v.op == 'enum':
        return mk('enum', v.a[0], cofs(v.a[1], at, i), tuple(tuple(cofs(x, at, i) for x in p) for p in v.a[2]))
    return cof_any(v, at, i)


def nobot_val(v, d):
    memo = {}

    def go(x):
        if x is BOT:
            return d
        if x.op != 'case':
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = build_case(x.a[0], [go(k) for k in x.a[1:]])
        return r
    return go(v)


def fill(v, bpc, d):
    """v where the iteration completes, d elsewhere"""
    v = ite(bpc, v, d) if bpc is not TRUE else v
    return nobot_val(v, d) if has_bot(v) else v


def picklast(gens, w, v):
    """the value of v at the last position where w holds"""
    from models import rev_leaf
    if len(gens) == 1 and gens[0][1].op == 'src':
        X = gens[0][1].a[1]
        r = rev_leaf(X)
        return pick([(gens[0][0], mk('src', 'seq', r))], w, v, 'seq') if r.op != 'case' else opq('picklast')
    return mk('picklast', lam([s for s, _ in gens], [g for _, g in gens] + [w, v]))


def accumulate(kind, gens, parts):
    """the collection of all parts over the generators"""
    if kind == 'seq' and len(parts) > 1:
        from models import blk
        y = sym('b')
        b = blk(mk('coll', 'seq', *parts), gens)
        return comp(kind, list(gens) + [(y, mk('src', 'seq', b))], TRUE, y)
    r = empty(kind)
    for q in parts:
        ss, gg, c, e = part_open(q)
        r = union(kind, r, comp(kind, list(gens) + list(zip(ss, gg)), c, e))
    return r
