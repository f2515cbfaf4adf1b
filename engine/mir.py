"""Loading of the extracted compiler IR: bodies, types, control-flow structure."""
import json
import terms


class Ty(object):
    __slots__ = ('s', 'k', 'd', 'prog', 'args', 'inner', 'path', 'rc', 'mut', 'core', 'kind', 'tk')

    def __repr__(self):
        return self.s


class Body(object):
    def __init__(self, d, prog):
        self.prog = prog
        self.name = d['name']
        self.file = d['file']
        self.line = d['line']
        self.argc = d['argc']
        self.locals = [prog.tys[t] for t in d['locals']]
        self.blocks = d['blocks']
        self.kind = d['kind']
        self.pub = d.get('pub')
        self.spread = d.get('spread', -1)
        self.captures = d.get('captures')
        self.parent = d.get('parent')
        self.names = d.get('names', [])
        self._cfg = None
        self.tyv = prog.tys

    def prog_ty(self, i):
        return self.tyv[i]

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def sig(self):
        return tuple(t.s for t in self.locals[:self.argc + 1])


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


class Cfg(object):
    def __init__(self, body):
        bl = body.blocks
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b['cleanup']:
                continue
            ss = []
            for s in succs(b['t']):
                if not bl[s]['cleanup'] and s not in ss:
                    ss.append(s)
            self.succ[i] = ss
        # reverse postorder
        seen = [False] * n
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.index = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._loops()
        self._live(body)

    def _dom(self):
        idom = {self.rpo[0]: self.rpo[0]}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._meet(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

    def _meet(self, idom, a, b):
        ix = self.index
        while a != b:
            while ix[a] > ix[b]:
                a = idom[a]
            while ix[b] > ix[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.rpo[0]:
                return False
            b = self.idom[b]

    def _loops(self):
        loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.index[s] <= self.index[b]:
                    if not self.dominates(s, b):
                        self.irreducible = True
                        continue
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(self.pred[x])
        self.loops = loops
        # loops nested directly inside a block set
        self.order = sorted(loops, key=lambda h: -len(loops[h]))

    def inner_loops(self, blocks, header):
        """outermost loops strictly inside `blocks` (excluding the loop of `header`)"""
        out = {}
        covered = set()
        for h in self.order:
            if h == header or h not in blocks or h in covered:
                continue
            if self.loops[h] <= blocks and (header is None or self.loops[h] != blocks):
                out[h] = self.loops[h]
                covered |= self.loops[h]
        return out

    def _live(self, body):
        """locals live at block entry; borrowed locals are always live"""
        use, kill = {}, {}
        borrowed = set()

        def pl(p, u, k, read):
            l = p['l']
            if read or p['p']:
                if l not in k:
                    u.add(l)
            else:
                k.add(l)
            for e in p['p']:
                if e[0] == 'index' and e[1] not in k:
                    u.add(e[1])

        def op(o, u, k):
            if o[0] in ('copy', 'move'):
                pl(o[1], u, k, True)

        def rv(r, u, k):
            t = r[0]
            if t in ('use', 'repeat'):
                op(r[1], u, k)
            elif t in ('ref', 'rawptr'):
                p = r[2] if t == 'ref' else r[1]
                pl(p, u, k, True)
                if not any(e[0] == 'deref' for e in p['p']) or body.prog_ty(p['t']).rc:
                    borrowed.add(p['l'])
            elif t == 'cast':
                op(r[2], u, k)
            elif t == 'bin':
                for x in r[2:]:
                    if isinstance(x, list):
                        op(x, u, k)
            elif t == 'un':
                op(r[2], u, k)
            elif t == 'discr':
                pl(r[1], u, k, True)
            elif t == 'agg':
                for x in r[2]:
                    op(x, u, k)
            else:
                for x in r[1:]:
                    if isinstance(x, dict) and 'l' in x:
                        pl(x, u, k, True)
                    elif isinstance(x, list) and x and x[0] in ('copy', 'move'):
                        op(x, u, k)
        for b in self.rpo:
            u, k = set(), set()
            blk = body.blocks[b]
            for s in blk['s']:
                if s[0] == 'assign':
                    rv(s[2], u, k)
                    pl(s[1], u, k, False)
                elif s[0] in ('live', 'dead'):
                    k.add(s[1])
                elif s[0] == 'setdiscr':
                    pl(s[1], u, k, True)
            t = blk['t']
            if t[0] == 'switch':
                op(t[1], u, k)
            elif t[0] == 'call':
                op(t[1], u, k)
                for a in t[2]:
                    op(a, u, k)
                pl(t[3], u, k, False)
            elif t[0] == 'assert':
                op(t[1], u, k)
            elif t[0] == 'return':
                u.add(0)
            use[b], kill[b] = u, k
        livein = {b: set() for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= livein[s]
                n = use[b] | (out - kill[b])
                if n != livein[b]:
                    livein[b] = n
                    changed = True
        self.livein = livein
        self.borrowed = borrowed


STRIP = ('alloc::rcs::rc::Rc', 'alloc::rc::Rc', 'alloc::boxed::Box', 'core::cell::Ref', 'core::cell::RefMut',
         'core::cell::RefCell', 'alloc::sync::Arc', 'alloc::borrow::Cow')
SEQ = ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque')
SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet')
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')


class Program(object):
    def __init__(self, paths):
        self.bodies = {}
        self.adts = {}
        self.tys = []
        self.by_s = {}
        for p in paths:
            d = json.load(open(p))
            base = len(self.tys)
            raw = d['tys']
            cur = []
            for r in raw:
                t = Ty()
                t.s, t.k, t.d = r['s'], r['k'], r
                t.rc = r.get('rc', False)
                t.mut = r.get('m', False)
                t.path = r.get('p')
                t.core = t.kind = t.tk = None
                cur.append(t)
            for t in cur:
                r = t.d
                t.args = [cur[i] for i in r.get('a', [])]
                t.inner = cur[r['t']] if 't' in r and r['k'] in ('ref', 'ptr', 'slice', 'array') else None
            self.tys = cur
            for k, v in d['adts'].items():
                if k not in self.adts:
                    self.adts[k] = v
            for b in d['bodies']:
                if b['name'] not in self.bodies:
                    self.bodies[b['name']] = Body(b, self)
        for k, v in self.adts.items():
            if v['kind'] == 'struct' and v['variants']:
                if k not in terms.REC_FIELDS:
                    terms.REC_FIELDS[k] = list(v['variants'][0]['fields'])
            if k not in terms.ADTS:
                terms.ADTS[k] = v

        terms.find_ambiguous()

    def adt_conflicts(self):
        out = []
        for k, v in self.adts.items():
            o = terms.ADTS.get(k)
            if o is not None and o is not v and o != v:
                out.append(k)
        return out


def core_ty(t):
    """the type without references and owning pointers"""
    if t.core is None:
        c = t
        while True:
            if c.k == 'ref' or c.k == 'ptr':
                c = c.inner
            elif c.k == 'adt' and c.path in STRIP and c.args:
                c = c.args[0]
            else:
                break
        t.core = c
    return t.core


def kind_of(t):
    c = core_ty(t)
    if c.k in ('slice', 'array'):
        return 'seq'
    if c.k == 'adt':
        if c.path in SEQ:
            return 'seq'
        if c.path in SETS:
            return 'set'
        if c.path in MAPS:
            return 'map'
        if c.path == 'alloc::string::String':
            return 'str'
        if c.path == 'core::option::Option':
            return 'opt'
    if c.k == 'str':
        return 'str'
    return None


def elem_ty(t):
    c = core_ty(t)
    if c.k in ('slice', 'array'):
        return c.inner
    if c.args:
        return c.args[0]
    return None


def tk_of(t):
    """a key naming the value type, with ownership stripped"""
    if t.tk is None:
        c = core_ty(t)
        if c.k == 'tuple':
            r = '(' + ','.join(tk_of(x) for x in c.args) + ')'
        elif c.k == 'adt':
            a = [tk_of(x) for x in c.args if not x.s.startswith('alloc::alloc::Global')
                 and 'RandomState' not in x.s]
            r = c.path + ('<' + ','.join(a) + '>' if a else '')
        elif c.k in ('slice', 'array'):
            r = '[' + tk_of(c.inner) + ']'
        else:
            r = c.s
        t.tk = r
    return t.tk
