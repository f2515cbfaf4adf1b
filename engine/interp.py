"""Value-graph summaries of MIR bodies: forward dataflow over the control-flow graph.

Blocks are visited once per loop nesting level in reverse postorder; states meet at joins in
gated values (terms.overlay), loops are summarised by their recurrence (loops.py).  No path is
enumerated and nothing is executed: the result of a body is one value graph per output.
"""
from terms import *
import terms
from coll import *
import coll
from mir import Program, core_ty, kind_of, elem_ty, tk_of
import struct
import time


class Budget(Exception):
    pass


def TUP(*vs):
    if not vs:
        return UNIT
    return mk('rec', 'tup', *vs)


def ptr(cell, path=()):
    return mk('ptr', cell, path)


_fids = {}


def fid_of(*key):
    r = _fids.get(key)
    if r is None:
        r = _fids[key] = len(_fids)
    return r


def iter_of(x):
    return mk('rec', 'iter', x)


RANGE = 'core::ops::range::Range'
RANGEI = 'core::ops::range::RangeInclusive'


# ------------------------------------------------------------------ paths inside values
def read_path(v, path):
    for e in path:
        if v is BOT:
            return BOT
        k = e[0]
        if k == 'f':
            v = fieldv(v, e[1], e[2])
        elif k == 'v':
            v = payload(v, e[3], e[1], e[2])
        elif k == 'i':
            v = nth(v, e[1])
        elif k == 'k':
            v = r_proj(mget(e[1], v, e[2]), 'Some.0')
        elif k == 'last':
            v = last(v)
        else:
            return opq('path', str(k))
    return v


def fieldv(v, name, owner=None):
    if v.op == 'enum':
        v = to_leaf(v)
    if v.op == 'rec':
        if v.a[0] == 'opqrec':
            return opq('field')
        fs = rec_fields(v)
        if name not in fs:
            if v.a[0].startswith('matrix:') and name in 'xyzw' and 'xyzw'.index(name) < len(v.a) - 1:
                return v.a[1 + 'xyzw'.index(name)]
            return opq('nofield', v.a[0], name)
        return v.a[1 + fs.index(name)]
    if v.op == 'ptr':
        return opq('ptrfield', name)
    if owner is not None and owner != 'tup':
        own(v, owner)
    return proj(v, name)


def payload(v, adt, variant, j):
    if v.op == 'enum':
        vs = enum_variants(v.a[0])
        for i, var in enumerate(vs):
            if var['name'] == variant:
                return v.a[2][i][j]
        return BOT
    return r_proj(v, '%s.%d' % (variant, j))


def write_path(old, path, new):
    if not path:
        return new
    e, rest = path[0], path[1:]
    k = e[0]
    if k == 'f':
        if old.op != 'rec':
            owner = e[2]
            if owner is None or owner not in REC_FIELDS:
                if owner == 'tup':
                    n = e[3]
                    old = mk('rec', 'tup', *[proj(old, str(i)) for i in range(n)])
                else:
                    return opq('wfield', e[1], to_leaf(old))
            else:
                old = mk('rec', owner, *[BOT if old is BOT else fieldv(old, f) for f in REC_FIELDS[owner]])
        fs = rec_fields(old)
        if e[1] not in fs:
            return opq('wnofield', e[1])
        i = 1 + fs.index(e[1])
        a = list(old.a)
        a[i] = write_path(a[i], rest, new)
        return mk('rec', *a)
    if k == 'v':
        if old.op != 'enum':
            if old is BOT:
                return opq('wenum')
            old = enum_expand(old, e[3])
        pays = [list(p) for p in old.a[2]]
        for i, var in enumerate(enum_variants(old.a[0])):
            if var['name'] == e[1]:
                pays[i][e[2]] = write_path(pays[i][e[2]], rest, new)
        return mk('enum', old.a[0], old.a[1], tuple(tuple(p) for p in pays))
    if k == 'i':
        cur = nth(old, e[1]) if rest else None
        nv = write_path(cur, rest, new) if rest else new
        return setnth(old, e[1], nv)
    if k == 'k':
        cur = r_proj(mget(e[1], old, e[2]), 'Some.0') if rest else None
        nv = write_path(cur, rest, new) if rest else new
        return mput_v(e[1], old, e[2], nv)
    return opq('wpath', str(k))


def setnth(v, i, new):
    def f(t, j):
        c = const_of(num(j)) if j.op == 'poly' else None
        if t.op == 'coll' and c is not None:
            ps = list(t.a[1:])
            if all(p.a[1] == 0 and p.a[2] is TRUE for p in ps[:int(c) + 1]) and len(ps) > c:
                ps[int(c)] = mkpart([], [], TRUE, new)
                return mkcoll('seq', ps)
        return lift(lambda n: mk('setnth', t, j, n), to_leaf(new))
    return lift(f, as_leaf(v, 'seq'), to_leaf(i))


REBUILD['setnth'] = lambda t, i, n: setnth(t, i, n)


def mput_v(tk, m, k, v, cond=TRUE):
    """map with k -> v"""
    def f(t):
        return chain_link('mput', t, [], cond, [to_leaf(k), v])
    return vmap(f, m)


def mdel_v(tk, m, k, cond=TRUE):
    def f(t):
        if t.op == 'mempty':
            return t
        return chain_link('mdel', t, [], cond, [to_leaf(k)])
    return vmap(f, m)


MEMPTY = mk('mempty')


# ------------------------------------------------------------------ the interpreter
class Frame(object):
    def __init__(self, body, fid, stack):
        self.body = body
        self.fid = fid
        self.cfg = body.cfg()
        self.stack = stack


class Interp(object):
    def __init__(self, prog, opaque, models, track_panic=False, deadline=None):
        self.prog = prog
        self.opaque = opaque
        self.models = models
        self.track = track_panic
        self.unknown = {}
        self.visited = set()
        self.callsites = 0
        self.loop_cache = {}
        self.iterphi = {}
        self.fnitems = {}
        self.promoted = {}
        self.pans = [FALSE]
        self.deadline = deadline
        self.loops_seen = 0
        self.heavy = 0

    # -------------------------------------------------------------- panics
    def pan(self, cond):
        if self.track and cond is not FALSE:
            self.pans[-1] = OR(self.pans[-1], cond)

    # -------------------------------------------------------------- cells
    def load(self, st, p):
        def f(t):
            if t.op != 'ptr':
                return t
            v = st.get(t.a[0])
            if v is None:
                return opq('nocell', str(t.a[0]))
            return read_path(v, t.a[1])
        if p.op == 'ptr':
            return f(p)
        if p.op == 'case':
            return vmap(f, p)
        return p

    def store(self, st, p, v):
        if p.op == 'ptr':
            cell, path = p.a
            old = st.get(cell, BOT)
            st[cell] = write_path(old, path, v)
            return
        if p.op == 'case':
            leaves = []
            vmap(lambda t: (leaves.append(t) if t not in leaves else None, t)[1], p)
            for t in leaves:
                if t.op != 'ptr':
                    continue
                cond = nobot(vmap(lambda x: TRUE if x is t else FALSE, p))
                old = self.load(st, t)
                self.store(st, t, ite(cond, v, old))
            return
        # writing through something that is not a tracked reference
        self.note('write through untracked reference')
        st[('X',)] = opq('lost')

    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def lval(self, fr, st, place):
        p = ptr(('L', fr.fid, place['l']))
        down = None
        for e in place['p']:
            k = e[0]
            if k == 'deref':
                v = self.load(st, p)
                p = self.through(v, p)
                continue
            if k == 'downcast':
                down = e
                continue
            if k == 'field':
                owner = e[3] if len(e) > 3 else None
                if down is not None:
                    x = ('v', down[2], e[1], owner or '')
                    down = None
                    p = self.ext(p, x)
                    continue
                if owner in ('core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop',
                             'core::mem::maybe_dangling::MaybeDangling',
                             'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'):
                    continue
                nm = str(e[1]) if owner is None or owner.startswith('{') else e[2]
                p = self.ext(p, ('f', nm, owner if owner else 'tup', 0))
            elif k == 'index':
                iv = self.load(st, ptr(('L', fr.fid, e[1])))
                p = self.ext(p, ('i', to_leaf(coerce_num(iv))))
            elif k == 'cindex':
                if e[2]:
                    p = self.ext(p, ('last',)) if e[1] == 1 else opq('cindex')
                else:
                    p = self.ext(p, ('i', const(e[1])))
            else:
                p = opq('proj', str(k))
        return p

    def through(self, v, p):
        def f(t):
            return t if t.op == 'ptr' else None
        if v.op == 'ptr':
            return v
        if v.op == 'case':
            bad = []
            vmap(lambda t: (bad.append(t) if t.op != 'ptr' else None, t)[1], v)
            if not bad:
                return v
        return p

    def ext(self, p, e):
        def f(t):
            if t.op != 'ptr':
                return opq('ext')
            return ptr(t.a[0], t.a[1] + (e,))
        if p.op == 'ptr':
            if e[0] == 'i' and e[1].op == 'case':
                return vmap(lambda i: ptr(p.a[0], p.a[1] + (('i', i),)), e[1])
            return f(p)
        return vmap(f, p)

    def read(self, fr, st, place):
        v = self.load(st, self.lval(fr, st, place))
        return coerce(v, fr.body.prog_ty(place['t']))

    def place_ty(self, fr, place):
        return fr.body.prog_ty(place['t'])

    # -------------------------------------------------------------- operands and rvalues
    def operand(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            return self.read(fr, st, o[1])
        return self.constant(fr, o[1])

    def op_ty(self, fr, o):
        if o[0] in ('copy', 'move'):
            return self.place_ty(fr, o[1])
        return fr.body.prog_ty(o[1]['ty'])

    def constant(self, fr, c):
        t = fr.body.prog_ty(c['ty'])
        k = c.get('c')
        if k == 'fn':
            f = c['fn']
            n = mk('fnitem', f['full'])
            self.fnitems[f['full']] = (f, fr.body)
            return n
        if k == 'scalar':
            bits = int(c['bits'])
            ct = core_ty(t)
            if ct.k == 'bool':
                return K(1 if bits else 0)
            if ct.k == 'float':
                if c['size'] == 8:
                    x = struct.unpack('<d', struct.pack('<Q', bits))[0]
                else:
                    x = struct.unpack('<f', struct.pack('<I', bits))[0]
                if x != x or x in (float('inf'), float('-inf')):
                    return num(mk('fconst', repr(x)))
                return const(Fr(x))
            if ct.k == 'int':
                n = ct.d['n']
                if n.startswith('i') and bits >> (8 * c['size'] - 1):
                    bits -= 1 << (8 * c['size'])
                return const(bits)
            if ct.k == 'char':
                return const(bits)
            if ct.k == 'adt' and ct.path in ADTS and ADTS[ct.path]['kind'] == 'enum':
                for i, v in enumerate(enum_variants(ct.path)):
                    if int(v['discr']) & ((1 << (8 * c['size'])) - 1) == bits:
                        return mk('enum', ct.path, K(i), tuple(tuple(BOT for _ in x['fields'])
                                                               for x in enum_variants(ct.path)))
            return mk('const', tk_of(t), str(bits))
        if k == 'str':
            return mk('str', c['v'])
        if k == 'zst':
            ct = core_ty(t)
            if ct.k == 'closure':
                return mk('rec', 'closure:' + ct.path)
            if ct.k == 'tuple':
                return UNIT
            if ct.k == 'adt' and ct.path in ADTS and ADTS[ct.path]['kind'] == 'enum':
                vs = enum_variants(ct.path)
                if len(vs) == 1:
                    return mk('enum', ct.path, K(0), tuple(tuple(UNIT for _ in x['fields']) for x in vs))
            return mk('rec', ct.s)
        if k == 'promoted':
            name = '%s::{promoted#%d}' % (c['def'], c['ix'])
            r = self.promoted.get(name)
            if r is None:
                b = fr.body.prog.bodies.get(name)
                if b is None:
                    r = opq('promoted', name)
                else:
                    st = {}
                    _, r, st2 = self.run(b, [], st, fid_of('promoted', name), ())
                    r = self.load(st2, r)
                self.promoted[name] = r
            return r
        if c.get('const_path'):
            b = self.prog.bodies.get(c['const_path'])
            if b is not None:
                _, r, _ = self.run(b, [], {}, fid_of('const', c['const_path']), ())
                return r
            return mk('const', c['const_path'], '')
        return mk('const', tk_of(t), c.get('dbg', '?'))

    def rvalue(self, fr, st, r, dst):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            p = r[2]
            t = self.place_ty(fr, p)
            if r[1] == 'mut':
                return self.lval(fr, st, p)
            if t.rc:
                # references to the referent: the reference itself has no cell
                tt = core_of_rc(t)
                return self.lval(fr, st, p)
            return self.read(fr, st, p)
        if k == 'rawptr':
            return self.lval(fr, st, r[1])
        if k == 'cast':
            v = self.operand(fr, st, r[2])
            kind = r[1]
            if kind == 'FloatToInt':
                return vfn('trunc', coerce_num(v))
            if kind == 'FloatToFloat':
                to = fr.body.prog_ty(r[3])
                return vfn('f32', v) if to.k == 'float' and to.d['n'] == 'f32' else v
            if kind == 'IntToInt':
                ft = fr.body.prog_ty(r[4])
                if ft.k == 'bool':
                    return ite(v, ONE, ZERO)
                to = fr.body.prog_ty(r[3])
                w = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}.get(to.d.get('n'))
                fw = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}.get(ft.d.get('n'), 64)
                if w and w < fw:
                    return nlift(lambda p: p if const_of(p) is not None and abs(const_of(p)) < 1 << (w - 1)
                                 else num(mk('fn', 'narrow%d' % w, p)), v)
                return v
            return v
        if k == 'bin':
            return self.binop(fr, st, r)
        if k == 'un':
            v = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                t = core_ty(self.op_ty(fr, r[2]))
                return NOT(v) if t.k == 'bool' else num(term('bnot', v))
            if r[1] == 'Neg':
                return vneg(v)
            if r[1] == 'PtrMetadata':
                t = self.op_ty(fr, r[2])
                return length(kind_of(t) or 'seq', self.load(st, v))
            return opq('un', r[1])
        if k == 'discr':
            v = self.read(fr, st, r[1])
            return discr_of(v, self.place_ty(fr, r[1]))
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple':
                return TUP(*ops)
            if a[0] == 'array':
                return mkcoll('seq', [mkpart([], [], TRUE, o) for o in ops])
            if a[0] == 'adt':
                return make_adt(a[1], a[2], ops)
            if a[0] == 'closure':
                return mk('rec', 'closure:' + a[1], *ops)
            return opq('agg')
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            try:
                n = int(r[2])
            except ValueError:
                n = None
            if n is not None and n <= 8:
                return mkcoll('seq', [mkpart([], [], TRUE, v)] * n)
            return term('repeat', v, mk('const', 'len', str(r[2])))
        return opq('rvalue', k)

    def binop(self, fr, st, r):
        op = r[1]
        a = self.operand(fr, st, r[2])
        b = self.operand(fr, st, r[3])
        t = core_ty(self.op_ty(fr, r[2]))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        v = bin_value(base, a, b, t)
        if op.endswith('WithOverflow'):
            ovf = FALSE
            if base == 'Sub' and t.k == 'int' and t.d['n'].startswith('u'):
                ovf = nlift(lambda p: ile(p, -1), v)
            return TUP(v, ovf)
        return v

    # -------------------------------------------------------------- regions
    def join(self, fr, b, pend):
        live = fr.cfg.livein.get(b, None)
        borrowed = fr.cfg.borrowed
        fid = fr.fid

        def keep(c):
            return c[0] != 'L' or c[1] != fid or live is None or c[2] in live or c[2] in borrowed
        if len(pend) == 1:
            pc, st = pend[0]
            return pc, {c: v for c, v in st.items() if keep(c)}
        pc = FALSE
        for p, _ in pend:
            pc = OR(pc, p)
        cells = {}
        for p, st in pend:
            for c in st:
                if c not in cells and keep(c):
                    cells[c] = True
        out = {}
        for c in cells:
            vs = [(p, st.get(c, BOT)) for p, st in pend]
            v0 = vs[0][1]
            if all(v is v0 for _, v in vs):
                out[c] = v0
            else:
                v = overlay(vs)
                out[c] = v
        return pc, out

    def region(self, fr, blocks, header, st, start):
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        cfg = fr.cfg
        inner = cfg.inner_loops(blocks, header)
        skip = set()
        for h, bs in inner.items():
            skip |= bs - {h}
        pending = {start: [(TRUE, st)]}
        backs, exits = [], []

        def route(t, pc, s):
            if pc is FALSE or pc is BOT:
                return
            if t == header:
                backs.append((pc, s))
            elif t in blocks:
                pending.setdefault(t, []).append((pc, s))
            else:
                exits.append((t, pc, s))
        for b in cfg.rpo:
            if b not in blocks or b in skip:
                continue
            p = pending.pop(b, None)
            if p is None:
                continue
            pc, s = self.join(fr, b, p)
            if pc is FALSE or pc is BOT:
                continue
            self.pans.append(FALSE)
            if b in inner:
                outs = self.loop(fr, b, inner[b], s)
            else:
                outs = self.block(fr, b, s)
            pn = self.pans.pop()
            if pn is not FALSE:
                self.pans[-1] = OR(self.pans[-1], AND(pc, pn))
            for t, rpc, s2 in outs:
                route(t, rpc if pc is TRUE else AND(pc, rpc), s2)
        return backs, exits

    def meeting(self, fr, blocks, t1, t2):
        """the block where two ways out of a loop come together having done nothing, and what to keep there"""
        def chain(t):
            out = [t]
            while len(out) < 12 and t != 'ret':
                blk = fr.body.blocks[t]
                for s in blk['s']:
                    if s[0] not in ('live', 'dead', 'nop') and not (s[0] == 'assign' and not s[1]['p'] and s[2][0] == 'use'
                            and s[2][1][0] == 'const' and s[2][1][1].get('c') == 'zst'):
                        return out
                if blk['t'][0] == 'goto':
                    t = blk['t'][1]
                elif blk['t'][0] == 'drop':
                    t = blk['t'][2]
                else:
                    return out
                if t in blocks:
                    return out
                out.append(t)
            return out
        c2 = chain(t2)
        for t in chain(t1):
            if t in c2:
                live, borrowed = fr.cfg.livein.get(t, None), fr.cfg.borrowed
                return t, lambda c: c[0] != 'L' or c[1] != fr.fid or live is None or c[2] in live or c[2] in borrowed
        return None

    def block(self, fr, b, st):
        st = dict(st)
        blk = fr.body.blocks[b]
        for s in blk['s']:
            k = s[0]
            if k == 'assign':
                pl = s[1]
                v = self.rvalue(fr, st, s[2], pl)
                if not pl['p']:
                    st[('L', fr.fid, pl['l'])] = v
                else:
                    self.store(st, self.lval(fr, st, pl), v)
            elif k == 'dead' or k == 'live':
                st.pop(('L', fr.fid, s[1]), None)
            elif k == 'setdiscr':
                self.note('setdiscr')
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], TRUE, st)]
        if k == 'return':
            return [('ret', TRUE, st)]
        if k == 'drop':
            return [(t[2], TRUE, st)]
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            ok = c if t[2] else NOT(c)
            if not self.track:
                return [(t[4], TRUE, st)]
            self.pan(nobot(NOT(ok)))
            return [(t[4], TRUE, st)]
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            ty = core_ty(fr.body.prog_ty(t[4]) if len(t) > 4 and t[4] is not None else self.op_ty(fr, t[1]))
            outs = []
            if ty.k == 'bool':
                rest = TRUE
                for val, tgt in t[2]:
                    c = v if int(val) else NOT(v)
                    outs.append((tgt, c, st))
                    rest = AND(rest, NOT(c))
                if t[3] is not None:
                    outs.append((t[3], rest, st))
                return outs
            rest = TRUE
            size = ty
            for val, tgt in t[2]:
                c = int_eq(v, signed(int(val), ty))
                outs.append((tgt, AND(rest, c), st))
                rest = AND(rest, NOT(c))
            if t[3] is not None:
                if fr.body.blocks[t[3]]['t'][0] != 'unreachable' or fr.body.blocks[t[3]]['s']:
                    outs.append((t[3], rest, st))
            return outs
        if k == 'call':
            return self.do_call(fr, b, st, t)
        if k == 'unreachable':
            return []
        return []

    # -------------------------------------------------------------- calls
    def do_call(self, fr, b, st, t):
        self.callsites += 1
        args = [self.operand(fr, st, a) for a in t[2]]
        tys = [self.op_ty(fr, a) for a in t[2]]
        dty = self.place_ty(fr, t[3])
        fo = t[1]
        if fo[0] == 'const' and fo[1].get('c') == 'fn':
            fn = fo[1]['fn']
            c = Call(self, fr.body, fn, args, tys, dty, st, fid_of(fr.fid, b), fr.stack)
            if t[4] is None:
                self.pan(TRUE)
                return []
            pc, v = self.call(c)
            st = c.st
        else:
            f = self.operand(fr, st, fo)
            if t[4] is None:
                self.pan(TRUE)
                return []
            pc, v, st = self.invoke(f, args, st, fid_of(fr.fid, b), fr.stack)
        pl = t[3]
        if not pl['p']:
            st[('L', fr.fid, pl['l'])] = v
        else:
            self.store(st, self.lval(fr, st, pl), v)
        return [(t[4], pc, st)]

    def call(self, c):
        """-> (pc, value); c.st is updated"""
        fn = c.fn
        name = fn.get('res') or fn['path']
        prog = c.body.prog
        if fn.get('ctor'):
            ct = core_ty(c.body.prog_ty(fn['ctor_ty']))
            a = ADTS[ct.path]
            for i, v in enumerate(a['variants']):
                if v['name'] == fn['ctor_variant'] or a['kind'] == 'struct':
                    return TRUE, make_adt(ct.path, i, c.args)
        m = self.models.special(c, name)
        if m is not None:
            r = self.model(m, c)
            return r if isinstance(r, tuple) else (TRUE, r)
        b = prog.bodies.get(name)
        if b is not None:
            if name in self.opaque or name in c.stack:
                return TRUE, self.opaque_call(c, name)
            pc, v, st = self.run(b, c.args, c.st, c.fid, c.stack)
            c.st = st
            return pc, v
        m = self.models.find(c)
        if m is not None:
            r = self.model(m, c)
            if isinstance(r, tuple):
                return r
            return TRUE, r
        return TRUE, self.unknown_call(c, name)

    def model(self, m, c):
        if not self.track:
            return m(c)
        start = sym('b').id
        outer, coll.OPENED = coll.OPENED, {} if coll.OPENED is None else coll.OPENED
        self.pans.append(FALSE)
        try:
            r = m(c)
        finally:
            if outer is None:
                opened, coll.OPENED = coll.OPENED, None
            else:
                opened = outer
        pn = nobot(self.pans.pop())
        # an abort inside a closure handed to an iterator: for some of the elements it is called with
        while True:
            inner = sorted((s for s in pn.fv if s.id > start), key=lambda s: s.id)
            known = [s for s in inner if s in opened]
            if not known:
                break
            ss, gg, cond = opened[known[-1]]
            pn = nobot(exists(list(zip(ss, gg)), AND(nobot(cond), pn)))
        if inner:
            pn = atomv(mk('a:b', mk('some', lam(inner, [pn]))))
        self.pan(pn)
        return r

    def mut_args(self, c):
        out = []
        for i, (a, t) in enumerate(zip(c.args, c.tys)):
            if has_ptr(a):
                out.append(i)
        return out

    def arg_leaf(self, c, a, t, st):
        v = self.load(st, a)
        k = kind_of(t)
        if k in ('seq', 'set'):
            return as_leaf(to_leaf(v) if is_comp(v) else v, k)
        return to_leaf(deep(self, st, v))

    def opaque_call(self, c, name):
        self.visited.add('call ' + name)
        leaves = [self.arg_leaf(c, a, t, c.st) for a, t in zip(c.args, c.tys)]
        muts = [i for i, (a, t) in enumerate(zip(c.args, c.tys)) if t.k == 'ref' and t.mut and has_ptr(a)]
        sp = self.models.effect(name, c, leaves)
        if sp is not None:
            return sp
        for i in muts:
            up = lift(lambda *ls: mk('upd', name, i, *ls), *leaves)
            self.store(c.st, c.args[i], up)
        leaves = self.world(c, name, leaves)
        # a returned &mut alias of an argument
        if c.dty.k == 'ref' and c.dty.mut and len(muts) == 1:
            return c.args[muts[0]]
        r = lift(lambda *ls: mk('call', name, *ls), *leaves)
        return coerce(r, c.dty)

    def world(self, c, name, leaves):
        """calls that read or change what is outside the program follow one another"""
        if not name.startswith(self.models.world):
            return leaves
        w = c.st.get(('W',), mk('world'))
        c.st[('W',)] = lift(lambda *ls: mk('upd', name, 'world', *ls), w, *leaves)
        return [w] + leaves

    def unknown_call(self, c, name):
        clos = [a for a in c.args if is_callable(self.load(c.st, a))]
        if clos:
            self.note('unmodelled higher-order call ' + name)
        leaves = [self.arg_leaf(c, a, t, c.st) for a, t in zip(c.args, c.tys)]
        muts = [i for i, t in enumerate(c.tys) if has_ptr(c.args[i]) and not t.rc]
        key = c.fn.get('path')
        self.visited.add('ext ' + key)
        for i in muts:
            up = lift(lambda *ls: mk('upd', key, i, *ls), *leaves)
            self.store(c.st, c.args[i], up)
        leaves = self.world(c, key, leaves)
        if self.models.known and key not in self.models.known:
            # the specification knows nothing of this function
            return coerce(lift(lambda *ls: opq('call', key, *ls), *leaves), c.dty)
        if clos:
            return coerce(lift(lambda *ls: opq('call', key, *ls), *leaves), c.dty)
        if c.dty.k == 'ref' and c.dty.mut:
            self.note('unmodelled reference-returning call ' + name)
            cell = ('H', c.fid, 'ret')
            c.st[cell] = lift(lambda *ls: opq('call', key, *ls), *leaves)
            return ptr(cell)
        r = lift(lambda *ls: mk('call', key, *ls), *leaves)
        return coerce(r, c.dty)

    def invoke(self, f, args, st, fid, stack):
        """call a callable value -> (pc, value, state)"""
        f = self.load(st, f)
        if f.op == 'rec' and f.a[0].startswith('closure:'):
            b = self.prog.bodies.get(f.a[0][8:])
            if b is None:
                return TRUE, opq('closure', f.a[0]), st
            # closures take their captures as first argument, then the unpacked arguments
            return self.run(b, [f] + list(args), st, fid_of(fid, f.a[0]), stack)
        if f.op == 'fnitem':
            fn, body = self.fnitems[f.a[0]]
            tys = [AnyTy] * len(args)
            b = self.prog.bodies.get(fn.get('res') or fn['path'])
            dty = AnyTy
            if b is not None:
                tys = b.locals[1:b.argc + 1]
                dty = b.locals[0]
            else:
                ta = [body.prog_ty(t) for t in fn.get('targs', [])]
                if ta and fn.get('trait'):
                    tys = [ta[0]] * len(args)
                    dty = ta[0] if fn['name'] == 'clone' else AnyTy
                elif ta:
                    tys = [ta[0]] * len(args)
            c = Call(self, body, fn, list(args), tys, dty, dict(st), fid_of(fid, f.a[0]), stack)
            pc, v = self.call(c)
            return pc, v, c.st
        if f.op == 'case':
            # a conditional callable: merge the results
            outs = []
            leaves = []
            vmap(lambda t: (leaves.append(t) if t not in leaves else None, t)[1], f)
            for l in leaves:
                cond = nobot(vmap(lambda x: TRUE if x is l else FALSE, f))
                pc, v, s = self.invoke(l, args, st, fid, stack)
                outs.append((AND(cond, pc), v, s))
            pc = FALSE
            for p, _, _ in outs:
                pc = OR(pc, p)
            v = overlay([(p, x) for p, x, _ in outs])
            cells = set()
            for _, _, s in outs:
                cells |= set(s)
            s = {}
            for cl in cells:
                s[cl] = overlay([(p, x.get(cl, BOT)) for p, _, x in outs])
            return pc, v, s
        self.note('unknown callable')
        return TRUE, opq('callable', to_leaf(f), *[to_leaf(a) for a in args]), st

    def pure(self, c, f, args):
        """invoke a callable that must not change the state -> value or None"""
        pc, v, st = self.invoke(f, args, c.st, fid_of(c.fid, 'pure'), c.stack)
        for cell, x in c.st.items():
            if st.get(cell) is not x:
                return None
        return deep(self, st, v) if has_ptr(v) and not any(has_ptr(a) for a in args) else v

    def run(self, body, args, st, fid, stack):
        """-> (pc, return value, state)"""
        if len(stack) > 40:
            self.note('call depth')
            return TRUE, opq('depth'), st
        self.visited.add(body.name)
        fr = Frame(body, fid, stack + (body.name,))
        cfg = fr.cfg
        if cfg.irreducible:
            self.note('irreducible control flow in ' + body.name)
            return TRUE, opq('irreducible', body.name), st
        st = dict(st)
        n = body.argc
        if body.spread >= 0 and len(args) != n:
            pass
        if len(args) == n:
            for i, a in enumerate(args):
                st[('L', fid, i + 1)] = a
        elif n == 2 and len(args) > 2:
            st[('L', fid, 1)] = args[0]
            st[('L', fid, 2)] = TUP(*args[1:])
        else:
            self.note('argument count of ' + body.name)
            return TRUE, opq('argc', body.name), st
        backs, exits = self.region(fr, set(cfg.rpo), None, st, 0)
        rets = [(pc, s) for t, pc, s in exits if t == 'ret']
        if not rets:
            return FALSE, BOT, st
        if len(rets) == 1:
            pc, s = rets[0]
        else:
            pc, s = self.join(fr, 'ret', rets)
        rv = s.get(('L', fid, 0), UNIT)
        if body.locals[0].k == 'tuple' and not body.locals[0].args:
            rv = UNIT
        out = {c: v for c, v in s.items() if not (c[0] == 'L' and c[1] == fid) or escapes(c, rv)}
        return pc, rv, out

    def loop(self, fr, h, blocks, st):
        from loops import summarise
        fid = fr.fid

        def runner(s):
            return self.region(fr, blocks, h, s, h)

        def join(pend):
            return self.join(fr, h, pend)
        self.loops_seen += 1

        def meet(t1, t2):
            return self.meeting(fr, blocks, t1, t2)
        return summarise(self, (fid, h), st, runner, join, meet)


def escapes(cell, rv):
    return False


class Call(object):
    def __init__(self, I, body, fn, args, tys, dty, st, fid, stack):
        self.I = I
        self.body = body
        self.fn = fn
        self.args = args
        self.tys = tys
        self.dty = dty
        self.st = st
        self.fid = fid
        self.stack = stack

    def targ(self, i):
        ta = self.fn.get('targs', [])
        return self.body.prog_ty(ta[i]) if i < len(ta) else AnyTy

    def load(self, i):
        return self.I.load(self.st, self.args[i])

    def val(self, i):
        """value of argument i, seen through references"""
        return coerce(self.load(i), self.tys[i])

    def kind(self, i):
        return kind_of(self.tys[i])


class _Any(object):
    s = '?'
    k = 'any'
    d = {}
    args = ()
    inner = None
    path = None
    rc = False
    mut = False
    core = None
    kind = None
    tk = '?'


AnyTy = _Any()
AnyTy.core = AnyTy


def core_of_rc(t):
    return t


def has_ptr(v):
    if v.x is None:
        v.x = {}
    r = v.x.get('ptr')
    if r is None:
        if v.op == 'ptr':
            r = True
        elif v.op in ('rec', 'enum', 'case', 'S', 'E', 'coll', 'lam'):
            r = any(has_ptr(c) for c in terms._iter(v.a))
        else:
            r = False
        v.x['ptr'] = r
    return r


def deep(I, st, v):
    """replace references inside a value by what they refer to"""
    if not has_ptr(v):
        return v
    if v.op == 'ptr':
        return deep(I, st, I.load(st, v))
    if v.op == 'rec':
        return mk('rec', v.a[0], *[deep(I, st, x) for x in v.a[1:]])
    if v.op == 'enum':
        return mk('enum', v.a[0], v.a[1], tuple(tuple(deep(I, st, x) for x in p) for p in v.a[2]))
    if v.op == 'case':
        return vmap(lambda t: deep(I, st, t), v)
    if v.op in ('S', 'E'):
        return opq('ptr in leaf')
    return v


def is_callable(v):
    return v.op == 'fnitem' or (v.op == 'rec' and isinstance(v.a[0], str) and v.a[0].startswith('closure:'))


def make_adt(path, variant, ops):
    a = ADTS[path]
    if a['kind'] == 'enum':
        vs = a['variants']
        pays = []
        for i, v in enumerate(vs):
            pays.append(tuple(ops) if i == variant else tuple(BOT for _ in v['fields']))
        return mk('enum', path, K(variant), tuple(pays))
    return mk('rec', path, *ops)


def coerce_num(v):
    if v is BOT or v.op == 'poly':
        return v
    return nlift(lambda p: p, v)


def coerce(v, ty):
    if v is BOT or v.op in ('ptr', 'rec', 'enum', 'poly', 'coll', 'fnitem'):
        return v
    c = core_ty(ty)
    k = c.k
    if k == 'bool':
        if v.op == 'k':
            return v
        if v.op == 'case':
            return vmap(lambda t: t if t.op == 'k' else atomv(mk('a:b', t)), v)
        return atomv(mk('a:b', v))
    if k in ('int', 'float'):
        if v.op == 'case' and has_ptr(v):
            return v
        return coerce_num(v)
    if k == 'adt':
        a = ADTS.get(c.path)
        if a is not None and a['kind'] == 'enum' and not (v.op == 'case' and has_ptr(v)):
            return enum_expand(v, c.path)
        if a is not None and a['kind'] == 'struct':
            own(v, c.path)
    return v


def signed(val, ty):
    n = ty.d.get('n', '') if ty.k == 'int' else ''
    if n.startswith('i'):
        w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[n]
        if val >> (w - 1):
            val -= 1 << w
    return val


def int_eq(v, c):
    def f(p):
        p = num_add(num(p), const(c), -1)
        k = const_of(p)
        if k is not None:
            return TRUE if k == 0 else FALSE
        return AND(ile(p, 0), NOT(ile(p, -1)))
    return vmap(f, v)


def discr_of(v, ty):
    if v.op != 'enum':
        v = coerce(v, ty)
    if v.op != 'enum':
        return opq('discr')
    vs = enum_variants(v.a[0])
    ds = []
    for x in vs:
        d = int(x['discr'])
        if d >= 1 << 127:
            d -= 1 << 128
        elif v.a[0] == 'core::cmp::Ordering' and d >= 128:
            d -= 256
        ds.append(const(d))
    return select(v.a[1], ds)


def bin_value(op, a, b, t):
    if t.k == 'bool':
        if op in ('BitAnd',):
            return AND(a, b)
        if op == 'BitOr':
            return OR(a, b)
        if op in ('BitXor', 'Ne'):
            return ite(a, NOT(b), b)
        if op == 'Eq':
            return ite(a, b, NOT(b))
        if op == 'Lt':
            return AND(NOT(a), b)
        if op == 'Le':
            return OR(NOT(a), b)
        if op == 'Gt':
            return AND(a, NOT(b))
        if op == 'Ge':
            return OR(a, NOT(b))
    if op == 'Add':
        return vadd(a, b)
    if op == 'Sub':
        return vsub(a, b)
    if op == 'Mul':
        return vmul(a, b)
    if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
        return compare(op, a, b, t)
    if op == 'Div':
        if t.k == 'float':
            return vdiv(a, b)
        return idiv(a, b)
    if op == 'Rem':
        return irem(a, b)
    if op in ('BitXor', 'BitAnd', 'BitOr'):
        return lift(lambda x, y: ac_term('bin' + op, x, y), to_leaf(a), to_leaf(b))
    return num_term('bin' + op, a, b)


def ac_term(op, *xs):
    """an associative and commutative operation"""
    args = []
    for x in xs:
        r = raw_of_num(x) if x.op == 'poly' else x
        r = r if r is not None else x
        args += list(r.a) if r.op == op else [x]
    return num(mk(op, *sorted(args, key=lambda v: v.id)))


for _op in ('binBitXor', 'binBitAnd', 'binBitOr'):
    REBUILD[_op] = (lambda o: lambda *xs: lift(lambda *ls: ac_term(o, *ls), *[to_leaf(x) for x in xs]))(_op)


def num_term(op, *vs):
    return lift(lambda *ls: num(mk(op, *ls)), *[to_leaf(v) for v in vs])


def _idiv(p, q):
    p, q = num(p), num(q)
    a, b = const_of(p), const_of(q)
    if a is not None and b is not None and b != 0:
        return const(int(a) // int(b))
    if b is not None and b != 0:
        # exact division
        if all((c / b).denominator == 1 for _, c in p.a[0]):
            return num_scale(p, 1 / b)
        if WHOLE:
            c = dict(p.a[0]).get((), 0)
            rest = num_add(p, const(c), -1)
            if c > 0 and (rest, q) in WHOLE and c < b:
                p = rest
    return num(mk('idiv', p, q))


# multiples known in the context of a rewriting: (number, divisor)
WHOLE = set()


def with_multiples(v, live):
    """v with quotients of a number simplified where v or live tells that it is a multiple of the divisor"""
    ats = set(atoms_of(v))
    known = set(at for at in atoms_of(live) if at.op == 'a:ile' and cof_any(live, at, 0) is FALSE)
    for at in sorted(ats | known, key=lambda x: x.id):
        if at.op != 'a:ile' or at.a[1] != 0 or len(at.a[0].a[0]) != 1:
            continue
        m, c = at.a[0].a[0][0]
        if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'irem':
            continue
        p, q = m[0][0].a
        v0, v1 = cof_any(v, at, 0), cof_any(v, at, 1)
        WHOLE.add((p, q))
        try:
            v1 = subst(v1, {s: s for s in v1.fv})
        finally:
            WHOLE.clear()
        v = v1 if at in known else ite(atomv(at), v1, v0)
    return v


def _irem(p, q):
    p, q = num(p), num(q)
    a, b = const_of(p), const_of(q)
    if a is not None and b is not None and b != 0:
        return const(int(a) % int(b))
    if b is not None and b > 0:
        d = {m: c % b for m, c in p.a[0]}
        p2 = mkpoly({m: c for m, c in d.items() if c})
        if const_of(p2) is not None:
            return p2
        p = p2
    return num(mk('irem', p, q))


def idiv(a, b):
    return nlift(_idiv, a, b)


def irem(a, b):
    return nlift(_irem, a, b)


REBUILD['idiv'] = lambda p, q: idiv(p, q)
REBUILD['irem'] = lambda p, q: irem(p, q)


def compare(op, a, b, t):
    if t.k == 'int' or t.k == 'char':
        def f(p, q):
            p, q = num(p), num(q)
            if op == 'Lt':
                return icmp(p, q)[0]
            if op == 'Le':
                return icmp(p, q)[1]
            if op == 'Gt':
                return NOT(icmp(p, q)[1])
            if op == 'Ge':
                return NOT(icmp(p, q)[0])
            lt, le = icmp(p, q)
            e = AND(le, NOT(lt))
            return e if op == 'Eq' else NOT(e)
        return lift(f, a, b)
    s = fcmp(a, b)
    tab = {'Lt': [1, 0, 0], 'Le': [1, 1, 0], 'Gt': [0, 0, 1], 'Ge': [0, 1, 1], 'Eq': [0, 1, 0], 'Ne': [1, 0, 1]}[op]
    return select(s, [K(x) for x in tab])


def fcmp(a, b):
    """selector of the sign of a-b"""
    return lift(lambda p, q: sgn(num_add(num(p), num(q), -1)), a, b)
