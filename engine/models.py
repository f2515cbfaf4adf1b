"""Meaning of the library operations the analysed code uses, as operations on value graphs."""
from terms import *
import terms
from coll import *
import coll
from mir import core_ty, kind_of, elem_ty, tk_of, SETS, MAPS, SEQ
from interp import (ptr, TUP, iter_of, fid_of, fcmp, compare, idiv, irem, read_path, write_path, coerce, coerce_num, deep,
                    has_ptr, is_callable, mput_v, mdel_v, MEMPTY, RANGE, RANGEI, AnyTy, setnth, int_eq, idiv, irem)
import re

ORDERING = 'core::cmp::Ordering'
RESULT = 'core::result::Result'
CFLOW = 'core::ops::control_flow::ControlFlow'

for _p, _vs in ((OPTION, [('None', []), ('Some', ['0'])]), (RESULT, [('Ok', ['0']), ('Err', ['0'])]),
                (CFLOW, [('Continue', ['0']), ('Break', ['0'])]),
                (ORDERING, [('Less', []), ('Equal', []), ('Greater', [])])):
    if _p not in terms.ADTS:
        terms.ADTS[_p] = {'kind': 'enum', 'variants': [
            {'name': n, 'fields': f, 'discr': str(i if _p != ORDERING else i - 1)} for i, (n, f) in enumerate(_vs)]}
for _p in (RANGE, RANGEI):
    terms.REC_FIELDS.setdefault(_p, ['start', 'end'])
    if _p not in terms.ADTS:
        terms.ADTS[_p] = {'kind': 'struct', 'variants': [{'name': 'Range', 'fields': ['start', 'end'], 'discr': '0'}]}


def enum2(path, tag, a, b):
    return mk('enum', path, tag, ((a,), (b,)))


def OK(v):
    return enum2(RESULT, K(0), v, BOT)


def ERR(v):
    return enum2(RESULT, K(1), BOT, v)


def as_enum(v, path):
    if v is BOT:
        return mk('enum', path, BOT, tuple(tuple(BOT for _ in x['fields']) for x in enum_variants(path)))
    if v.op != 'enum':
        return enum_expand(v, path)
    return v


def as_opt(v):
    return as_enum(v, OPTION)


def some(v):
    return select(v.a[1], [FALSE, TRUE])


def pay(v, i=1):
    return v.a[2][i][0]


def ordering(sel):
    return mk('enum', ORDERING, sel, ((), (), ()))


# ------------------------------------------------------------------ structural pieces
def rest_leaf(t):
    """sequence without its first element"""
    if t.op == 'coll':
        ps = list(t.a[1:])
        if not ps:
            return t
        ss, gg, c, e = part_open(ps[0])
        if not ss:
            if c is TRUE:
                return mkcoll(t.a[0], ps[1:])
        elif len(ss) == 1 and c is TRUE and gg[0].op == 'src' and gg[0].a[0] == 'seq' and len(ps) == 1:
            return mkcoll(t.a[0], [mkpart(ss, [mk('src', 'seq', rest_leaf(gg[0].a[1]))], c, e)])
        elif len(ss) == 1 and c is TRUE and gg[0].op == 'range' and len(ps) == 1:
            lo, hi = gg[0].a
            g = mkrange(num_add(num(lo), ONE), hi)
            return mkcoll(t.a[0], [mkpart(ss, [g], c, e)])
    return mk('tail', t)


def rest(v):
    return vmap(rest_leaf, as_leaf(v, 'seq'))


REBUILD['tail'] = lambda t: rest(to_leaf(t))


def rev_leaf(t):
    if t.op == 'rev':
        return t.a[0]
    if t.op == 'coll':
        out = []
        for p in reversed(t.a[1:]):
            ss, gg, c, e = part_open(p)
            if not ss:
                out.append(p)
            elif len(ss) == 1 and gg[0].op == 'src' and gg[0].a[0] == 'seq':
                out.append(mkpart(ss, [mk('src', 'seq', rev_leaf(gg[0].a[1]))], c, e))
            elif len(ss) == 1 and gg[0].op == 'range':
                # s -> lo + hi - 1 - s
                lo, hi = num(gg[0].a[0]), num(gg[0].a[1])
                s2 = sym('b')
                r = num_add(num_add(num_add(lo, hi), ONE, -1), num(s2), -1)
                m = {ss[0]: r}
                out.append(mkpart([s2], [gg[0]], subst(c, m), subst(e, m)))
            elif len(ss) == 1:
                out.append(p)
            else:
                return mk('rev', t)
        return mkcoll(t.a[0], out)
    return mk('rev', t)


def rev(v):
    return vmap(rev_leaf, as_leaf(v, 'seq'))


REBUILD['rev'] = lambda t: rev(to_leaf(t))


def coll_blk(elems_coll):
    """several elements produced at one step, kept together"""
    return elems_coll


def index_form(t):
    """leaf sequence -> (length, function of an index value) or None"""
    if t.op == 'tail':
        f = index_form(t.a[0])
        return num_add(f[0], ONE, -1), lambda i: nth(t, i)
    if t.op != 'coll':
        return num(mk('len', t)), lambda i: nth(t, i)
    ps = t.a[1:]
    if all(p.a[1] == 0 and p.a[2] is TRUE for p in ps):
        return const(len(ps)), lambda i: nth(t, i)
    if len(ps) != 1 or ps[0].a[1] != 1:
        return None
    ss, gg, c, e = part_open(ps[0])
    if c is not TRUE:
        return None
    if gg[0].op == 'src' and gg[0].a[0] == 'seq' and gg[0].a[1].op != 'coll':
        n, g = index_form(gg[0].a[1])
        return n, lambda i: subst(e, {ss[0]: g(i)})
    if gg[0].op == 'range':
        lo, hi = num(gg[0].a[0]), num(gg[0].a[1])
        return num_add(hi, lo, -1), lambda i: subst(e, {ss[0]: vadd(lo, i)})
    return None


def ranged(n, f):
    """coll of f(i), i in 0..n"""
    if n.op == 'case':
        return None
    c = const_of(n)
    if c is not None and c <= 8:
        return mkcoll('seq', [mkpart([], [], TRUE, f(const(i))) for i in range(int(c))])
    s = sym('b')
    return comp('seq', [(s, mkrange(ZERO, n))], TRUE, f(s_num(s)))


def s_num(s):
    return num(s)


def opq_iter(why, *vs):
    return iter_of(opq(why, *[to_leaf(v) for v in vs]))


def items_of(M, tk):
    def f(t):
        if t.op == 'mempty':
            return empty('seq')
        s = sym('b')
        val = r_proj(mget(tk, t, s), 'Some.0')
        return mkcoll('seq', [mkpart([s], [mk('src', 'keys', t)], TRUE, TUP(s, val))])
    return vmap(f, to_leaf(M))


def keys_of(M):
    def f(t):
        if t.op == 'mempty':
            return empty('seq')
        s = sym('b')
        return mkcoll('seq', [mkpart([s], [mk('src', 'keys', t)], TRUE, s)])
    return vmap(f, to_leaf(M))


def values_of(M, tk):
    return cmap(items_of(M, tk), 'seq', lambda e: proj(e, '1'))


def seq_of(v, kind, tk='?'):
    """any iterable value as a sequence"""
    if kind == 'map':
        return items_of(v, tk)
    if kind == 'opt':
        v = as_opt(v)
        return add_elem('seq', empty('seq'), pay(v), some(v))
    if kind == 'set':
        return convert('seq', v, 'set')
    if is_comp(v):
        v = to_leaf(v)
    return as_leaf(v, 'seq')


def range_seq(lo, hi):
    lo, hi = tonumv(lo), tonumv(hi)

    def f(a, b):
        a, b = num(a), num(b)
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None and cb - ca <= 12:
            return mkcoll('seq', [mkpart([], [], TRUE, const(i)) for i in range(int(ca), int(cb))])
        s = sym('b')
        return mkcoll('seq', [mkpart([s], [mkrange(a, b)], TRUE, num(s))])
    return lift(f, lo, hi)


def item_ty(t):
    """item type of an iterator type, as far as it is visible"""
    c = core_ty(t)
    p = c.path or ''
    if c.k == 'closure':
        return None
    a = [x for x in c.args]
    if p.startswith('core::iter::adapters'):
        n = p.split('::')[-1]
        if n in ('Cloned', 'Copied', 'Filter', 'Rev', 'Chain', 'Skip', 'Take', 'StepBy', 'Peekable', 'Fuse',
                 'SkipWhile', 'TakeWhile', 'Inspect', 'Cycle'):
            return item_ty(a[0])
        if n in ('Map', 'FilterMap', 'FlatMap') and len(a) > 1:
            f = a[1] if n != 'FlatMap' else a[2] if len(a) > 2 else a[1]
            r = ret_ty(f)
            if r is None:
                return None
            if n == 'Map':
                return r
            return elem_of(r)
        if n == 'Flatten':
            r = item_ty(a[0])
            return elem_of(r) if r is not None else None
        return None
    if p.endswith('::slice::iter::Iter') or p.endswith('IntoIter') or p.endswith('hash::set::Iter') \
            or p.endswith('option::Iter') or p.endswith('map::Keys'):
        return a[0] if a else None
    if p.endswith('map::Values'):
        return a[1]
    if p == RANGE or p == RANGEI:
        return a[0]
    return elem_ty(c)


_ret = {}


def ret_ty(t):
    c = core_ty(t)
    if c.k == 'closure':
        b = _ret.get('prog')
        for prog in _ret.get('progs', []):
            x = prog.bodies.get(c.path)
            if x is not None:
                return x.locals[0]
    return None


def elem_of(t):
    c = core_ty(t)
    if kind_of(t) in ('seq', 'set', 'opt'):
        return elem_ty(t)
    if c.path and 'iter' in c.path:
        return item_ty(t)
    return elem_ty(t)


def flat_kind(t):
    """how to iterate over values of this type: (kind, key type)"""
    if t is None:
        return None, None
    k = kind_of(t)
    if k == 'map':
        return 'map', tk_of(core_ty(t).args[0])
    if k in ('seq', 'set', 'opt'):
        return k, None
    c = core_ty(t)
    if c.path == RESULT:
        return 'res', None
    if c.path and ('::iter' in c.path or 'Iter' in c.path or c.path in (RANGE, RANGEI)):
        return 'iter', None
    return None, None


def flatten_elem(I, e, kind):
    """element value -> sequence value or None"""
    if e.op == 'rec' and e.a[0] == 'iter':
        return e.a[1]
    if e.op == 'enum' and e.a[0] == OPTION:
        return seq_of(e, 'opt')
    if e.op == 'enum' and e.a[0] == RESULT:
        return add_elem('seq', empty('seq'), pay(e, 0), select(e.a[1], [TRUE, FALSE]))
    if e.op == 'coll':
        return seq_of(e, e.a[0])
    if kind == 'res':
        e = as_enum(e, RESULT)
        return add_elem('seq', empty('seq'), pay(e, 0), select(e.a[1], [TRUE, FALSE]))
    if kind in ('seq', 'set', 'opt'):
        return seq_of(e, kind)
    return None


# ------------------------------------------------------------------ equality by type
def eq_ty(t, a, b):
    c = core_ty(t)
    if c.k in ('int', 'char'):
        return compare('Eq', a, b, c)
    if c.k == 'float':
        return compare('Eq', a, b, c)
    if c.k == 'bool':
        return ite(a, b, NOT(b))
    if kind_of(c) == 'str':
        return eq_str(a, b)
    if c.k == 'tuple':
        r = TRUE
        for i, x in enumerate(c.args):
            r = AND(r, eq_ty(x, coerce(proj(a, str(i)), x), coerce(proj(b, str(i)), x)))
        return r
    if c.k == 'adt' and c.path == OPTION:
        a, b = as_opt(a), as_opt(b)
        sa, sb = some(a), some(b)
        t0 = c.args[0]
        both = AND(sa, sb)
        e = eq_ty(t0, coerce(pay(a), t0), coerce(pay(b), t0)) if both is not FALSE else FALSE
        return ite(sa, AND(sb, e), NOT(sb))
    if c.k == 'adt':
        a0 = ADTS.get(c.path)
        if a0 is not None and a0['kind'] == 'enum' and c.path not in EQ:
            a, b = as_enum(a, c.path), as_enum(b, c.path)
            n = len(a0['variants'])
            r = FALSE
            rows = []
            for i in range(n):
                hit = select(b.a[1], [TRUE if j == i else FALSE for j in range(n)])
                for j in range(len(a0['variants'][i]['fields'])):
                    hit = AND(hit, eq_opaque('?', a.a[2][i][j], b.a[2][i][j]))
                rows.append(hit)
            return select(a.a[1], rows)
    return eq_by(tk_of(t), a, b)


STRS = {}


def set_strings(names):
    STRS.clear()
    for i, s in enumerate(sorted(names)):
        STRS[s] = i


# functions without a model that the specification refers to
KNOWN = set()
# calls with an effect outside the program
WORLD = ('std::fs::', 'std::io::stdio::', 'std::process::', 'nlsn_delaunay::glium_interface::display::new',
         'nlsn_delaunay::glium_interface::edges::draw', 'structopt::')


def set_known(names):
    KNOWN.clear()
    KNOWN.update(names)


def str_tag(v):
    n = len(STRS) + 1

    def f(t):
        if t.op == 'str':
            return K(STRS.get(t.a[0], n - 1))
        return atomv(mk('a:tag', t, n))
    return vmap(f, to_leaf(v))


def eq_str(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == 'str' and y.op == 'str':
            return FALSE
        for u, w in ((x, y), (y, x)):
            if w.op == 'str' and w.a[0] in STRS:
                n = len(STRS) + 1
                return select(str_tag(u), [TRUE if i == STRS[w.a[0]] else FALSE for i in range(n)])
        return eq_opaque('str', x, y)
    return lift(f, to_leaf(a), to_leaf(b))


_old_tagv = terms.tagv


def tagv_str(v, n):
    if v.op == 'enum':
        return v.a[1]

    def f(t):
        if t.op == 'k':
            return t
        if t.op == 'E':
            return K(t.a[1])
        if t.op == 'str':
            return K(STRS.get(t.a[0], n - 1))
        return atomv(mk('a:tag', t, n))
    return vmap(f, v)


terms.tagv = tagv_str


# ------------------------------------------------------------------ matrices
def mat_dims(s):
    m = re.search(r'matrix::Matrix<[^,]*, nalgebra::base::dimension::U(\d+), nalgebra::base::dimension::U(\d+)', s)
    return (int(m.group(1)), int(m.group(2))) if m else None


def MAT(r, c, es):
    return mk('rec', 'matrix:%dx%d' % (r, c), *es)


def mat_of(v):
    if v.op == 'rec' and v.a[0].startswith('matrix:'):
        r, c = v.a[0][7:].split('x')
        r, c = int(r), int(c)
        es = v.a[1:]
        return r, c, [[es[i * c + j] for j in range(c)] for i in range(r)]
    return None


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = ZERO
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = vmul(m[0][j], det(minor))
        r = vadd(r, t) if j % 2 == 0 else vsub(r, t)
    return r


def is_zero(v):
    return select(nlift(sgn, v), [FALSE, TRUE, FALSE])


def inverse(m):
    n = len(m)
    d = det(m)
    if n == 1:
        return [[vdiv(ONE, d)]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
            c = det(minor)
            if (i + j) % 2:
                c = vneg(c)
            out[i][j] = vdiv(c, d)
    return out


def flatm(m):
    return [x for row in m for x in row]


def prod(a, b):
    return [[_dot([a[i][k] for k in range(len(b))], [b[k][j] for k in range(len(b))])
             for j in range(len(b[0]))] for i in range(len(a))]


def _dot(xs, ys):
    r = ZERO
    for x, y in zip(xs, ys):
        r = vadd(r, vmul(x, y))
    return r


# ------------------------------------------------------------------ the table
M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


IT = 'core::iter::traits::iterator::Iterator::'
VEC = 'alloc::vec::Vec::'
HS = 'std::collections::hash::set::HashSet::'
HM = 'std::collections::hash::map::HashMap::'
OP = 'core::option::Option::'
RS = 'core::result::Result::'


def seq_arg(c, i=0):
    """argument i as a sequence (collections, ranges, options, iterators)"""
    v = c.load(i)
    if v.op == 'ptr':
        v = c.I.load(c.st, v)
    return to_seq(c, v, c.tys[i])


def to_seq(c, v, ty):
    if v.op == 'rec' and v.a[0] == 'iter':
        return v.a[1]
    if v.op == 'rec' and v.a[0] == RANGE:
        return range_seq(v.a[1], v.a[2])
    if v.op == 'rec' and v.a[0] == RANGEI:
        return range_seq(v.a[1], vadd(v.a[2], ONE))
    if v is BOT:
        return empty('seq')
    k, tk = flat_kind(ty)
    if k in ('seq', 'set', 'map', 'opt'):
        return seq_of(v, k, tk or '?')
    if v.op == 'coll':
        return seq_of(v, v.a[0])
    if k == 'iter' or k is None:
        if v.op == 'case':
            return vmap(lambda t: t, v)
        if ty.k == 'adt' and ty.path in (RANGE, RANGEI):
            return range_seq(proj(v, 'start'), vadd(proj(v, 'end'), ZERO if ty.path == RANGE else ONE))
    return opq('iter', to_leaf(v))


def deepv(c, v):
    return deep(c.I, c.st, v) if has_ptr(v) else v


def elem_tk(c, i=0):
    e = elem_ty(c.tys[i])
    return tk_of(e) if e is not None else '?'


def key_tk(c, i=0):
    return tk_of(core_ty(c.tys[i]).args[0]) if core_ty(c.tys[i]).args else '?'


def store0(c, v):
    a = c.args[0]
    if has_ptr(a):
        c.I.store(c.st, a, v)
    else:
        c.I.note('update through untracked reference: ' + c.fn['path'])


def ident(c):
    return c.args[0]


for _n in ('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'alloc::rcs::rc::Rc::new',
           'alloc::boxed::Box::new', 'core::cell::RefCell::new', 'core::cell::RefCell::borrow',
           'core::cell::RefCell::borrow_mut', 'core::cell::RefCell::into_inner', 'core::cell::RefCell::get_mut',
           'alloc::string::String::as_str', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow',
           'core::borrow::BorrowMut::borrow_mut', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice',
           'alloc::rc::Rc::new', 'core::ops::index::IndexFull', 'core::hint::black_box',
           'core::convert::identity', 'alloc::vec::Vec::into_boxed_slice', 'core::hint::must_use',
           'core::cell::Cell::new', 'core::cell::Ref::clone', '<[T]>::as_ref', '<str>::as_ref',
           'alloc::rcs::rc::Rc::as_ref', 'core::mem::ManuallyDrop::new'):
    M[_n] = ident


@model('core::ops::deref::DerefMut::deref_mut', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut')
def m_deref_mut(c):
    p = c.args[0]
    if p.op != 'ptr':
        return p
    # a guard kept in a local leads on to what it guards
    return c.I.through(c.I.load(c.st, p), p)


@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', '<[T]>::to_vec', 'alloc::slice::to_vec',
       'core::clone::Clone::clone_from_unused')
def m_clone(c):
    v = c.load(0)
    if v.op == 'ptr':
        v = c.I.load(c.st, v)
    return v


@model('alloc::string::ToString::to_string', 'core::convert::Into::into', 'core::convert::From::from',
       'alloc::string::String::from', '<str>::to_string', 'alloc::str::to_owned', '<str>::to_owned',
       '<[T]>::into_vec', 'core::convert::TryInto::try_into_unused')
def m_into(c):
    v = c.load(0)
    if v.op == 'ptr':
        v = c.I.load(c.st, v)
    st, dt = core_ty(c.tys[0]), core_ty(c.dty)
    if st.s == dt.s or (kind_of(st) == 'str' and kind_of(dt) == 'str') or (
            st.k in ('int', 'float') and dt.k in ('int', 'float')):
        return v
    k1, k2 = kind_of(st), kind_of(dt)
    if k1 == 'seq' and k2 in ('seq', 'set'):
        return convert(k2, v, 'seq') if k2 != 'seq' else v
    if k2 == 'opt' and k1 != 'opt':
        return SOME(v)
    leaf = to_leaf(deepv(c, v))
    return coerce(lift(lambda l: mk('call', 'into:' + tk_of(dt), l), leaf), c.dty)


@model('core::mem::drop', 'core::mem::forget')
def m_drop(c):
    return UNIT


@model('core::mem::take')
def m_take(c):
    v = c.load(0)
    d = default_of(core_ty(c.tys[0]))
    if d is None:
        return None
    store0(c, d)
    return v


@model('core::mem::replace')
def m_replace(c):
    v = c.load(0)
    store0(c, c.args[1])
    return v


@model('core::mem::swap')
def m_swap(c):
    a, b = c.load(0), c.load(1)
    c.I.store(c.st, c.args[0], b)
    c.I.store(c.st, c.args[1], a)
    return UNIT


def default_of(t):
    k = kind_of(t)
    if k in ('seq', 'set'):
        return empty(k)
    if k == 'map':
        return MEMPTY
    if k == 'opt':
        return NONE()
    if t.k in ('int', 'float'):
        return ZERO
    if t.k == 'bool':
        return FALSE
    if k == 'str':
        return mk('str', '')
    return None


@model('core::default::Default::default')
def m_default(c):
    d = default_of(core_ty(c.dty))
    return d if d is not None else coerce(mk('call', 'default:' + tk_of(c.dty)), c.dty)


# ---- boxes used by vec![]
@model('alloc::boxed::Box::new_uninit')
def m_new_uninit(c):
    cell = ('H', c.fid, 'box')
    c.st[cell] = BOT
    return ptr(cell)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(c):
    v = c.args[0]
    cell = v.a[0] if v.op == 'ptr' else None
    r = c.I.load(c.st, v)
    if cell is not None:
        c.st.pop(cell, None)
    return r


@model('alloc::vec::from_elem', 'alloc::vec::from_elem::from_elem')
def m_from_elem(c):
    n = const_of(tonumv(c.val(1))) if c.val(1).op != 'case' else None
    if n is not None and n <= 8:
        return mkcoll('seq', [mkpart([], [], TRUE, c.load(0))] * int(n))
    s = sym('b')
    return mkcoll('seq', [mkpart([s], [mkrange(ZERO, num(to_leaf(c.val(1))))], TRUE, c.load(0))])


# ---- sequences
@model(VEC + 'new', VEC + 'with_capacity')
def m_vnew(c):
    return empty('seq')


@model(HS + 'new', HS + 'with_capacity', HS + 'with_hasher')
def m_snew(c):
    return empty('set')


@model(HM + 'new', HM + 'with_capacity', HM + 'with_hasher')
def m_mnew(c):
    return MEMPTY


@model(VEC + 'reserve', VEC + 'shrink_to_fit', HS + 'reserve', HM + 'reserve', HS + 'shrink_to_fit', HM + 'shrink_to_fit')
def m_reserve(c):
    return UNIT


def kindval(c, i=0):
    k = kind_of(c.tys[i])
    v = c.load(i)
    if is_comp(v):
        v = to_leaf(v)
    return k, (as_leaf(v, k) if k in ('seq', 'set') else v)


@model(VEC + 'len', HS + 'len', HM + 'len', '<[T]>::len', 'alloc::string::String::len', '<str>::len')
def m_len(c):
    k, v = kindval(c)
    return length('map' if k in ('map', 'str') else k, v)


@model(VEC + 'is_empty', HS + 'is_empty', HM + 'is_empty', '<[T]>::is_empty', 'alloc::string::String::is_empty', '<str>::is_empty')
def m_is_empty(c):
    k, v = kindval(c)
    if k == 'str':
        return eq_str(v, mk('str', ''))
    return NOT(nonempty(k, v))


@model(VEC + 'push')
def m_push(c):
    store0(c, add_elem('seq', kindval(c)[1], elem(c, 1)))
    return UNIT


def elem(c, i):
    """an element going into a collection"""
    v = c.args[i]
    if has_ptr(v):
        if c.tys[i].k == 'ref' and c.tys[i].mut:
            return opq('mut ref element')
        v = deepv(c, v)
    return v


@model(VEC + 'pop')
def m_pop(c):
    _, v = kindval(c)
    ne = nonempty('seq', v)
    l = last(v)
    store0(c, init(v))
    return coerce_opt(c, OPT(ne, l))


def coerce_opt(c, o):
    t = core_ty(c.dty)
    if t.path == OPTION and t.args and o.op == 'enum':
        x = pay(o)
        return OPT(o.a[1], coerce(x, t.args[0]))
    return o


@model(VEC + 'insert')
def m_vinsert(c):
    _, v = kindval(c)
    i = to_leaf(c.val(1))
    e = elem(c, 2)
    if i.op == 'poly' and const_of(i) == 0:
        store0(c, add_elem('seq', v, e, TRUE, True))
    else:
        d = length('seq', v)
        if d is i:
            store0(c, add_elem('seq', v, e))
        else:
            store0(c, lift(lambda t, j, x: mk('insertat', t, j, x), v, i, to_leaf(e)))
    return UNIT


@model(VEC + 'remove')
def m_vremove(c):
    _, v = kindval(c)
    i = tonumv(to_leaf(c.val(1)))
    r = nth(v, i)
    if i.op == 'poly' and const_of(i) == 0:
        store0(c, rest(v))
    else:
        store0(c, lift(lambda t, j: removeat(t, j), v, i))
    return coerce(r, c.dty)


def removeat(t, j):
    j = num(j)
    d = num_add(j, num(mk('len', t)), -1) if t.op != 'coll' else None
    if d is not None and const_of(d) == -1:
        return init_leaf(t)
    if const_of(j) == 0:
        return rest_leaf(t)
    return mk('removeat', t, j)


REBUILD['removeat'] = lambda t, j: lift(removeat, as_leaf(to_leaf(t), 'seq'), tonumv(to_leaf(j)))


@model(VEC + 'swap_remove')
def m_swap_remove(c):
    _, v = kindval(c)
    i = to_leaf(c.val(1))
    r = nth(v, i)
    store0(c, lift(lambda t, j: mk('swap_remove', t, j), v, i))
    return coerce(r, c.dty)


@model(VEC + 'append')
def m_append(c):
    _, v = kindval(c)
    _, w = kindval(c, 1)
    store0(c, union('seq', v, w))
    c.I.store(c.st, c.args[1], empty('seq'))
    return UNIT


@model(VEC + 'extend_from_slice')
def m_extend_slice(c):
    _, v = kindval(c)
    store0(c, union('seq', v, seq_arg(c, 1)))
    return UNIT


@model('core::iter::traits::collect::Extend::extend')
def m_extend(c):
    k, v = kindval(c)
    xs = mat(c, seq_arg(c, 1))
    if k == 'map':
        store0(c, map_from(v, xs))
    else:
        store0(c, union(k, v, xs, 'seq'))
    return UNIT


@model(VEC + 'clear', HS + 'clear')
def m_clear(c):
    store0(c, empty(kind_of(c.tys[0])))
    return UNIT


@model(HM + 'clear')
def m_mclear(c):
    store0(c, MEMPTY)
    return UNIT


@model(VEC + 'drain', HS + 'drain', HM + 'drain')
def m_drain(c):
    k = kind_of(c.tys[0])
    v = c.load(0)
    if k == 'seq' and len(c.args) > 1:
        r = c.load(1)
        if not (r.op == 'rec' and 'RangeFull' in r.a[0]):
            return None
    store0(c, MEMPTY if k == 'map' else empty(k))
    return iter_of(seq_of(v, k, key_tk(c) if k == 'map' else '?'))


@model(VEC + 'truncate')
def m_truncate(c):
    _, v = kindval(c)
    store0(c, lift(lambda t, n: mk('take', t, n), v, to_leaf(c.val(1))))
    return UNIT


@model('<[T]>::reverse')
def m_reverse(c):
    store0(c, rev(kindval(c)[1]))
    return UNIT


@model(VEC + 'dedup')
def m_dedup(c):
    _, v = kindval(c)
    store0(c, vmap(lambda t: mk('dedup', elem_tk(c), t), v))
    return UNIT


@model(VEC + 'retain', HS + 'retain')
def m_retain(c):
    k, v = kindval(c)
    f = pure_fn(c, c.args[1])
    r = cfilter(v, k, lambda e: boolv1(f(e)))
    if f.bad:
        return None
    store0(c, r)
    return UNIT


def boolv1(v):
    return v if v is None or v is BOT or v.op in ('case', 'k') else asbool(v)


class PureFn(object):
    """a callable used as a function of its arguments"""

    def __init__(self, c, f):
        self.c, self.f, self.bad = c, f, False

    def __call__(self, *args):
        v = self.c.I.pure(self.c, self.f, list(args))
        if v is None:
            self.bad = True
            self.c.I.note('callable with effects in ' + self.c.fn['path'])
            return opq('effects')
        return v


def pure_fn(c, f):
    return PureFn(c, f)


@model(VEC + 'contains', '<[T]>::contains')
def m_vcontains(c):
    _, v = kindval(c)
    return contains(elem_tk(c), 'seq', v, deepv(c, c.load(1)))


@model('<[T]>::get', '<[T]>::get_unchecked')
def m_get(c):
    _, v = kindval(c)
    i = c.val(1)
    if i.op == 'rec':
        return None
    ok, e = get(v, tonumv(to_leaf(i)))
    if c.fn['name'] == 'get_unchecked':
        return coerce(e, c.dty)
    return coerce_opt(c, OPT(ok, e))


@model('<[T]>::get_mut')
def m_get_mut(c):
    _, v = kindval(c)
    i = tonumv(to_leaf(c.val(1)))
    ok, e = get(v, i)
    return OPT(ok, c.I.ext(c.args[0], ('i', i)))


@model('<[T]>::first')
def m_first(c):
    _, v = kindval(c)
    return coerce_opt(c, OPT(nonempty('seq', v), nth(v, ZERO)))


@model('<[T]>::last')
def m_last(c):
    _, v = kindval(c)
    return coerce_opt(c, OPT(nonempty('seq', v), last(v)))


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(c):
    k = kind_of(c.tys[0])
    if k == 'map':
        v = c.load(0)
        got = mget(key_tk(c), v, deepv(c, c.load(1)))
        c.I.pan(nobot(NOT(some(got))))
        return coerce(r_proj(got, 'Some.0'), c.dty)
    m = mat_of(c.load(0))
    if m is not None:
        i = c.val(1)
        r, cc, rows = m
        if i.op == 'poly' and const_of(i) is not None:
            ix = int(const_of(i))
            return rows[ix % r][ix // r]
        if i.op == 'rec':
            a, b = const_of(i.a[1]), const_of(i.a[2])
            if a is not None and b is not None:
                return rows[int(a)][int(b)]
        return None
    if k != 'seq':
        return None
    i = c.val(1)
    if i.op == 'rec':
        return slice_range(c, i)
    i = tonumv(to_leaf(i))
    if c.fn['name'] == 'index_mut':
        return c.I.ext(c.args[0], ('i', i))
    if c.I.track:
        ok, _ = get(kindval(c)[1], i)
        c.I.pan(nobot(NOT(ok)))
    return coerce(nth(kindval(c)[1], i), c.dty)


def slice_range(c, r):
    v = kindval(c)[1]
    n = r.a[0].split('::')[-1]
    if n == 'RangeFull':
        return v
    if n == 'RangeFrom':
        lo, hi = r.a[1], None
    elif n == 'RangeTo':
        lo, hi = ZERO, r.a[1]
    elif n == 'Range':
        lo, hi = r.a[1], r.a[2]
    else:
        return None
    return sub_seq(v, lo, hi)


def sub_seq(v, lo, hi):
    L = length('seq', v)
    if lo.op == 'case' or L.op == 'case' or (hi is not None and hi.op == 'case') or v.op == 'case':
        return None
    f = index_form(v)
    if f is None:
        return None
    n, at = f
    h = hi if hi is not None else n
    return ranged(num_add(num(h), num(lo), -1), lambda i: at(vadd(num(lo), i)))


@model('<[T]>::iter', HS + 'iter', 'core::iter::traits::collect::IntoIterator::into_iter', HS + 'into_iter',
       OP + 'iter', OP + 'into_iter', HM + 'iter', HM + 'into_iter')
def m_iter(c):
    v = c.args[0]
    ty = c.tys[0]
    if ty.k == 'ref' and ty.mut and has_ptr(v) and not iterator_type(ty):
        return None
    v = c.load(0)
    if v.op == 'rec' and v.a[0] == 'iter':
        return v
    return iter_of(to_seq(c, v, ty))


def iterator_type(ty):
    k, _ = flat_kind(ty)
    return k == 'iter'


@model('<[T]>::iter_mut', HM + 'iter_mut', HM + 'values_mut')
def m_iter_mut(c):
    return None


@model(HM + 'keys', HM + 'into_keys')
def m_keys(c):
    return iter_of(keys_of(c.load(0)))


@model(HM + 'values', HM + 'into_values')
def m_values(c):
    return iter_of(values_of(c.load(0), key_tk(c)))


@model('<[T]>::windows')
def m_windows(c):
    f = index_form(kindval(c)[1])
    n = const_of(to_leaf(c.val(1)))
    if f is None or n is None:
        return None
    L, at = f
    k = int(n)
    r = ranged(num_add(L, const(k - 1), -1),
               lambda i: mkcoll('seq', [mkpart([], [], TRUE, at(vadd(i, const(j)))) for j in range(k)]))
    return iter_of(r)


@model('<[T]>::chunks')
def m_chunks(c):
    return chunked(c, lambda L, k: idiv(vadd(L, const(k - 1)), const(k)))


@model('<[T]>::chunks_exact')
def m_chunks_exact(c):
    return chunked(c, lambda L, k: idiv(L, const(k)))


def chunked(c, count):
    f = index_form(kindval(c)[1])
    n = const_of(to_leaf(c.val(1)))
    if f is None or n is None:
        return None
    L, at = f
    k = int(n)
    r = ranged(num(to_leaf(count(L, k))),
               lambda i: mkcoll('seq', [mkpart([], [], TRUE, at(vadd(vmul(i, const(k)), const(j)))) for j in range(k)]))
    return iter_of(r)


@model('<[T]>::swap')
def m_slswap(c):
    _, v = kindval(c)
    i, j = to_leaf(c.val(1)), to_leaf(c.val(2))
    a, b = nth(v, i), nth(v, j)
    store0(c, setnth(setnth(v, i, b), j, a))
    return UNIT


@model('<[T]>::concat')
def m_concat(c):
    k, v = kindval(c)
    return flat(c, v, elem_ty(c.tys[0]))


@model('<[T]>::sort_by', '<[T]>::sort_unstable_by')
def m_sort_by(c):
    _, v = kindval(c)
    a, b = sym('b'), sym('b')
    f = pure_fn(c, c.args[1])
    r = f(a, b)
    if f.bad:
        return None
    if r.op != 'enum':
        r = as_enum(r, ORDERING)
    l = lam([a, b], [r.a[1]])
    store0(c, vmap(lambda t: mk('sortby', l, t), v))
    return UNIT


@model('<[T]>::sort_by_key', '<[T]>::sort_unstable_by_key', '<[T]>::sort_by_cached_key')
def m_sort_by_key(c):
    _, v = kindval(c)
    a = sym('b')
    f = pure_fn(c, c.args[1])
    r = f(a)
    if f.bad:
        return None
    l = lam([a], [to_leaf(r)])
    store0(c, vmap(lambda t: mk('sortkey', l, t), v))
    return UNIT


@model('<[T]>::sort', '<[T]>::sort_unstable')
def m_sort(c):
    _, v = kindval(c)
    tk = elem_tk(c)
    store0(c, vmap(lambda t: mk('sorted', tk, t), v))
    return UNIT


# ---- sets
@model(HS + 'insert')
def m_sinsert(c):
    k, v = kindval(c)
    e = elem(c, 1)
    r = NOT(contains(elem_tk(c), 'set', v, e))
    store0(c, add_elem('set', v, e))
    return r


@model(HS + 'contains')
def m_scontains(c):
    k, v = kindval(c)
    return contains(elem_tk(c), 'set', v, deepv(c, c.load(1)))


@model(HS + 'remove')
def m_sremove(c):
    k, v = kindval(c)
    e = deepv(c, c.load(1))
    r = contains(elem_tk(c), 'set', v, e)
    store0(c, remove_elem(elem_tk(c), 'set', v, e))
    return r


@model(HS + 'take')
def m_stake(c):
    k, v = kindval(c)
    e = deepv(c, c.load(1))
    r = contains(elem_tk(c), 'set', v, e)
    store0(c, remove_elem(elem_tk(c), 'set', v, e))
    return coerce_opt(c, OPT(r, e))


@model(HS + 'get')
def m_sget(c):
    k, v = kindval(c)
    e = deepv(c, c.load(1))
    return coerce_opt(c, OPT(contains(elem_tk(c), 'set', v, e), e))


@model(HS + 'replace')
def m_sreplace(c):
    k, v = kindval(c)
    e = elem(c, 1)
    r = contains(elem_tk(c), 'set', v, e)
    store0(c, add_elem('set', v, e))
    return coerce_opt(c, OPT(r, e))


@model(HS + 'union')
def m_sunion(c):
    return iter_of(convert('seq', union('set', kindval(c)[1], kindval(c, 1)[1]), 'set'))


@model(HS + 'difference')
def m_sdiff(c):
    tk = elem_tk(c)
    w = kindval(c, 1)[1]
    return iter_of(convert('seq', cfilter(kindval(c)[1], 'set', lambda e: NOT(contains(tk, 'set', w, e))), 'set'))


@model(HS + 'intersection')
def m_sinter(c):
    tk = elem_tk(c)
    w = kindval(c, 1)[1]
    return iter_of(convert('seq', cfilter(kindval(c)[1], 'set', lambda e: contains(tk, 'set', w, e)), 'set'))


@model(HS + 'is_subset')
def m_ssubset(c):
    tk = elem_tk(c)
    w = kindval(c, 1)[1]
    return NOT(any_elem(kindval(c)[1], 'set', lambda e: NOT(contains(tk, 'set', w, e))))


@model(HS + 'is_disjoint')
def m_sdisj(c):
    tk = elem_tk(c)
    w = kindval(c, 1)[1]
    return NOT(any_elem(kindval(c)[1], 'set', lambda e: contains(tk, 'set', w, e)))


# ---- maps
@model(HM + 'insert')
def m_minsert(c):
    v = c.load(0)
    tk = key_tk(c)
    k = elem(c, 1)
    old = mget(tk, v, k)
    store0(c, mput_v(tk, v, k, elem(c, 2)))
    return coerce_opt(c, as_opt(old)) if old is not BOT else old


@model(HM + 'get')
def m_mget(c):
    t = c.tys[0]
    tk = key_tk(c)
    k = deepv(c, c.load(1))
    v = c.load(0)
    o = as_opt(mget(tk, v, k))
    vt = core_ty(t).args[1]
    if vt.rc and has_ptr(c.args[0]):
        return OPT(some(o), c.I.ext(c.args[0], ('k', tk, to_leaf(k))))
    return coerce_opt(c, o)


@model(HM + 'get_mut')
def m_mget_mut(c):
    tk = key_tk(c)
    k = deepv(c, c.load(1))
    o = as_opt(mget(tk, c.load(0), k))
    return OPT(some(o), c.I.ext(c.args[0], ('k', tk, to_leaf(k))))


@model(HM + 'contains_key')
def m_mhas(c):
    return some(as_opt(mget(key_tk(c), c.load(0), deepv(c, c.load(1)))))


@model(HM + 'remove')
def m_mremove(c):
    tk = key_tk(c)
    k = deepv(c, c.load(1))
    v = c.load(0)
    o = mget(tk, v, k)
    store0(c, mdel_v(tk, v, k))
    return coerce_opt(c, as_opt(o))


@model(HM + 'entry')
def m_entry(c):
    return mk('rec', 'entry', c.args[0], to_leaf(deepv(c, c.load(1))), mk('str', key_tk(c)))


ENTRY = 'std::collections::hash::map::Entry::'


def entry_insert(c, val):
    e = c.args[0]
    if not (e.op == 'rec' and e.a[0] == 'entry'):
        return None
    p, k, tk = e.a[1], e.a[2], e.a[3].a[0]
    m = c.I.load(c.st, p)
    has = some(as_opt(mget(tk, m, k)))
    c.I.store(c.st, p, ite(has, m, mput_v(tk, m, k, val)))
    return c.I.ext(p, ('k', tk, k))


@model(ENTRY + 'or_insert')
def m_or_insert(c):
    return entry_insert(c, elem(c, 1))


@model(ENTRY + 'or_insert_with')
def m_or_insert_with(c):
    f = pure_fn(c, c.args[1])
    v = f()
    return None if f.bad else entry_insert(c, v)


@model(ENTRY + 'or_default')
def m_or_default(c):
    d = default_of(core_ty(c.dty))
    return entry_insert(c, d) if d is not None else None


# ---- options and results
def opt0(c, i=0):
    v = c.load(i)
    return as_opt(v)


def inner_ty(c, i=0, j=0):
    t = core_ty(c.tys[i])
    return t.args[j] if len(t.args) > j else AnyTy


def upay(c, o):
    """payload of Some, typed"""
    t = inner_ty(c)
    return coerce(pay(o), t)


@model(OP + 'unwrap', OP + 'expect', OP + 'unwrap_unchecked')
def m_unwrap(c):
    o = opt0(c)
    c.I.pan(nobot(NOT(some(o))))
    return upay(c, o)


@model(OP + 'is_some')
def m_is_some(c):
    return some(opt0(c))


@model(OP + 'is_none')
def m_is_none(c):
    return NOT(some(opt0(c)))


@model(OP + 'unwrap_or')
def m_unwrap_or(c):
    o = opt0(c)
    return ite(some(o), upay(c, o), c.args[1])


@model(OP + 'unwrap_or_else')
def m_unwrap_or_else(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    d = f()
    return None if f.bad else ite(some(o), upay(c, o), d)


@model(OP + 'unwrap_or_default')
def m_unwrap_or_default(c):
    o = opt0(c)
    d = default_of(core_ty(c.dty))
    return ite(some(o), upay(c, o), d) if d is not None else None


@model(OP + 'map')
def m_omap(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    v = f(upay(c, o)) if some(o) is not FALSE else BOT
    return None if f.bad else OPT(some(o), v)


@model(OP + 'and_then')
def m_oand_then(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    r = f(upay(c, o))
    return None if f.bad else ite(some(o), as_opt(r), NONE())


@model(OP + 'or')
def m_oor(c):
    o = opt0(c)
    return ite(some(o), o, opt0(c, 1))


@model(OP + 'or_else')
def m_oor_else(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    r = f()
    return None if f.bad else ite(some(o), o, as_opt(r))


@model(OP + 'and')
def m_oand(c):
    return ite(some(opt0(c)), opt0(c, 1), NONE())


@model(OP + 'filter')
def m_ofilter(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    r = f(upay(c, o))
    return None if f.bad else OPT(AND(some(o), boolv1(r)), pay(o))


@model(OP + 'map_or')
def m_omap_or(c):
    o = opt0(c)
    f = pure_fn(c, c.args[2])
    r = f(upay(c, o))
    return None if f.bad else ite(some(o), r, c.args[1])


@model(OP + 'map_or_else')
def m_omap_or_else(c):
    o = opt0(c)
    f, g = pure_fn(c, c.args[2]), pure_fn(c, c.args[1])
    r, d = f(upay(c, o)), g()
    return None if f.bad or g.bad else ite(some(o), r, d)


@model(OP + 'is_some_and')
def m_is_some_and(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    r = f(upay(c, o))
    return None if f.bad else AND(some(o), boolv1(r))


@model(OP + 'is_none_or')
def m_is_none_or(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    r = f(upay(c, o))
    return None if f.bad else OR(NOT(some(o)), boolv1(r))


@model(OP + 'ok_or')
def m_ok_or(c):
    o = opt0(c)
    return enum2(RESULT, select(o.a[1], [K(1), K(0)]), pay(o), c.args[1])


@model(OP + 'ok_or_else')
def m_ok_or_else(c):
    o = opt0(c)
    f = pure_fn(c, c.args[1])
    e = f()
    return None if f.bad else enum2(RESULT, select(o.a[1], [K(1), K(0)]), pay(o), e)


@model(OP + 'cloned', OP + 'copied', OP + 'as_ref', OP + 'as_deref', RS + 'as_ref')
def m_ocloned(c):
    v = c.load(0)
    if v.op == 'ptr':
        v = c.I.load(c.st, v)
    return deepv(c, v) if c.fn['name'] in ('cloned', 'copied') else v


@model(OP + 'as_mut')
def m_oas_mut(c):
    o = opt0(c)
    return OPT(some(o), c.I.ext(c.args[0], ('v', 'Some', 0, OPTION)))


@model(OP + 'take')
def m_otake(c):
    v = c.load(0)
    store0(c, NONE())
    return v


@model(OP + 'replace')
def m_oreplace(c):
    v = c.load(0)
    store0(c, SOME(c.args[1]))
    return v


@model(OP + 'zip')
def m_ozip(c):
    a, b = opt0(c), opt0(c, 1)
    return OPT(AND(some(a), some(b)), TUP(pay(a), pay(b)))


@model(OP + 'flatten')
def m_oflatten(c):
    a = opt0(c)
    return ite(some(a), as_opt(upay(c, a)), NONE())


@model(OP + 'get_or_insert_with')
def m_ogoi(c):
    return None


def res0(c, i=0):
    return as_enum(c.load(i), RESULT)


def is_ok(r):
    return select(r.a[1], [TRUE, FALSE])


@model(RS + 'unwrap', RS + 'expect')
def m_runwrap(c):
    r = res0(c)
    c.I.pan(nobot(NOT(is_ok(r))))
    return coerce(pay(r, 0), inner_ty(c))


@model(RS + 'unwrap_err', RS + 'expect_err')
def m_runwrap_err(c):
    r = res0(c)
    c.I.pan(nobot(is_ok(r)))
    return coerce(pay(r, 1), inner_ty(c, 0, 1))


@model(RS + 'is_ok')
def m_is_ok(c):
    return is_ok(res0(c))


@model(RS + 'is_err')
def m_is_err(c):
    return NOT(is_ok(res0(c)))


@model(RS + 'ok')
def m_ok(c):
    r = res0(c)
    return OPT(is_ok(r), pay(r, 0))


@model(RS + 'err')
def m_err(c):
    r = res0(c)
    return OPT(NOT(is_ok(r)), pay(r, 1))


@model(RS + 'map')
def m_rmap(c):
    r = res0(c)
    f = pure_fn(c, c.args[1])
    v = f(coerce(pay(r, 0), inner_ty(c)))
    return None if f.bad else enum2(RESULT, r.a[1], v, pay(r, 1))


@model(RS + 'map_err')
def m_rmap_err(c):
    r = res0(c)
    f = pure_fn(c, c.args[1])
    v = f(coerce(pay(r, 1), inner_ty(c, 0, 1)))
    return None if f.bad else enum2(RESULT, r.a[1], pay(r, 0), v)


@model(RS + 'and_then')
def m_rand_then(c):
    r = res0(c)
    f = pure_fn(c, c.args[1])
    v = f(coerce(pay(r, 0), inner_ty(c)))
    return None if f.bad else ite(is_ok(r), as_enum(v, RESULT), enum2(RESULT, K(1), BOT, pay(r, 1)))


@model(RS + 'unwrap_or')
def m_runwrap_or(c):
    r = res0(c)
    return ite(is_ok(r), coerce(pay(r, 0), inner_ty(c)), c.args[1])


@model('core::ops::try_trait::Try::branch')
def m_branch(c):
    t = core_ty(c.tys[0])
    if t.path == OPTION:
        o = opt0(c)
        return enum2(CFLOW, select(o.a[1], [K(1), K(0)]), pay(o), NONE())
    if t.path == RESULT:
        r = res0(c)
        return enum2(CFLOW, r.a[1], pay(r, 0), enum2(RESULT, K(1), BOT, pay(r, 1)))
    return None


@model('core::ops::try_trait::FromResidual::from_residual')
def m_from_residual(c):
    t = core_ty(c.dty)
    if t.path == OPTION:
        return NONE()
    if t.path == RESULT:
        e = pay(as_enum(c.load(0), RESULT), 1)
        s = core_ty(c.tys[0])
        a, b = s.args[1], t.args[1]
        if core_ty(a).s != core_ty(b).s and not (kind_of(a) == 'str' and kind_of(b) == 'str'):
            e = lift(lambda l: mk('call', 'into:' + tk_of(b), l), to_leaf(e))
        return enum2(RESULT, K(1), BOT, e)
    return None


# ---- iterators
def X0(c):
    return seq_arg(c, 0)


def mat(c, X):
    return X


@model(IT + 'cloned', IT + 'copied', IT + 'by_ref', IT + 'fuse', IT + 'peekable')
def m_it_id(c):
    v = c.load(0) if c.fn['name'] != 'by_ref' else c.args[0]
    if v.op == 'rec' and v.a[0] == 'iter':
        return v
    if c.fn['name'] == 'by_ref':
        return v
    return iter_of(X0(c))


def elem_coerced(c, e):
    t = item_ty(c.tys[0])
    return coerce(e, t) if t is not None else e


@model(IT + 'map')
def m_map(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    r = cmap(X, 'seq', lambda e: f(elem_coerced(c, e)))
    return opq_iter('map', X) if f.bad else iter_of(r)


@model(IT + 'filter')
def m_filter(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    r = cfilter(X, 'seq', lambda e: boolv1(f(elem_coerced(c, e))))
    return opq_iter('filter', X) if f.bad else iter_of(r)


@model(IT + 'filter_map')
def m_filter_map(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])

    def g(gens, cond, e):
        o = as_opt(f(elem_coerced(c, e)))
        return [(gens, AND(cond, some(o)), pay(o))]
    r = map_parts(X, 'seq', g)
    return opq_iter('filter_map', X) if f.bad else iter_of(r)


def flat(c, X, ity):
    kind, tk = flat_kind(ity)

    def g(gens, cond, e):
        s = flatten_elem(c.I, coerce(e, ity) if ity is not None else e, kind)
        if s is None:
            return [(gens, cond, opq('flatten', to_leaf(e)))]
        y = sym('b')
        return [(gens + [(y, vmap(lambda t: mk('src', 'seq', t), blk(s, gens)))], cond, y)]
    return map_parts(X, 'seq', g)


def blk(s, gens):
    """a sequence nested under generators keeps its steps together"""
    if s.op == 'coll' and len(s.a) > 2 and gens:
        return mk('blk', s)
    return s


def r_blk(s):
    def f(t):
        if t.op == 'coll' and len(t.a) > 2:
            return mk('blk', t)
        return t
    return vmap(f, as_leaf(to_leaf(s), 'seq'))


REBUILD['blk'] = r_blk


@model(IT + 'flatten')
def m_flatten(c):
    return iter_of(flat(c, X0(c), item_ty(c.tys[0])))


@model(IT + 'flat_map')
def m_flat_map(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    r = cmap(X, 'seq', lambda e: f(elem_coerced(c, e)))
    if f.bad:
        return opq_iter('flat_map', X)
    return iter_of(flat(c, r, ret_ty(c.tys[1])))


@model(IT + 'chain')
def m_chain(c):
    return iter_of(union('seq', X0(c), seq_arg(c, 1)))


@model(IT + 'rev')
def m_rev(c):
    return iter_of(rev(X0(c)))


@model(IT + 'enumerate')
def m_enumerate(c):
    X = X0(c)
    if X.op != 'case':
        f = index_form(X)
        if f is not None:
            r = ranged(f[0], lambda i: TUP(i, f[1](i)))
            if r is not None:
                return iter_of(r)
    return iter_of(vmap(lambda t: mk('enumerated', t), X))


@model(IT + 'zip')
def m_zip(c):
    X, Y = X0(c), seq_arg(c, 1)
    if X.op != 'case' and Y.op != 'case':
        f, g = index_form(X), index_form(Y)
        if f is not None and g is not None:
            n = min_len(f[0], g[0])
            if n is not None:
                r = ranged(n, lambda i: TUP(f[1](i), g[1](i)))
                if r is not None:
                    return iter_of(r)
    return iter_of(lift(lambda a, b: mk('zipped', a, b), X, Y))


def min_len(a, b):
    if a.op == 'case' or b.op == 'case':
        return None
    d = const_of(num_add(a, b, -1))
    if d is not None:
        return a if d <= 0 else b
    return num(mk('min', a, b))


def sub_len(L, n):
    """L - n when known not to go below zero, or symbolic"""
    return num_add(L, n, -1)


@model(IT + 'skip')
def m_skip(c):
    X = X0(c)
    n = const_of(tonumv(c.val(1))) if c.val(1).op != 'case' else None
    if n is not None and n <= 4:
        for _ in range(int(n)):
            X = rest(X)
        return iter_of(X)
    return iter_of(lift(lambda a, b: mk('skip', a, b), X, to_leaf(c.val(1))))


@model(IT + 'take')
def m_itake(c):
    return iter_of(lift(lambda a, b: mk('take', a, b), X0(c), to_leaf(c.val(1))))


@model(IT + 'step_by')
def m_step_by(c):
    X = X0(c)
    n = const_of(tonumv(c.val(1))) if c.val(1).op != 'case' else None
    if n is not None and X.op != 'case':
        f = index_form(X)
        if f is not None:
            cnt = idiv(vadd(f[0], const(n - 1)), const(n))
            r = ranged(to_leaf(cnt), lambda i: f[1](vmul(i, const(n))))
            if r is not None:
                return iter_of(r)
    return iter_of(lift(lambda a, b: mk('step_by', a, b), X, to_leaf(c.val(1))))


@model(IT + 'cycle')
def m_cycle(c):
    return iter_of(vmap(lambda a: mk('cycle', a), X0(c)))


@model(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def m_collect(c):
    X = mat(c, X0(c))
    return collect(c, X, c.dty)


def map_from(base, X):
    def f(t):
        m = base
        for p in parts_of(t, 'seq'):
            ss, gg, cnd, e = part_open(p)
            k, v = proj(e, '0'), proj(e, '1')
            m = vmap(lambda b: chain_link('mput', b, list(zip(ss, gg)), cnd, [to_leaf(k), v]), m)
        return m
    return vmap(f, X)


def collect(c, X, ty):
    k = kind_of(ty)
    t = core_ty(ty)
    if k == 'seq':
        return X
    if k == 'set':
        return convert('set', X, 'seq')
    if k == 'map':
        return map_from(MEMPTY, X)
    if t.path in (OPTION, RESULT):
        it = item_ty(c.tys[0])
        bad = any_elem(X, 'seq', lambda e: opt_bad(coerce(e, it) if it is not None else e, t.path))
        good = collect(c, cmap(X, 'seq', lambda e: pay(as_enum(coerce(e, it) if it is not None else e, t.path),
                                                       1 if t.path == OPTION else 0)), t.args[0])
        if t.path == OPTION:
            return OPT(NOT(bad), good)
        fe = first_such(X, 'seq', lambda e: opt_bad(coerce(e, it) if it is not None else e, t.path))[1]
        return enum2(RESULT, ite(bad, K(1), K(0)), good, pay(as_enum(fe, RESULT), 1))
    return coerce(vmap(lambda x: mk('call', 'collect:' + tk_of(ty), x), X), ty)


def opt_bad(e, path):
    e = as_enum(e, path)
    return select(e.a[1], [TRUE, FALSE] if path == OPTION else [FALSE, TRUE])


@model(IT + 'partition')
def m_partition(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    a = cfilter(X, 'seq', lambda e: boolv1(f(elem_coerced(c, e))))
    b = cfilter(X, 'seq', lambda e: NOT(boolv1(f(elem_coerced(c, e)))))
    if f.bad:
        return None
    t = core_ty(c.dty).args[0]
    return TUP(collect(c, a, t), collect(c, b, t))


@model(IT + 'unzip')
def m_unzip(c):
    X = X0(c)
    ts = core_ty(c.dty).args
    return TUP(collect(c, cmap(X, 'seq', lambda e: proj(e, '0')), ts[0]),
               collect(c, cmap(X, 'seq', lambda e: proj(e, '1')), ts[1]))


@model(IT + 'count')
def m_count(c):
    return length('seq', X0(c))


def consume(c, X):
    """short-circuiting consumers leave an unknown rest behind"""
    if has_ptr(c.args[0]):
        store0(c, iter_of(vmap(lambda t: opq('rest', t), X)))


@model(IT + 'any')
def m_any(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    r = any_elem(X, 'seq', lambda e: boolv1(f(elem_coerced(c, e))))
    consume(c, X)
    return None if f.bad else r


@model(IT + 'all')
def m_all(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    r = NOT(any_elem(X, 'seq', lambda e: NOT(boolv1(f(elem_coerced(c, e))))))
    consume(c, X)
    return None if f.bad else r


@model(IT + 'find')
def m_find(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    ok, v = first_such(X, 'seq', lambda e: boolv1(f(elem_coerced(c, e))))
    consume(c, X)
    return None if f.bad else coerce_opt(c, OPT(ok, v))


@model(IT + 'find_map')
def m_find_map(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    ok, v = first_such(X, 'seq', lambda e: some(as_opt(f(elem_coerced(c, e)))))
    consume(c, X)
    r = OPT(ok, pay(as_opt(f(elem_coerced(c, v)))))
    return None if f.bad else r


@model(IT + 'position')
def m_position(c):
    X = X0(c)
    f = pure_fn(c, c.args[1])
    if X.op == 'case':
        return None
    g = index_form(X)
    if g is None:
        return None
    r = ranged(g[0], lambda i: TUP(i, g[1](i)))
    if r is None:
        return None
    ok, v = first_such(r, 'seq', lambda e: boolv1(f(elem_coerced(c, proj(e, '1')))))
    consume(c, X)
    return None if f.bad else OPT(ok, coerce_num(proj(v, '0')))


@model(IT + 'next')
def m_next(c):
    a = c.args[0]
    v = c.I.load(c.st, a) if a.op == 'ptr' else a
    if v.op == 'ptr':
        a = v
        v = c.I.load(c.st, v)
    if v.op == 'rec' and v.a[0] in (RANGE, RANGEI):
        v = iter_of(to_seq(c, v, AnyTy))
    if not (v.op == 'rec' and v.a[0] == 'iter'):
        return None
    X = v.a[1]
    if X.op == 'itersym':
        if has_ptr(a):
            c.I.store(c.st, a, iter_of(mk('itrest', X)))
        return coerce_opt(c, OPT(asbool(X.a[0]), X.a[1]))
    if X.op == 'itrest':
        c.I.note('iterator advanced twice in a loop')
        if has_ptr(a):
            c.I.store(c.st, a, iter_of(opq('rest', X)))
        return coerce_opt(c, OPT(asbool(mk('more', X)), mk('nextof', X)))
    ne = nonempty('seq', X)
    e = first_elem(X)
    if has_ptr(a):
        c.I.store(c.st, a, iter_of(rest(X)))
    return coerce_opt(c, OPT(ne, e))


def first_elem(X):
    def f(t):
        if t.op == 'coll':
            return first_such(t, 'seq', lambda e: TRUE)[1]
        return nth_leaf(t, ZERO)
    return vmap(f, X)


@model(IT + 'nth')
def m_nth(c):
    X = X0(c)
    n = tonumv(to_leaf(c.val(1)))
    r = OPT(nlift(lambda a, b: NOT(ile(num_add(b, a, -1), 0)), n, length('seq', X)), nth(X, n))
    consume(c, X)
    return coerce_opt(c, r)


@model(IT + 'last')
def m_ilast(c):
    X = X0(c)
    return coerce_opt(c, OPT(nonempty('seq', X), last(X)))


@model(IT + 'sum', 'core::iter::traits::accum::Sum::sum')
def m_sum(c):
    X = X0(c)
    return vsum(ZERO, X)


def vsum(init, X):
    def f(t):
        r = init
        for p in parts_of(t, 'seq'):
            ss, gg, cnd, e = part_open(p)
            r = vadd(r, sum_gens(list(zip(ss, gg)), cnd, e))
        return r
    return vmap(f, X)


def sum_gens(gens, cnd, e):
    """sum of e over the generators, where cnd"""
    r = ZERO
    d0 = ite(cnd, coerce_num(e), ZERO)
    for g, c2, (x,) in expand_gens(gens, TRUE, [d0]):
        x = ite(c2, x, ZERO)
        g, _, (x,) = norm_gens(g, TRUE, [x])
        if not g:
            r = vadd(r, x)
            continue
        if x.op == 'poly' and const_of(x) == 0:
            continue
        r = vadd(r, lin_sum(g, x))
    return r


def lin_sum(g, x):
    """sum distributes over the terms of a linear body"""
    ss = frozenset(s for s, _ in g)
    if x.op == 'poly':
        r = ZERO
        for m, k in x.a[0]:
            out = [(t, n) for t, n in m if t.fv.isdisjoint(ss)]
            inn = [(t, n) for t, n in m if not t.fv.isdisjoint(ss)]
            body = mkpoly({tuple(inn): Fr(1)})
            if not inn and len(g) == 1:
                s = length_gen(g[0][1])
            else:
                s = num(mk('sum', lam([v for v, _ in g], [w for _, w in g] + [body])))
            r = vadd(r, vmul(mkpoly({tuple(out): k}), s))
        return r
    return num(mk('sum', lam([v for v, _ in g], [w for _, w in g] + [x])))


def length_gen(g):
    if g.op == 'range':
        return num_add(num(g.a[1]), num(g.a[0]), -1)
    return num(mk('len', g.a[1])) if g.a[1].op != 'coll' else length(g.a[0], g.a[1])


def r_sum(l):
    n = l.a[1]
    syms, b = open_lam(l)
    return sum_gens(list(zip(syms, b[:n])), TRUE, b[n])


REBUILD['sum'] = r_sum


@model(IT + 'product')
def m_product(c):
    return None


@model(IT + 'min', IT + 'max')
def m_itmin(c):
    X = X0(c)
    nm = 'it' + c.fn['name']
    return coerce_opt(c, OPT(nonempty('seq', X), vmap(lambda t: mk(nm, t), X)))


def m_min_by(c):
    X = X0(c)
    nm = 'it' + c.fn['name']
    f = pure_fn(c, c.args[1])
    if c.fn['name'].endswith('key'):
        a = sym('b')
        l = lam([a], [to_leaf(f(elem_coerced(c, a)))])
    else:
        a, b = sym('b'), sym('b')
        l = lam([a, b], [as_enum(f(elem_coerced(c, a), elem_coerced(c, b)), ORDERING).a[1]])
    if f.bad:
        return None
    if c.fn['name'] in ('min_by', 'max_by'):
        # the first of the least, the last of the greatest: the ends of what a stable sort leaves
        end = (lambda t: nth(t, ZERO)) if c.fn['name'] == 'min_by' else last
        return coerce_opt(c, OPT(nonempty('seq', X), vmap(lambda t: end(mk('sortby', l, t)), X)))
    return coerce_opt(c, OPT(nonempty('seq', X), vmap(lambda t: mk(nm, l, t), X)))


for _n in ('min_by', 'max_by', 'min_by_key', 'max_by_key'):
    M[IT + _n] = m_min_by


@model(IT + 'fold')
def m_fold(c):
    return fold(c, X0(c), c.args[1], c.args[2])


def fold(c, X, init, f):
    """left fold through the loop summariser"""
    from loops import summarise
    I = c.I
    fid = fid_of(c.fid, 'fold')
    acc, itc = ('F', fid, 'acc'), ('F', fid, 'it')
    st = dict(c.st)
    st[acc] = init
    st[itc] = iter_of(X)
    ity = item_ty(c.tys[0])

    def runner(s):
        s = dict(s)
        x = s[itc].a[1]
        if x.op == 'itersym':
            more, e = asbool(x.a[0]), x.a[1]
            nx = mk('itrest', x)
        else:
            more, e, nx = nonempty('seq', x), first_elem(x), rest(x)
        s2 = dict(s)
        s2[itc] = iter_of(nx)
        backs = []
        if more is not FALSE:
            pc, v, s3 = I.invoke(f, [s[acc], coerce(e, ity) if ity is not None else e], s2, fid, c.stack)
            s3 = dict(s3)
            if f is FOREACH:
                v = UNIT
            s3[acc] = v
            backs = [(AND(more, pc), s3)]
        exits = [('out', NOT(more), s)] if NOT(more) is not FALSE else []
        return backs, exits

    def join(pend):
        return join_states(pend)
    outs = summarise(I, (fid, 'fold'), st, runner, join)
    if not outs:
        return FALSE, BOT
    if len(outs) == 1:
        _, pc, s = outs[0]
    else:
        pc, s = join_states([(p, q) for _, p, q in outs])
    v = s.pop(acc, BOT)
    s.pop(itc, None)
    c.st = s
    return pc, v


FOREACH = None


def join_states(pend):
    if len(pend) == 1:
        return pend[0]
    pc = FALSE
    for p, _ in pend:
        pc = OR(pc, p)
    cells = []
    for _, s in pend:
        for k in s:
            if k not in cells:
                cells.append(k)
    out = {}
    for k in cells:
        vs = [(p, s.get(k, BOT)) for p, s in pend]
        v0 = vs[0][1]
        out[k] = v0 if all(v is v0 for _, v in vs) else overlay(vs)
    return pc, out


@model(IT + 'for_each')
def m_for_each(c):
    from loops import summarise
    I = c.I
    X = X0(c)
    f = c.args[1]
    fid = fid_of(c.fid, 'foreach')
    itc = ('F', fid, 'it')
    st = dict(c.st)
    st[itc] = iter_of(X)
    ity = item_ty(c.tys[0])

    def runner(s):
        s = dict(s)
        x = s[itc].a[1]
        if x.op == 'itersym':
            more, e, nx = asbool(x.a[0]), x.a[1], mk('itrest', x)
        else:
            more, e, nx = nonempty('seq', x), first_elem(x), rest(x)
        s2 = dict(s)
        s2[itc] = iter_of(nx)
        backs = []
        if more is not FALSE:
            pc, v, s3 = I.invoke(f, [coerce(e, ity) if ity is not None else e], s2, fid, c.stack)
            backs = [(AND(more, pc), dict(s3))]
        return backs, ([('out', NOT(more), s)] if NOT(more) is not FALSE else [])
    outs = summarise(I, (fid, 'foreach'), st, runner, join_states)
    if not outs:
        return FALSE, BOT
    pc, s = join_states([(p, q) for _, p, q in outs])
    s.pop(itc, None)
    c.st = s
    return pc, UNIT


# ---- numbers
F64 = '<f64>::'
NF = 'num_traits::float::Float::'
RF = 'num_traits::real::Real::'


def num0(c, i=0):
    return coerce_num(c.val(i))


@model(F64 + 'powi', NF + 'powi', F64 + 'powf', NF + 'powf')
def m_powi(c):
    e = c.val(1)
    k = const_of(e) if e.op == 'poly' else None
    if k is not None and k.denominator == 1 and 0 <= k <= 6:
        r = ONE
        for _ in range(int(k)):
            r = vmul(r, num0(c))
        return r
    if k is not None and k == Fr(1, 2):
        return vfn('sqrt', num0(c))
    return lift(lambda a, b: num(mk('pow', a, b)), to_leaf(num0(c)), to_leaf(e))


def fn1(name):
    def f(c):
        return vfn(name, num0(c))
    return f


for _n in ('sqrt', 'abs', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'round', 'floor', 'ceil', 'trunc', 'exp', 'ln', 'cbrt'):
    for _p in (F64, NF, RF):
        M[_p + _n] = fn1(_n)


@model('core::num::abs', '<isize>::abs', '<i32>::abs', '<i64>::abs', 'num_traits::sign::abs')
def m_iabs(c):
    return vfn('abs', num0(c))


@model(F64 + 'hypot', NF + 'hypot')
def m_hypot(c):
    a, b = num0(c), num0(c, 1)
    return vfn('sqrt', vadd(vmul(a, a), vmul(b, b)))


@model(F64 + 'mul_add', NF + 'mul_add')
def m_mul_add(c):
    return vadd(vmul(num0(c), num0(c, 1)), num0(c, 2))


@model(F64 + 'atan2', NF + 'atan2')
def m_atan2(c):
    return lift(lambda a, b: num(mk('atan2', a, b)), to_leaf(num0(c)), to_leaf(num0(c, 1)))


@model(F64 + 'recip')
def m_recip(c):
    return vdiv(ONE, num0(c))


@model(F64 + 'to_radians')
def m_to_rad(c):
    return None


@model(F64 + 'min', NF + 'min', 'core::cmp::Ord::min', 'core::cmp::min')
def m_min(c):
    t = core_ty(c.tys[0])
    if t.k not in ('int', 'float'):
        return None
    a, b = num0(c), num0(c, 1)
    lt = compare('Lt', a, b, t)
    return ite(lt, a, b)


@model(F64 + 'max', NF + 'max', 'core::cmp::Ord::max', 'core::cmp::max')
def m_max(c):
    t = core_ty(c.tys[0])
    if t.k not in ('int', 'float'):
        return None
    a, b = num0(c), num0(c, 1)
    gt = compare('Gt', a, b, t)
    return ite(gt, a, b)


@model(F64 + 'signum', NF + 'signum')
def m_signum(c):
    return select(nlift(sgn, num0(c)), [const(-1), ONE, ONE])


@model(F64 + 'is_nan', NF + 'is_nan', F64 + 'is_infinite', NF + 'is_infinite')
def m_is_nan(c):
    return FALSE


@model(F64 + 'is_finite', NF + 'is_finite')
def m_is_finite(c):
    return TRUE


@model('core::cmp::PartialOrd::partial_cmp')
def m_partial_cmp(c):
    t = core_ty(c.tys[0])
    if t.k in ('float',):
        return OPT(TRUE, ordering(fcmp(num0(c), num0(c, 1))))
    if t.k == 'int':
        return OPT(TRUE, int_ordering(num0(c), num0(c, 1)))
    if t.path == OPTION:
        a, b = opt0(c), opt0(c, 1)
        it = core_ty(t.args[0])
        if it.k != 'float':
            return None
        e = fcmp(coerce_num(pay(a)), coerce_num(pay(b)))
        return OPT(TRUE, ordering(select(a.a[1], [select(b.a[1], [K(1), K(0)]), select(b.a[1], [K(2), e])])))
    return None


def int_ordering(a, b):
    def f(p, q):
        lt, le = icmp(num(p), num(q))
        return ite(lt, K(0), ite(le, K(1), K(2)))
    return ordering(lift(f, a, b))


@model('core::cmp::Ord::cmp', F64 + 'total_cmp')
def m_cmp(c):
    t = core_ty(c.tys[0])
    if t.k == 'float':
        return ordering(fcmp(num0(c), num0(c, 1)))
    if t.k == 'int':
        return int_ordering(num0(c), num0(c, 1))
    return None


for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    def _cmp(c, _o=_o):
        t = core_ty(c.tys[0])
        if t.k not in ('int', 'float'):
            return None
        return compare(_o, num0(c), num0(c, 1), t)
    M['core::cmp::PartialOrd::' + _n] = _cmp


@model('core::cmp::Ordering::reverse')
def m_ord_rev(c):
    return ordering(select(as_enum(c.load(0), ORDERING).a[1], [K(2), K(1), K(0)]))


@model('core::cmp::Ordering::then')
def m_ord_then(c):
    a = as_enum(c.load(0), ORDERING).a[1]
    b = as_enum(c.load(1), ORDERING).a[1]
    return ordering(select(a, [K(0), b, K(2)]))


@model('core::cmp::Ordering::then_with')
def m_ord_then_with(c):
    a = as_enum(c.load(0), ORDERING).a[1]
    f = pure_fn(c, c.args[1])
    b = as_enum(f(), ORDERING).a[1]
    return None if f.bad else ordering(select(a, [K(0), b, K(2)]))


for _n, _t in (('is_eq', [0, 1, 0]), ('is_ne', [1, 0, 1]), ('is_lt', [1, 0, 0]), ('is_gt', [0, 0, 1]),
               ('is_le', [1, 1, 0]), ('is_ge', [0, 1, 1])):
    def _is(c, _t=_t):
        return select(as_enum(c.load(0), ORDERING).a[1], [K(x) for x in _t])
    M['core::cmp::Ordering::' + _n] = _is


for _n, _f in (('add::Add::add', vadd), ('sub::Sub::sub', vsub), ('mul::Mul::mul', vmul)):
    pass


def arith(name):
    def f(c):
        ta, tb = core_ty(c.tys[0]), core_ty(c.tys[1]) if len(c.tys) > 1 else None
        a = c.val(0)
        b = c.val(1) if len(c.args) > 1 else None
        ma, mb = mat_of(a), mat_of(b) if b is not None else None
        if ma is None and mb is None:
            if ta.k not in ('int', 'float'):
                return None
            a = coerce_num(a)
            if name == 'neg':
                return vneg(a)
            b = coerce_num(b)
            return {'add': vadd, 'sub': vsub, 'mul': vmul,
                    'div': vdiv if ta.k == 'float' else idiv, 'rem': irem}[name](a, b)
        if name == 'neg':
            return MAT(ma[0], ma[1], [vneg(x) for x in flatm(ma[2])])
        if name == 'mul':
            if ma and mb:
                p = prod(ma[2], mb[2])
                return MAT(ma[0], mb[1], flatm(p))
            s, m = (a, mb) if mb else (b, ma)
            return MAT(m[0], m[1], [vmul(coerce_num(s), x) for x in flatm(m[2])])
        if name == 'div' and ma and not mb:
            return MAT(ma[0], ma[1], [vdiv(x, coerce_num(b)) for x in flatm(ma[2])])
        if name in ('add', 'sub') and ma and mb:
            op = vadd if name == 'add' else vsub
            return MAT(ma[0], ma[1], [op(x, y) for x, y in zip(flatm(ma[2]), flatm(mb[2]))])
        return None
    return f


for _n in ('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem', 'Neg::neg'):
    M['core::ops::arith::' + _n] = arith(_n.split('::')[1])


def arith_assign(name):
    def f(c):
        a, b = c.load(0), c.val(1)
        t = core_ty(c.tys[0])
        if t.k not in ('int', 'float'):
            return None
        a, b = coerce_num(a), coerce_num(b)
        store0(c, {'add': vadd, 'sub': vsub, 'mul': vmul, 'div': vdiv if t.k == 'float' else idiv}[name](a, b))
        return UNIT
    return f


for _n in ('Add', 'Sub', 'Mul', 'Div'):
    M['core::ops::arith::%sAssign::%s_assign' % (_n, _n.lower())] = arith_assign(_n.lower())


@model('core::ops::bit::Not::not')
def m_not(c):
    return NOT(c.val(0)) if core_ty(c.tys[0]).k == 'bool' else None


# ---- approximate comparison
@model('float_cmp::eq::F64Margin::zero', 'float_cmp::eq::FloatMargin::zero')
def m_margin(c):
    return mk('rec', 'float_cmp::eq::F64Margin', ZERO, ZERO)


@model('float_cmp::eq::F64Margin::epsilon', 'float_cmp::eq::FloatMargin::epsilon')
def m_margin_eps(c):
    v = c.load(0)
    return mk('rec', 'float_cmp::eq::F64Margin', c.val(1), v.a[2])


@model('float_cmp::eq::F64Margin::ulps', 'float_cmp::eq::FloatMargin::ulps')
def m_margin_ulps(c):
    v = c.load(0)
    return mk('rec', 'float_cmp::eq::F64Margin', v.a[1], c.val(1))


def approx(c):
    m = c.load(2)
    if not (m.op == 'rec' and 'Margin' in m.a[0]):
        return None
    e, u = m.a[1], m.a[2]
    ce = const_of(e) if e.op == 'poly' else None
    cu = const_of(u) if u.op == 'poly' else None
    if ce is None or cu is None:
        return None
    d = vsub(num0(c), num0(c, 1))
    if cu != 0:
        return asbool(lift(lambda p: mk('approx', p, str(ce), str(cu)), d))
    return nlift(lambda p: near(p, ce) if ce > 0 else select(sgn(p), [FALSE, TRUE, FALSE]), d)


M['float_cmp::eq::ApproxEq::approx_eq'] = approx


@model('float_cmp::eq::ApproxEq::approx_ne')
def m_approx_ne(c):
    r = approx(c)
    return None if r is None else NOT(r)


# ---- matrices
MX = 'nalgebra::base::matrix::Matrix::'


@model(MX + 'new')
def m_mnew_(c):
    d = mat_dims(c.dty.s)
    if d is None or d[0] * d[1] != len(c.args):
        return None
    return MAT(d[0], d[1], [c.val(i) for i in range(len(c.args))])


@model(MX + 'determinant')
def m_det(c):
    m = mat_of(c.load(0))
    return det(m[2]) if m and m[0] == m[1] and m[0] <= 4 else None


@model(MX + 'is_invertible')
def m_is_inv(c):
    m = mat_of(c.load(0))
    return NOT(is_zero(det(m[2]))) if m and m[0] == m[1] and m[0] <= 4 else None


@model(MX + 'try_inverse')
def m_try_inv(c):
    m = mat_of(c.load(0))
    if not m or m[0] != m[1] or m[0] > 3:
        return None
    return OPT(NOT(is_zero(det(m[2]))), MAT(m[0], m[1], flatm(inverse(m[2]))))


@model(MX + 'dot')
def m_dot(c):
    a, b = mat_of(c.load(0)), mat_of(c.load(1))
    return _dot(flatm(a[2]), flatm(b[2])) if a and b else None


@model(MX + 'norm')
def m_norm(c):
    a = mat_of(c.load(0))
    return vfn('sqrt', _dot(flatm(a[2]), flatm(a[2]))) if a else None


@model(MX + 'norm_squared')
def m_norm2(c):
    a = mat_of(c.load(0))
    return _dot(flatm(a[2]), flatm(a[2])) if a else None


@model(MX + 'perp')
def m_perp(c):
    a, b = mat_of(c.load(0)), mat_of(c.load(1))
    if not a or not b:
        return None
    x, y = flatm(a[2]), flatm(b[2])
    return vsub(vmul(x[0], y[1]), vmul(x[1], y[0]))


@model(MX + 'transpose')
def m_transpose(c):
    a = mat_of(c.load(0))
    return MAT(a[1], a[0], [a[2][i][j] for j in range(a[1]) for i in range(a[0])]) if a else None


# ---- hashing
@model('core::hash::Hash::hash')
def m_hash(c):
    v = deepv(c, c.load(0))
    old = c.load(1)
    tk = tk_of(c.tys[0])
    c.I.store(c.st, c.args[1], lift(lambda o, x: mk('hashed', tk, o, x), to_leaf(old), to_leaf(v)))
    return UNIT


@model(NF + 'integer_decode', 'num_traits::float::FloatCore::integer_decode')
def m_decode(c):
    x = to_leaf(num0(c))
    return TUP(*[coerce(lift(lambda p: mk('decode', p, i), x), core_ty(c.dty).args[i]) for i in range(3)])


@model('std::hash::random::DefaultHasher::new', 'std::collections::hash_map::DefaultHasher::new',
       'core::hash::sip::SipHasher::new')
def m_hasher(c):
    return mk('hasher')


@model('core::hash::Hasher::finish')
def m_finish(c):
    return lift(lambda h: num(mk('finish', h)), to_leaf(c.val(0)))


for _t in ('u64', 'u32', 'usize', 'i64', 'i32', 'u128', 'i128', 'isize'):
    M['<%s>::wrapping_add' % _t] = lambda c: vadd(num0(c), num0(c, 1))
    M['<%s>::wrapping_sub' % _t] = lambda c: vsub(num0(c), num0(c, 1))
    M['<%s>::wrapping_mul' % _t] = lambda c: vmul(num0(c), num0(c, 1))


def _unsigned(c):
    return core_ty(c.tys[0]).s.startswith('u')


def m_saturating_sub(c):
    a, b = num0(c), num0(c, 1)
    if not _unsigned(c):
        return vsub(a, b)
    return ite(compare('Gt', a, b, core_ty(c.tys[0])), vsub(a, b), ZERO)


def m_checked_sub(c):
    a, b = num0(c), num0(c, 1)
    ok = compare('Ge', a, b, core_ty(c.tys[0])) if _unsigned(c) else TRUE
    return coerce_opt(c, OPT(ok, vsub(a, b)))


def m_abs_diff(c):
    a, b = num0(c), num0(c, 1)
    return ite(compare('Ge', a, b, core_ty(c.tys[0])), vsub(a, b), vsub(b, a))


def m_clamp(c):
    t = core_ty(c.tys[0])
    if t.k not in ('int', 'float'):
        return None
    x, a, b = num0(c), num0(c, 1), num0(c, 2)
    return ite(compare('Lt', x, a, t), a, ite(compare('Gt', x, b, t), b, x))


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    for _p in ('<%s>::' % _t, 'core::num::'):
        # what a number type cannot hold is out of scope, as for the operators
        M[_p + 'saturating_add'] = lambda c: vadd(num0(c), num0(c, 1))
        M[_p + 'saturating_mul'] = lambda c: vmul(num0(c), num0(c, 1))
        M[_p + 'saturating_sub'] = m_saturating_sub
        M[_p + 'checked_add'] = lambda c: coerce_opt(c, OPT(TRUE, vadd(num0(c), num0(c, 1))))
        M[_p + 'checked_mul'] = lambda c: coerce_opt(c, OPT(TRUE, vmul(num0(c), num0(c, 1))))
        M[_p + 'checked_sub'] = m_checked_sub
        M[_p + 'abs_diff'] = m_abs_diff
        if _t.startswith('u'):
            M[_p + 'rem_euclid'] = lambda c: irem(num0(c), num0(c, 1))
            M[_p + 'div_euclid'] = lambda c: idiv(num0(c), num0(c, 1))
for _p in (F64, NF, 'core::cmp::Ord::', 'num_traits::sign::'):
    M[_p + 'clamp'] = m_clamp


@model('<bool>::then_some', 'core::bool::then_some')
def m_then_some(c):
    return coerce_opt(c, OPT(boolv1(c.val(0)), elem(c, 1)))


@model(HS + 'is_superset')
def m_ssuperset(c):
    tk = elem_tk(c)
    v = kindval(c)[1]
    return NOT(any_elem(kindval(c, 1)[1], 'set', lambda e: NOT(contains(tk, 'set', v, e))))


@model(HS + 'symmetric_difference')
def m_ssymdiff(c):
    tk = elem_tk(c)
    v, w = kindval(c)[1], kindval(c, 1)[1]
    a = cfilter(v, 'set', lambda e: NOT(contains(tk, 'set', w, e)))
    b = cfilter(w, 'set', lambda e: NOT(contains(tk, 'set', v, e)))
    return iter_of(union('seq', convert('seq', a, 'set'), convert('seq', b, 'set')))


@model(IT + 'take_while')
def m_take_while(c):
    X = as_leaf(X0(c), 'seq')
    f = pure_fn(c, c.args[1])
    x = sym('x')
    stop = nobot(NOT(boolv1(f(elem_coerced(c, x)))))
    if f.bad or X.op == 'case':
        return None
    l = lam([x], [stop])
    return iter_of(as_leaf(mkcoll('seq', [mkpart([x], [mk('src', 'seq', mk('prefix', l, X))], TRUE, x)]), 'seq'))


@model(IT + 'inspect')
def m_inspect(c):
    return None


@model('<[T]>::split_first')
def m_split_first(c):
    _, v = kindval(c)
    return OPT(nonempty('seq', v), TUP(nth(v, ZERO), rest(v)))


@model('<[T]>::split_last')
def m_split_last(c):
    _, v = kindval(c)
    return OPT(nonempty('seq', v), TUP(last(v), init(v)))


@model(F64 + 'to_bits')
def m_to_bits(c):
    return lift(lambda p: num(mk('bits', p)), to_leaf(num0(c)))


@model('alloc::rcs::rc::Rc::ptr_eq')
def m_ptr_eq(c):
    return eq_opaque('ptr', deepv(c, c.load(0)), deepv(c, c.load(1)))


class Models(object):
    """lookup used by the interpreter"""

    def __init__(self, progs, effects=None):
        _ret['progs'] = progs
        self.effects = effects or {}
        self.used = {}
        self.known, self.world = KNOWN, WORLD

    def special(self, c, name):
        p = c.fn['path']
        if p == 'core::cmp::PartialEq::eq' or p == 'core::cmp::PartialEq::ne':
            return self.eq
        if p.startswith('core::clone::Clone::clone') and c.body is not None:
            return m_clone
        if p == 'core::hash::Hash::hash' or p == 'core::default::Default::default' and name not in c.I.prog.bodies:
            return m_hash if 'Hash' in p else None
        if p.endswith('::ops::function::FnOnce::call_once') or p.endswith('FnMut::call_mut') or p.endswith('Fn::call'):
            return self.call_fn
        return None

    def call_fn(self, c):
        a = c.args[1]
        args = list(a.a[1:]) if a.op == 'rec' else [a]
        pc, v, st = c.I.invoke(c.args[0], args, c.st, fid_of(c.fid, 'callfn'), c.stack)
        c.st = st
        return pc, v

    def eq(self, c):
        a, b = c.load(0), c.load(1)
        for _ in range(3):
            if a.op == 'ptr':
                a = c.I.load(c.st, a)
            if b.op == 'ptr':
                b = c.I.load(c.st, b)
        t = c.tys[0]
        a, b = coerce(deepv(c, a), t), coerce(deepv(c, b), t)
        ct = core_ty(t)
        if ct is AnyTy or ct.k == 'param':
            r = eq_opaque('?', a, b)
        else:
            r = eq_ty(t, a, b)
        return TRUE, (NOT(r) if c.fn['path'].endswith('::ne') else r)

    def find(self, c):
        p = c.fn['path']
        m = M.get(p)
        if m is None:
            r = c.fn.get('res')
            m = M.get(r) if r else None
        if m is None:
            return None
        self.used[p] = self.used.get(p, 0) + 1

        def run(c):
            v = m(c)
            if v is None:
                c.I.note('partly modelled: ' + p)
                return TRUE, c.I.unknown_call(c, p)
            return v
        return run

    def effect(self, name, c, leaves):
        f = self.effects.get(name)
        return f(c, leaves) if f else None
