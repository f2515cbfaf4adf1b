"""Function summaries and their comparison with the specification."""
from terms import *
import terms
from coll import *
import coll
import interp
from interp import Interp, Budget, ptr, has_ptr, deep, coerce, fid_of
from mir import Program, kind_of, core_ty, tk_of
import models
import time

sys_limit = None


class Summary(object):
    pass


def analyse(prog, name, opaque, models_, seconds=60, track=False):
    b = prog.bodies[name]
    I = Interp(prog, opaque, models_, track_panic=track, deadline=time.time() + seconds)
    st, args, muts = {('W',): mk('world')}, [], []
    for i in range(b.argc):
        t = b.locals[1 + i]
        p = sym('p%d' % i, 'arg')
        if (t.k == 'ref' and t.mut) or t.rc:
            cell = ('P', i)
            st[cell] = coerce(p, t)
            args.append(ptr(cell))
            if t.k == 'ref' and t.mut:
                muts.append((i, cell, t))
            elif t.rc:
                muts.append((i, cell, t))
        else:
            args.append(coerce(p, t))
    if b.spread >= 0:
        pass
    I.opaque = opaque - {name}
    pc, rv, out = I.run(b, args, st, fid_of('unit', name), ())
    s = Summary()
    s.name = name
    s.I = I
    s.sig = b.sig()
    s.outs = {}
    rt = b.locals[0]
    add_out(s, I, out, 'return', rv, rt)
    for i, cell, t in muts:
        v = out.get(cell, BOT)
        add_out(s, I, out, 'argument %d' % i, v, t)
    w = out.get(('W',), BOT)
    if w.op != 'world':
        s.outs['effects'] = w
    if pc is not TRUE:
        s.outs['returns'] = pc
    if track:
        # an explicit panic and an unmet expectation are the same abort
        s.outs['aborts'] = OR(I.pans[0], NOT(nobot(pc)))
        s.outs.pop('returns', None)
    return s


def add_out(s, I, st, label, v, t):
    if has_ptr(v):
        v = deep(I, st, v)
    v = coerce(v, t)
    flatten(s.outs, label, v, t)


def flatten(outs, label, v, t):
    if v.op == 'rec' and v.a[0] not in ('iter',) and len(v.a) > 1:
        leaf = to_leaf(v)
        if leaf.op != 'S' and leaf.op != 'case':
            outs[label] = leaf
            return
        fs = rec_fields(v)
        for f, x in zip(fs, v.a[1:]):
            flatten(outs, label + '.' + f, x, None)
        return
    if v.op == 'rec' and v.a[0] == 'iter':
        v = v.a[1]
    if v.op in ('rec', 'enum'):
        v = to_leaf(v)
    k = kind_of(t) if t is not None else None
    if k in ('seq', 'set'):
        v = as_leaf(v, k)
    outs[label] = v
