"""The JSON protocol, read off the (derived or written) Serialize and Deserialize implementations."""
import re
import verdict
from terms import *
from coll import *
from mir import core_ty

R, O = 'required', 'optional'
# field -> how a document may leave it out
PROTOCOL = {
    'TriangulationInput': dict(id='new uuid', name=R, date='now', actions=R, params=R),
    'RefineParams': dict(max_area=O, quality=R),
    'Action': dict(intent=R, geometry=R, scalars='empty', points='empty', assemble='empty'),
    'Point': dict(x=R, y=R, z='zero'),
    'TriangulationOutput': dict(id='new uuid', name=R, date='now', coordinates=R, triangles='empty',
                                tetrahedrons='empty'),
    'Triangle': dict(v1=R, v2=R, v3=R),
    'Tetrahedron': dict(v1=R, v2=R, v3=R, v4=R),
}


def call_of(t):
    """(path, resolved path, name, type arguments, operands, destination) of a call terminator"""
    if t and t[0] == 'call' and t[1][0] == 'const' and 'fn' in t[1][1]:
        f = t[1][1]['fn']
        return f['path'], f.get('res') or f['path'], f['name'], f.get('targs', []), t[2], t[3]
    return None


def calls(body):
    for i, blk in enumerate(body.blocks):
        c = call_of(blk['t'])
        if c:
            yield i, c


def text(body, o):
    """a constant string operand"""
    for k in origins(body, o):
        if k[0] == 'str':
            return k[1]
    return None


def defs(body):
    d = getattr(body, '_wire_defs', None)
    if d is None:
        d = {}
        for i, blk in enumerate(body.blocks):
            for s in blk['s']:
                if s[0] == 'assign':
                    d.setdefault(s[1]['l'], []).append(('rv', s[2]))
            c = call_of(blk['t'])
            if c:
                d.setdefault(c[5]['l'], []).append(('call', c))
        body._wire_defs = d
    return d


def fields(place):
    return [e for e in place['p'] if e[0] == 'field']


def origins(body, o, seen=None):
    """where an operand's value may come from, whatever path is taken"""
    seen = set() if seen is None else seen
    if o[0] == 'const':
        c = o[1]
        if c['c'] == 'str':
            return {('str', c['v'])}
        return {('const', str(c.get('bits', c.get('v', c['c']))))}
    return place_origins(body, o[1], seen)


def place_origins(body, p, seen):
    l = p['l']
    down = [e for e in p['p'] if e[0] == 'downcast']
    if down and down[0][2] == 'Some' and not body.locals[l].s.startswith('core::ops'):
        return {('payload', l)}
    if 1 <= l <= body.argc:
        fs = fields(p)
        return {('arg', l, tuple(e[2] for e in fs))}
    if (l, repr(p['p'])) in seen:
        return set()
    seen.add((l, repr(p['p'])))
    fs = [] if down else fields(p)
    out = set()
    for kind, d in defs(body).get(l, ()):
        if kind == 'call':
            path, res, name, targs, ops, dst = d
            if name in ('branch', 'clone', 'deref', 'borrow', 'as_ref', 'into', 'from') and len(ops) == 1:
                out |= origins(body, ops[0], seen)
            elif name == 'missing_field':
                out.add(('missing', text(body, ops[0]), optional(body, targs)))
            else:
                out.add(('call', res, tuple(body.prog_ty(t).s for t in targs)))
            continue
        if d[0] == 'use':
            out |= origins(body, d[1], seen)
        elif d[0] in ('ref', 'rawptr'):
            out |= place_origins(body, d[2] if d[0] == 'ref' else d[1], seen)
        elif d[0] == 'agg':
            if fs and isinstance(d[1], list) and d[1][0] in ('adt', 'tuple') and fs[0][1] < len(d[2]):
                out |= origins(body, d[2][fs[0][1]], seen)
            else:
                out.add(('made', tuple(sorted(set().union(*[origins(body, x, seen) for x in d[2]]), key=repr))
                         if d[2] else (), d[1][1] if d[1][0] == 'adt' else d[1][0], d[1][3] if len(d[1]) > 3 else ''))
        else:
            out.add(('computed', d[0]))
    return out


def optional(body, targs):
    return bool(targs) and body.prog_ty(targs[0]).k == 'adt' and body.prog_ty(targs[0]).path == 'core::option::Option'


def find(prog, struct, what):
    """the bodies of a method of the wire type, by the type's own name"""
    return [n for n in sorted(prog.bodies) if what(n) and '::%s as ' % struct in n]


def default_of(ctx, origin, want):
    """does the value put in for a missing field fit? True, False or a reason"""
    if origin[0] == 'const':
        return want == 'zero' and origin[1] in ('0', '0.0')
    if origin[0] != 'call':
        return 'the default is %s' % (origin[0],)
    _, fn, targs = origin
    if fn not in ctx.P.bodies:
        ty = targs[0] if targs else ''
        if fn.endswith('::new_v4'):
            return want == 'new uuid'
        if fn.endswith('Vec::new') or 'Vec<' in fn and fn.endswith('::default'):
            return want == 'empty'
        if fn.endswith('::default') and ('f64' in fn or ty == 'f64'):
            return want == 'zero'
        if fn.endswith('::default') and ('Option<' in fn or ty.startswith('core::option::Option')):
            return want == 'nothing'
        if fn.endswith('::default') and want in ('new uuid', 'now'):
            return False
        return 'the default comes from %s' % fn
    s = ctx.summary('P', fn, fn)
    if isinstance(s, str):
        return s
    v = s.outs.get('return')
    if v is None:
        return False
    v = to_leaf(v)
    if want == 'nothing':
        return none_of(v) or (False if decided(v) else 'the default is computed by %s' % fn)
    if want == 'zero':
        c = const_of(v) if v.op == 'poly' else None
        return c == 0 if c is not None else 'the default is computed by %s' % fn
    if want == 'empty':
        if v.op == 'coll' and len(v.a) == 1:
            return True
        return False if v.op == 'coll' and not v.fv else 'the default is computed by %s' % fn
    src = verdict.sources(v)
    if not src:
        return False if not unknown_call(v) else 'the default is computed by %s' % fn
    if want == 'now':
        return any('::now' in x for x in src) and 'rfc3339' in str(v) or 'the default is computed by %s' % fn
    return any('::new_v4' in x for x in src) or 'the default is computed by %s' % fn


def none_of(v):
    return v.op in ('V', 'var', 'enum') and 'None' in str(v) or str(v) == 'None()'


def decided(v):
    """not a call whose result could still be nothing"""
    return 'Some' in str(v) or verdict.sources(v) != verdict.EMPTY


def unknown_call(v, seen=None):
    """a call of a foreign function that takes something"""
    seen = set() if seen is None else seen
    if v.id in seen:
        return False
    seen.add(v.id)
    if v.op == 'opq' and v.a[0] not in ('call',):
        return True
    import terms
    return any(unknown_call(c, seen) for c in terms._iter(v.a))


def names_read(body):
    """key -> variant of the field, or None when a key is refused, or a reason"""
    out = {}
    for i, c in calls(body):
        if c[2] in ('unknown_field', 'unknown_variant'):
            out[None] = 'refused'
    for i, c in calls(body):
        if c[2] != 'eq' or len(c[4]) != 2:
            continue
        key = text(body, c[4][0]) or text(body, c[4][1])
        t = body.blocks[i]['t'][4]
        sw = body.blocks[t]['t']
        if key is None or not sw or sw[0] != 'switch':
            return 'a key is compared in a way that is not understood'
        nxt = [b for v, b in sw[2] if v != '0'] or [sw[3]]
        v = made_in(body, nxt[0])
        if v is None:
            return 'what the key %s stands for was not found' % key
        out[key] = v
    return out


def made_in(body, b):
    """the __Field variant a block makes"""
    for _ in range(4):
        for s in body.blocks[b]['s']:
            if s[0] == 'assign' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt' \
                    and s[2][1][1].endswith('__Field'):
                return s[2][1][2]
            if s[0] == 'assign' and s[2][0] == 'use' and s[2][1][0] == 'const':
                pass
        t = body.blocks[b]['t']
        if not t or t[0] != 'goto':
            return None
        b = t[1]
    return None


def slots(body):
    """variant of the field -> locals its value is kept in"""
    out = {}
    for blk in body.blocks:
        t = blk['t']
        if not t or t[0] != 'switch':
            continue
        tys = [body.locals[s[2][1]['l']].s for s in blk['s'] if s[0] == 'assign' and s[2][0] == 'discr']
        if not tys or not tys[-1].endswith('__Field'):
            continue
        for v, b in t[2]:
            k = kept(body, b)
            if k:
                out.setdefault(int(v), set()).update(k)
    return out


def kept(body, b):
    """what a branch first asks whether it is there already"""
    for _ in range(3):
        c = call_of(body.blocks[b]['t'])
        if c and c[2] == 'is_some':
            return locals_of(body, c[4][0], set())
        t = body.blocks[b]['t']
        if not t or t[0] != 'goto':
            return None
        b = t[1]
    return None


def locals_of(body, o, seen):
    """the locals a chain of references ends in"""
    if o[0] == 'const':
        return set()
    l = o[1]['l']
    if l in seen:
        return set()
    seen.add(l)
    nxt = set()
    for kind, d in defs(body).get(l, ()):
        if kind == 'rv' and d[0] == 'ref':
            nxt |= locals_of(body, ('copy', d[2]), seen)
        elif kind == 'rv' and d[0] == 'use' and d[1][0] != 'const':
            nxt |= locals_of(body, d[1], seen)
        else:
            return {l}
    return nxt


def read_rule(ctx):
    """documents are read by the documented keys; what may be left out, and what stands for it"""
    prog = ctx.P
    for st in sorted(PROTOCOL):
        want = PROTOCOL[st]
        vm = find(prog, st, lambda n: n.endswith('::visit_map') and '__Visitor' in n)
        vs = find(prog, st, lambda n: n.endswith('::visit_str') and '__FieldVisitor' in n)
        if len(vm) != 1 or len(vs) != 1:
            yield ('open', '%s: how it is read was not found' % st)
            continue
        body = prog.bodies[vm[0]]
        keys = names_read(prog.bodies[vs[0]])
        if isinstance(keys, str):
            yield ('open', '%s: %s' % (st, keys))
            continue
        where = dict(function='reading %s' % st, file=body.where())
        if keys.pop(None, None):
            yield dict(where, key='%s refuses unknown keys' % st, note='a key that is not known is refused')
            continue
        kept_in = slots(body)
        made = [(s[2][1], s[2][2]) for blk in body.blocks for s in blk['s']
                if s[0] == 'assign' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'adt'
                and s[2][1][1].endswith('::' + st)]
        if len(made) != 1:
            yield ('open', '%s: where it is made was not found' % st)
            continue
        fs = prog.adts[made[0][0][1]]['variants'][0]['fields']
        fs = [f[0] if isinstance(f, (list, tuple)) else f for f in fs]
        by_slot = {l: v for v, ls in kept_in.items() for l in ls}
        for f, o in zip(fs, made[0][1]):
            org = origins(body, o)
            pay = {by_slot.get(x[1]) for x in org if x[0] == 'payload'}
            rest = [x for x in org if x[0] != 'payload']
            names = {k for k, v in keys.items() if v in pay}
            if f not in want:
                if any(x[0] == 'missing' and not x[2] for x in rest):
                    yield dict(where, key='%s.%s required' % (st, f), output=f,
                               note='documents have to give %s.%s as well' % (st, f))
                else:
                    yield True
                continue
            if not pay:
                yield dict(where, key='%s.%s unread' % (st, f), output=f, note='%s.%s is never taken from the document' % (st, f)) \
                    if all(x[0] in ('call', 'const', 'made') for x in rest) and keys and f not in keys \
                    else ('open', '%s.%s: where it is kept was not found' % (st, f))
                continue
            if None in pay:
                yield ('open', '%s.%s: where it is kept was not found' % (st, f))
                continue
            if f not in names:
                yield dict(where, key='%s.%s key' % (st, f), output=f,
                           note='%s.%s is read from %s' % (st, f, ', '.join(sorted(names)) or 'nothing'))
                continue
            t = transformed(prog, body, {x[1] for x in org if x[0] == 'payload'})
            if t is not None:
                yield dict(where, key='%s.%s changed' % (st, f), output=f,
                           note='%s.%s is read by %s, which changes it' % (st, f, t)) if t \
                    else ('open', '%s.%s is read in a way that is not understood' % (st, f))
                continue
            wish = want[f]
            if not rest:
                # the other branch can only refuse the document
                if any(c[2] == 'missing_field' and text(body, c[4][0]) in names for _, c in calls(body)):
                    rest = [('missing', f, False)]
                else:
                    yield ('open', '%s.%s: nothing stands for a missing value' % (st, f))
            for x in rest:
                if x[0] == 'missing':
                    if wish == R and not x[2] or wish == O and x[2]:
                        yield True
                    elif wish == R:
                        yield dict(where, key='%s.%s optional' % (st, f), output=f, note='%s.%s may be left out' % (st, f))
                    else:
                        yield dict(where, key='%s.%s required' % (st, f), output=f,
                                   note='documents without %s.%s are refused' % (st, f))
                elif wish == O and x[0] == 'made' and x[3] == 'None':
                    yield True
                elif wish == R:
                    if x[0] == 'call' or x[0] == 'const' or x[0] == 'made':
                        yield dict(where, key='%s.%s default' % (st, f), output=f,
                                   note='a document without %s.%s is given a value' % (st, f))
                    else:
                        yield ('open', '%s.%s: its origin %s is not understood' % (st, f, x[0]))
                else:
                    r = default_of(ctx, x, 'nothing' if wish == O else wish)
                    if r is True:
                        yield True
                    elif r is False:
                        yield dict(where, key='%s.%s default' % (st, f), output=f,
                                   note='a missing %s.%s does not stand for %s' % (st, f, 'nothing' if wish == O else wish))
                    else:
                        yield ('open', '%s.%s: %s' % (st, f, r))


def transformed(prog, body, locs):
    """a field read by a function of its own: its name if that changes the value, '' if that is not known"""
    todo, seen = list(locs), set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for kind, d in defs(body).get(l, ()):
            if kind == 'rv' and d[0] == 'use' and d[1][0] != 'const':
                todo.append(d[1][1]['l'])
            elif kind == 'rv' and d[0] == 'agg' and d[2]:
                for x in origins(body, d[2][0]):
                    ty = x[2][-1] if x[0] == 'call' and x[1].endswith('next_value') and x[2] else ''
                    if '__DeserializeWith' not in ty:
                        continue
                    n = '<%s as serde_core::de::Deserialize>::deserialize' % ty
                    for _, c in calls(prog.bodies[n]) if n in prog.bodies else ():
                        if c[1] in prog.bodies and arithmetic(prog, c[1], set()):
                            return c[1]
                    return ''
    return None


ARITH = re.compile(r'::(f64|num|float)::.*::(round|floor|ceil|trunc|abs|max|min|clamp|sqrt|powi|powf|rem_euclid)$')


def arithmetic(prog, fn, seen):
    """does a function, or what it calls or makes, calculate with numbers?"""
    if fn in seen:
        return False
    seen.add(fn)
    b = prog.bodies.get(fn)
    if b is None:
        return bool(ARITH.search(fn))
    for blk in b.blocks:
        for s in blk['s']:
            if s[0] == 'assign' and s[2][0] in ('bin', 'un') and b.prog_ty(s[1]['t']).s == 'f64':
                return True
    return any(arithmetic(prog, c[1], seen) for _, c in calls(b)) or \
        any(arithmetic(prog, n, seen) for n in prog.bodies if n.startswith(fn + '::{'))


def write_rule(ctx):
    """every field is written, always, as it is, under its documented key"""
    prog = ctx.P
    for st in sorted(PROTOCOL):
        ws = find(prog, st, lambda n: n.endswith('Serialize>::serialize') and 'Deserialize' not in n and '__' not in n)
        if len(ws) != 1:
            yield ('open', '%s: how it is written was not found' % st)
            continue
        body = prog.bodies[ws[0]]
        put = [(i, c) for i, c in calls(body) if c[2] == 'serialize_field']
        ends = [i for i, c in calls(body) if c[2] == 'end']
        if not put or not ends:
            yield ('open', '%s: its fields are not written one by one' % st)
            continue
        where = dict(function='writing %s' % st, file=body.where())
        cfg = body.cfg()
        got = {}
        for i, c in put:
            k = text(body, c[4][1])
            if k is None:
                got = None
                break
            got.setdefault(k, []).append((i, c))
        if got is None:
            yield ('open', '%s: a key is computed' % st)
            continue
        for f in sorted(PROTOCOL[st]):
            if f not in got:
                yield dict(where, key='%s.%s unwritten' % (st, f), output=f,
                           note='%s.%s is not written (written: %s)' % (st, f, ', '.join(sorted(got))))
                continue
            for i, c in got[f]:
                if not all(cfg.dominates(i, e) for e in ends):
                    if len(got[f]) == 1:
                        yield dict(where, key='%s.%s sometimes' % (st, f), output=f,
                                   note='%s.%s is left out on some path' % (st, f))
                    else:
                        yield ('open', '%s.%s is written in several places' % (st, f))
                    continue
                org = origins(body, c[4][2])
                if org == {('arg', 1, (f,))}:
                    yield True
                elif len(org) == 1 and list(org)[0][0] == 'arg' and list(org)[0][2][:1] != (f,) and list(org)[0][2]:
                    yield dict(where, key='%s.%s from' % (st, f), output=f,
                               note='%s.%s is written from %s' % (st, f, '.'.join(list(org)[0][2])))
                elif any(x[0] == 'computed' for x in org):
                    yield dict(where, key='%s.%s computed' % (st, f), output=f, note='%s.%s is written changed' % (st, f))
                else:
                    yield through(prog, st, f, org, where)


def through(prog, st, f, org, where):
    """a field written by a function of its own: does that hand the value on as it is?"""
    o = list(org)[0]
    if len(org) == 1 and o[0] == 'made':
        inner = '<%s as ' % o[2]
        bs = [n for n in prog.bodies if o[2] + ' as ' in n and n.endswith('Serialize>::serialize')]
        if len(bs) == 1:
            cs = [c for _, c in calls(prog.bodies[bs[0]]) if c[1] in prog.bodies]
            if len(cs) == 1:
                fn = prog.bodies[cs[0][1]]
                out = [c for _, c in calls(fn) if c[2].startswith('serialize')]
                if out and all(is_arg(fn, c) for c in out):
                    return True
                if arithmetic(prog, cs[0][1], set()):
                    return dict(where, key='%s.%s changed' % (st, f), output=f,
                                note='%s.%s is written by %s, which changes it' % (st, f, cs[0][1]))
    return ('open', '%s.%s is written in a way that is not understood' % (st, f))


def value_operands(c):
    return c[4][:1] if c[2] == 'serialize' else c[4][1:]


def is_arg(fn, c):
    return all(origins(fn, o) == {('arg', 1, ())} for o in value_operands(c)) and bool(value_operands(c))


LINTS = {'C34': [('documents are read by the protocol', read_rule), ('documents are written by the protocol', write_rule)]}
