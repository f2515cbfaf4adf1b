"""Guards of RefCell: a typestate of which guards are alive at each point."""
from mir import succs
from wire import call_of, calls, defs
import re

CELL = 'core::cell::RefCell::'
GUARD = re.compile(r'^core::cell::Ref(Mut)?<')
MODE = {'borrow': 'shared', 'borrow_mut': 'mut', 'replace': 'mut', 'replace_with': 'mut', 'swap': 'mut',
        'take': 'mut'}


def is_guard(ty):
    return ty.k == 'adt' and ty.path in ('core::cell::Ref', 'core::cell::RefMut')


def cell_of(body, o, seen=None):
    """what a reference to a cell refers to: a local and the fields from it, or None"""
    if o[0] == 'const':
        return None
    return place_of(body, o[1], set())


def place_of(body, p, seen):
    l = p['l']
    fs = ()
    for e in p['p']:
        if e[0] == 'field':
            fs += (e[2],)
        elif e[0] == 'downcast':
            fs += ('#' + e[2],)
        elif e[0] != 'deref':
            return None
    if 1 <= l <= body.argc:
        return (l,) + fs
    if l in seen:
        return None
    seen.add(l)
    ds = defs(body).get(l, ())
    if len(ds) == 1 and ds[0][0] == 'rv' and ds[0][1][0] in ('ref', 'use', 'rawptr'):
        d = ds[0][1]
        q = d[2] if d[0] == 'ref' else d[1] if d[0] == 'rawptr' else d[1][1] if d[1][0] != 'const' else None
        r = place_of(body, q, seen) if q is not None else None
        return None if r is None else r + fs
    if len(ds) == 1 and ds[0][0] == 'call' and ds[0][1][2] in ('deref', 'as_ref', 'borrow', 'deref_mut') \
            and not is_guard(body.locals[l]) and len(ds[0][1][4]) == 1:
        r = cell_of(body, ds[0][1][4][0])
        return None if r is None else r + ('*',) + fs
    if len([d for d in ds if d[0] == 'rv' and d[1][0] in ('ref', 'use')]) == 0 and ds:
        return (l,) + fs
    return None


def borrows_of(prog, name, cache, depth=0):
    """cells reachable from its arguments that a function borrows: (argument, fields) -> (mode, where)"""
    if name in cache:
        return cache[name]
    cache[name] = {}
    b = prog.bodies.get(name)
    out = {}
    if b is None or depth > 12:
        return out
    for i, c in calls(b):
        if c[1].startswith(CELL) and c[2] in MODE and c[4]:
            p = cell_of(b, c[4][0])
            if p and 1 <= p[0] <= b.argc:
                out.setdefault((p, MODE[c[2]]), '%s block %d' % (b.name, i))
        elif c[1] in prog.bodies:
            for (p, m), w in borrows_of(prog, c[1], cache, depth + 1).items():
                if p[0] - 1 < len(c[4]):
                    q = cell_of(b, c[4][p[0] - 1])
                    if q and 1 <= q[0] <= b.argc:
                        out.setdefault((q + p[1:], m), w)
    cache[name] = out
    return out


def step(body, state, blk, report, i, prog, cache):
    """the guards alive after a block; a state also knows the flags (constant booleans) in force"""
    live = dict(state)
    for s in blk['s']:
        if s[0] == 'dead':
            live.pop(s[1], None)
        elif s[0] == 'assign' and not s[1]['p'] and body.locals[s[1]['l']].s == 'bool':
            c = s[2][1][1].get('bits') if s[2][0] == 'use' and s[2][1][0] == 'const' else None
            live.pop(s[1]['l'], None)
            if c is not None:
                live[s[1]['l']] = c
        elif s[0] == 'assign' and s[2][0] == 'agg' and not s[1]['p']:
            for o in s[2][2]:
                if o[0] == 'move' and not o[1]['p'] and isinstance(live.get(o[1]['l']), tuple):
                    live[s[1]['l']] = live.pop(o[1]['l'])
        elif s[0] == 'assign' and s[2][0] == 'use' and s[2][1][0] == 'move' and not s[2][1][1]['p']:
            g = live.pop(s[2][1][1]['l'], None)
            if g and not s[1]['p']:
                live[s[1]['l']] = g
    t = blk['t']
    if t is None:
        return live
    if t[0] == 'drop' and not t[1]['p']:
        live.pop(t[1]['l'], None)
        return live
    if t[0] == 'call' and not t[3]['p']:
        live.pop(t[3]['l'], None)
    c = call_of(t)
    if c is None:
        return live
    path, res, name, targs, ops, dst = c
    if res.startswith(CELL) and name in MODE and ops:
        p = cell_of(body, ops[0])
        report(i, p, MODE[name], live, None)
        if not dst['p'] and is_guard(body.locals[dst['l']]) and p:
            live[dst['l']] = (p, MODE[name])
        return live
    if res in prog.bodies:
        for (p, m), w in sorted(borrows_of(prog, res, cache).items(), key=repr):
            if p[0] - 1 < len(ops):
                q = cell_of(body, ops[p[0] - 1])
                if q:
                    report(i, q + p[1:], m, live, w)
    moved = [o[1]['l'] for o in ops if o[0] == 'move' and not o[1]['p'] and isinstance(live.get(o[1]['l']), tuple)]
    for l in moved:
        g = live.pop(l)
        if not dst['p'] and is_guard(body.locals[dst['l']]):
            live[dst['l']] = g
    return live


STATES = 64


def after(body, t, state):
    """where a block continues, given the flags"""
    if not t:
        return ()
    if t[0] == 'switch' and t[1][0] != 'const' and not t[1][1]['p'] and isinstance(state.get(t[1][1]['l']), str):
        c = state[t[1][1]['l']]
        return [dict(t[2]).get(c, t[3])]
    return succs(t)


def double_borrows(ctx):
    """a cell is not borrowed again while a guard that excludes it is alive"""
    prog, cache = ctx.P, {}
    if not any(c[1].startswith(CELL) for b in prog.bodies.values() for _, c in calls(b)):
        yield True          # nothing is shared through cells
    for n in sorted(prog.bodies):
        b = prog.bodies[n]
        if not any(c[1].startswith(CELL) and c[2] in MODE for _, c in calls(b)):
            continue
        entry = {0: [{}]}
        todo = [(0, {})]
        nothing = lambda *a: None
        while todo:
            i, st = todo.pop()
            out = step(b, st, b.blocks[i], nothing, i, prog, cache)
            for j in after(b, b.blocks[i]['t'], out):
                known = entry.setdefault(j, [])
                if out not in known and len(known) < STATES:
                    known.append(out)
                    todo.append((j, out))
        found = []

        def report(i, p, mode, live, inside):
            bad = [g for g in live.values() if p and isinstance(g, tuple) and g[0] == p and 'mut' in (g[1], mode)]
            if bad:
                found.append(dict(function=n.replace('nlsn_delaunay::', ''), file=b.where(), output='block %d' % i,
                                  key='%s borrows %s twice' % (n.replace('nlsn_delaunay::', ''), '.'.join(map(str, p[1:]))),
                                  note='%s is borrowed (%s)%s while a guard (%s) is alive: the program panics'
                                       % ('.'.join(map(str, p[1:])) or 'the cell', mode,
                                          ' in ' + inside if inside else '', bad[0][1])))
            else:
                found.append(True if p else ('open', '%s: which cell is borrowed in block %d was not found' % (n, i)))
        for i in sorted(entry):
            seen = len(found)
            for st in entry[i]:
                step(b, st, b.blocks[i], report, i, prog, cache)
            rows = found[seen:]
            bad = [r for r in rows if isinstance(r, dict)]
            found[seen:] = bad[:1] or [r for r in rows if r is not True][:1] or rows[:1]
        for f in found:
            yield f


LINTS = {'C35': [('no cell is borrowed twice', double_borrows)]}
