"""The summarised functions a set of functions refers to, transitively."""


def callees(prog, name):
    out = set()
    for b in prog.bodies.values():
        if b.name == name or b.name.startswith(name + '::{'):
            for bl in b.blocks:
                walk(bl, out, prog)
    return out


def walk(x, out, prog):
    if isinstance(x, str):
        if x in prog.bodies:
            out.add(x)
    elif isinstance(x, dict):
        for v in x.values():
            walk(v, out, prog)
    elif isinstance(x, list):
        for v in x:
            walk(v, out, prog)


def closure(ctx, names):
    todo, seen = list(names), []
    while todo:
        n = todo.pop(0)
        if n in seen or '{' in n:
            continue
        if any(m.split('__')[0] == n for m in ctx.S.bodies):
            seen.append(n)
        for c in sorted(callees(ctx.S, n)):
            base = c.split('::{')[0].split('__')[0]
            if base not in seen and base not in todo:
                todo.append(base)
    return seen
