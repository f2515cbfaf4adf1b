"""Decide one property: compare what the current source computes with its specification.

usage: check.py PROPERTY [--tier quick|thorough]
"""
import json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from terms import *
import terms
from mir import Program
import models
from coll import atoms_of, cof_any
import verdict
import units
import lints
from compare import analyse
from interp import Budget, with_multiples

ROOT = facts.ROOT
PROVED, REFUTED, UNDECIDED, MISSING = 'proved', 'refuted', 'undecided', 'missing'


def strings(progs):
    strs = set()

    def walk(x):
        if isinstance(x, dict):
            # texts with blanks are messages, never compared with anything
            if x.get('c') == 'str' and not any(ch.isspace() for ch in x['v']):
                strs.add(x['v'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for pr in progs:
        for b in pr.bodies.values():
            walk(b.blocks)
    return strs


def called(prog):
    """the functions a program refers to"""
    names = set()

    def walk(x):
        if isinstance(x, dict):
            if 'path' in x and isinstance(x['path'], str):
                names.add(x['path'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for b in prog.bodies.values():
        walk(b.blocks)
    return names


def called_in(prog, name):
    """the functions the body of a function, its closures and its inner functions refer to"""
    names = set()

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get('path'), str):
                names.add(x['path'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for n, b in prog.bodies.items():
        if n == name or n.startswith(name + '::'):
            walk(b.blocks)
    return {n for n in names if n in prog.bodies}


class Context(object):
    def __init__(self, repo_files, spec_files):
        self.P = Program(repo_files)
        self.S = Program(spec_files)
        self.ms = models.Models([self.P, self.S])
        models.set_strings(strings([self.P, self.S]))
        models.set_known(called(self.S))
        self.opaque, self.dropped = self.references()
        self.cache = {}

    def references(self):
        """functions referred to by name: those both sides have, with one signature"""
        keep, dropped = set(), []
        for n in units.OPAQUE:
            a, b = self.P.bodies.get(n), self.S.bodies.get(n)
            if a is None or b is None or a.sig() != b.sig():
                dropped.append(n)
            else:
                keep.add(n)
        return frozenset(keep), sorted(dropped)

    def named(self, base):
        """what is referred to by name inside a function: the references both sides call"""
        more = units.local(base)
        if not more:
            return self.opaque
        both = called_in(self.P, base) & called_in(self.S, base)
        return self.opaque | {n for n in more if n in both
                              and self.P.bodies[n].sig() == self.S.bodies[n].sig()}

    def summary(self, side, name, base, track=None):
        track = units.tracked(base) if track is None else track
        key = (side, name, track)
        if key not in self.cache:
            prog = self.P if side == 'P' else self.S
            try:
                self.cache[key] = analyse(prog, name, self.named(base) - {base}, self.ms,
                                          seconds=units.SECONDS, track=track)
            except Budget as e:
                self.cache[key] = 'analysis budget: %s' % e
            except RecursionError:
                self.cache[key] = 'analysis depth'
            except Exception as e:
                self.cache[key] = 'analysis error: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
        return self.cache[key]


def short(n):
    return n.replace('nlsn_delaunay::', '')


def where(prog, name):
    b = prog.bodies.get(name)
    return b.where() if b is not None and hasattr(b, 'where') else ''


LIMITED = [False]


class Timeout(BaseException):
    pass


START = time.time()
UNIT_SECONDS, RUN_SECONDS = 180, 720


def _expired(*_):
    raise Timeout()


def unit(ctx, name):
    """(status, [obligation...]) of one function; what takes too long is left open"""
    left = min(UNIT_SECONDS, RUN_SECONDS - (time.time() - START)) if LIMITED[0] else UNIT_SECONDS
    if left < 2:
        return UNDECIDED, [dict(label='-', status=UNDECIDED, note='no time left')]
    old = signal.signal(signal.SIGALRM, _expired)
    signal.setitimer(signal.ITIMER_REAL, left)
    try:
        return unit_of(ctx, name)
    except Timeout:
        verdict.reset()
        return UNDECIDED, [dict(label='-', status=UNDECIDED, note='no answer within %d s' % left)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def unit_of(ctx, name):
    alts = sorted(n for n in ctx.S.bodies if n.split('__')[0] == name and '{' not in n[len(name):]
                  and (n == name or n[len(name):].startswith('__')))
    if not alts:
        return MISSING, [dict(label='-', status=UNDECIDED, note='no specification')]
    sb = ctx.S.bodies[alts[0]]
    if name not in ctx.P.bodies:
        return MISSING, [dict(label='-', status=UNDECIDED, note='not present under this name; judged through its callers')]
    pb = ctx.P.bodies[name]
    if pb.argc != sb.argc or pb.sig() != sb.sig():
        return MISSING, [dict(label='-', status=UNDECIDED, note='signature differs; judged through its callers')]
    a = ctx.summary('P', name, name)
    if isinstance(a, str):
        return UNDECIDED, [dict(label='-', status=UNDECIDED, note=a)]
    rows, skip = [], units.IGNORE.get(name, ())
    for alt in alts:
        b = ctx.summary('S', alt, name)
        if isinstance(b, str):
            rows.append([dict(label='-', status=UNDECIDED, note='specification: ' + b)])
            continue
        o = obligations(a, b, name)
        if any(x['status'] == REFUTED for x in o) and not units.tracked(name):
            o = unless_aborted(ctx, name, alt, o)
        rows.append(o)
    if not units.tracked(name) and 'aborts' not in skip:
        extra = []
        a2 = ctx.summary('P', name, name, True)
        for alt in alts:
            b2 = ctx.summary('S', alt, name, True)
            if isinstance(a2, str) or isinstance(b2, str):
                continue
            r, d = aborts(a2.outs['aborts'], b2.outs['aborts'])
            extra.append(judged(dict(label='aborts'), r, d))
        if extra:
            o = min(extra, key=lambda o: [PROVED, UNDECIDED, REFUTED].index(o['status']))
            for r in rows:
                r[:] = [x for x in r if x['label'] != 'aborts'] + [o]
    best = min(rows, key=lambda r: (sum(o['status'] == REFUTED for o in r), sum(o['status'] == UNDECIDED for o in r)))
    allref = all(any(o['status'] == REFUTED for o in r) for r in rows)
    if all(o['status'] == PROVED for o in best):
        return PROVED, best
    if allref:
        return REFUTED, best
    # some form leaves it open
    best = min(rows, key=lambda r: any(o['status'] == REFUTED for o in r))
    return UNDECIDED, best


def obligations(a, b, name):
    out = []
    pa, pb = a.outs.get('returns', TRUE), b.outs.get('returns', TRUE)
    live = AND(pa, pb)
    skip = units.IGNORE.get(name, ())
    if 'aborts' in b.outs:
        live = AND(NOT(a.outs['aborts']), NOT(b.outs['aborts']))
    verdict.peers(list(a.outs.values()) + list(b.outs.values()))
    for l in sorted(set(b.outs) | {'returns'}):
        if l in skip or l == 'returns' and 'aborts' in b.outs:
            continue
        o = dict(label=l)
        out.append(o)
        if l == 'returns':
            r, d = verdict.compare(live, pb)
        elif l == 'aborts':
            r, d = aborts(a.outs[l], b.outs[l])
        elif l not in a.outs:
            o.update(status=UNDECIDED, note='output of another shape')
            continue
        else:
            r, d = verdict.compare(with_multiples(a.outs[l], live), with_multiples(b.outs[l], live), live)
        judged(o, r, d)
    return out


def judged(o, r, d):
    if r == verdict.SAME:
        o['status'] = PROVED
    elif r == verdict.DIFF:
        o['status'] = REFUTED
        o.update(d.text(8))
    else:
        o['status'] = UNDECIDED
        o['note'] = d[1] if d else ''
        if d and d[0] and os.environ.get('VERIF_DEBUG'):
            o.update(d[0].text(8))
    return o


def aborts(a, b):
    """no abort where the specification completes"""
    r, d = verdict.compare(AND(a, NOT(b)), FALSE)
    if r != verdict.DIFF:
        return r, d
    # conditions that only one side states, in terms of a round of a loop of its own, say nothing
    theirs = set(atoms_of(b))
    for at in atoms_of(a):
        if at not in theirs and (any(s.a[1] != 'arg' for s in at.fv) or at.op == 'a:b' and at.a[0].op in ('some', 'someround')):
            a = AND(cof_any(a, at, 0), cof_any(a, at, 1))
    r2, d2 = verdict.compare(AND(a, NOT(b)), FALSE)
    return (r2, d2) if r2 == verdict.DIFF else (verdict.UNKNOWN, (d, 'an abort in a loop of another form'))


def unless_aborted(ctx, name, alt, rows):
    """a difference counts where the specification completes: judged again with the conditions of every
    abort (an unmet unwrap, an index out of bounds) spelled out on both sides"""
    a, b = ctx.summary('P', name, name, True), ctx.summary('S', alt, name, True)
    if isinstance(a, str) or isinstance(b, str):
        return rows
    o = obligations(a, b, name)
    return o if not any(x['status'] == REFUTED for x in o) else rows


def known_findings(prop):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' :: ', 1)
                out[key.strip()] = text.strip()
    return out


def main():
    t0 = time.time()
    LIMITED[0] = True
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo_files = facts.extract(facts.REPO, 'repo')
    spec_files = facts.extract(os.path.join(ROOT, 'spec'), 'spec')
    t1 = time.time()
    ctx = Context(repo_files, spec_files)
    names = units.functions(prop, ctx, tier)
    rows, violations, counts = [], [], {PROVED: 0, REFUTED: 0, UNDECIDED: 0, MISSING: 0}
    known = known_findings(prop)
    shown = []
    for n in names:
        st, obs = unit(ctx, n)
        rows.append(dict(function=short(n), status=st, outputs=obs))
        for o in obs:
            counts[o['status']] += 1
            if o['status'] == REFUTED and st == REFUTED:
                violations.append(dict(kind='value', function=short(n), output=o['label'],
                                       file=where(ctx.P, n), when=o.get('when'), got=o.get('got'),
                                       expected=o.get('expected'), note=o.get('note')))
    for name, fn in lints.LINTS.get(prop, ()):
        n0 = len(violations)
        checked, opened = 0, []
        for v in fn(ctx):
            if v is True:
                checked += 1
                continue
            if isinstance(v, tuple):
                opened.append(v[1])
                continue
            v.setdefault('kind', 'rule')
            v['rule'] = name
            violations.append(v)
        bad = len(violations) - n0
        counts[PROVED] += checked
        counts[REFUTED] += bad
        rows.append(dict(rule=name, checked=checked, undecided=opened, status=REFUTED if bad else PROVED))
        counts[UNDECIDED] += len(opened)
        if checked + bad + len(opened) == 0:
            violations.append(dict(kind='rule', rule=name, note='the rule found nothing to examine: its anchor is gone',
                                   function=name))
    late = any('no answer' in str(o.get('note')) or o.get('note') == 'no time left' for r in rows for o in r.get('outputs', ()))
    if names and not counts[PROVED] and not violations and not late:
        violations.append(dict(kind='anchor', function=prop, note='nothing of this property could be decided: its functions are gone or out of reach'))
    new = []
    for v in violations:
        key = v.get('key') or '%s %s' % (v['function'], v.get('output', ''))
        v['key'] = key.strip()
        if v['key'] in known:
            shown.append('KNOWN-FINDING: property=%s %s: %s' % (prop, v['key'], known[v['key']]))
        else:
            new.append(v)
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    rep = os.path.join(ROOT, 'evidence', 'replay', prop + '.json')
    with open(rep, 'w') as f:
        json.dump(dict(property=prop, violations=new, rows=rows), f, indent=1)
    total = sum(counts[k] for k in (PROVED, REFUTED, UNDECIDED))
    ev = dict(property=prop, tier=tier, seed=seed, level='other',
              coverage=dict(
                  explanation='Every listed output of every listed function of the current source was computed '
                              'as a normalised value graph by dataflow over its MIR (all branches joined, nothing '
                              'executed) and compared with the value graph of the specification in /verif/spec.',
                  functions=len(names), obligations=total, proved=counts[PROVED], refuted=counts[REFUTED],
                  undecided=counts[UNDECIDED], bodies_in_program=len(ctx.P.bodies),
                  rule='equal normal forms, or a rule of engine/lints.py, wire.py or borrows.py', details=rows,
                  known_findings=shown, summarised_functions_not_found=[short(x) for x in ctx.dropped]),
              wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=units.ASSUMPTIONS)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s in shown:
        print(s)
    print('%s: %d functions, %d obligations: %d proved, %d refuted, %d undecided (%.1f s extraction, %.1f s analysis)'
          % (prop, len(names), total, counts[PROVED], counts[REFUTED], counts[UNDECIDED], t1 - t0, time.time() - t1))
    for r in rows:
        for o in r.get('undecided', ()):
            print('  undecided: %s: %s' % (r['rule'], o))
        for o in r.get('outputs', ()):
            if o['status'] == UNDECIDED:
                print('  undecided: %s %s: %s' % (r['function'], o['label'], o.get('note')))
    if new:
        for v in new:
            print('  %s %s' % (v.get('file', ''), v['key']))
            for c in v.get('when') or ():
                print('      when ' + c[:300])
            if v.get('got') is not None:
                print('      computes ' + str(v['got'])[:600])
                print('      expected ' + str(v['expected'])[:600])
            if v.get('note'):
                print('      ' + v['note'])
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except facts.BuildError as e:
        print(str(e))
        sys.exit(2)
