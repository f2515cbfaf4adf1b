#!/usr/bin/env python3
"""allprops.py FACTS_FILES... : which properties' checks refute the given fact files (spec facts from the cache)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
sys.setrecursionlimit(100000)
import check, units, lints, facts
def judge(repo_files, spec_files):
    ctx = check.Context(repo_files, spec_files)
    res, memo, und = {}, {}, set()
    for p in sorted(units.PROPS):
        known = check.known_findings(p)
        for n in units.functions(p, ctx):
            if n not in memo:
                memo[n] = check.unit(ctx, n)
            st, obs = memo[n]
            if st == check.REFUTED:
                for o in obs:
                    if o['status'] == check.REFUTED and '%s %s' % (check.short(n), o['label']) not in known:
                        res.setdefault(p, []).append('%s %s' % (check.short(n), o['label']))
            elif st != check.PROVED:
                und.add('%s:%s' % (check.short(n), next((o['label'] + ' ' + str(o.get('note')) for o in obs if o['status'] != check.PROVED), '')))
    for p in sorted(lints.LINTS):
        for name, fn in lints.LINTS[p]:
            for v in fn(ctx):
                if isinstance(v, dict):
                    res.setdefault(p, []).append('%s %s' % (name, v['function']))
    return res, und
if __name__ == '__main__':
    spec = facts.extract(os.path.join(facts.ROOT, 'spec'), 'spec')
    r, u = judge(sys.argv[1:], spec)
    for p in r: print('CAUGHT', p, r[p])
    for x in sorted(u): print('undecided', x)
