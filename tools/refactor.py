#!/usr/bin/env python3
"""refactor.py [--jobs N] [--file GLOB] [NAME...]: applies behaviour-preserving edits (tools/refactorings/*.py) to copies of /repo
and reports every alarm the checks raise on them. R = [(name, [(path, old, new), ...])]."""
import glob, os, shutil, subprocess, sys, multiprocessing as mp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENV = 'R=$PWD; . /opt/vp/env.sh; cd "$R"; '

def run(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)

def worker(arg):
    n, items = arg
    w = '/tmp/refac%d' % n
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', REPO, w + '/repo'], check=True)
    R = w + '/repo'
    for name, edits in items:
        run('git checkout -q -- .', R)
        why = ''
        for p, old, new in edits:
            s = open(f'{R}/{p}').read()
            if s.count(old) != 1:
                why = '%s: %d matches of %r' % (p, s.count(old), old[:50])
            open(f'{R}/{p}', 'w').write(s.replace(old, new, 1))
        if not why:
            t = run(ENV + 'cargo test --workspace --offline -q -- --test-threads 2', R)
            if t.returncode:
                why = 'does not compile: ' + t.stderr[-900:] if 'could not compile' in t.stderr else 'tests fail: ' + t.stdout[-300:]
        if why:
            print('INVALID', name, why, flush=True)
            continue
        o = run('bash %s/tools/ext.sh %s %s/facts %s/rt >/dev/null 2>&1; python3 %s/tools/allprops.py %s/facts/*.json' % (ROOT, R, w, w, ROOT, w), R)
        o.stdout = '\n'.join(l for l in o.stdout.split('\n') if 'interpreter::vertex:-' not in l)
        out = o.stdout + (o.stderr[-500:] if o.returncode else '')
        print('ALARM' if 'CAUGHT' in out or o.returncode else 'open ' if 'undecided' in out else 'quiet', name, '\n   '.join([''] + [l[:230] for l in out.split('\n') if l]), flush=True)
    shutil.rmtree(w, ignore_errors=True)

def main():
    a = sys.argv[1:]
    jobs = 4
    if '--jobs' in a:
        i = a.index('--jobs')
        jobs = int(a[i + 1])
        del a[i:i + 2]
    items, files = [], '*'
    if '--file' in a:
        i = a.index('--file')
        files = a[i + 1]
        del a[i:i + 2]
    for f in sorted(glob.glob(ROOT + '/tools/refactorings/%s.py' % files)):
        g = {}
        exec(open(f).read(), g)
        items += g['R']
    if a:
        items = [i for i in items if any(x in i[0] for x in a)]
    with mp.Pool(jobs) as p:
        p.map(worker, [(n, items[n::jobs]) for n in range(jobs)], chunksize=1)
main()
