#!/usr/bin/env python3
"""Builds and confirms planted bugs: plant.py FILE... ; each FILE defines BUGS, a list of
dict(id, prop, edits=[(path, old, new)], needs, breaks, demo=<rust source> or None, sh=<script> or None)."""
import shlex, json, os, shutil, subprocess, sys
REPO, OUT = '/repo', '/verif/seeded'
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
. /opt/vp/env.sh; cd "$R"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cargo build --lib --offline -q 2>/dev/null || exit 3
rustc --edition 2018 -A warnings -o "$T/d" "$D/demo.rs" --extern nlsn_delaunay=target/debug/libnlsn_delaunay.rlib -L dependency=target/debug/deps || exit 3
timeout 120 "$T/d"
'''
def run(cmd, cwd, t=600):
    try:
        return subprocess.run('timeout %d bash -c %s' % (t - 10, shlex.quote(cmd)), cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, 'test result: FAILED', '')
ENV = 'R=$PWD; . /opt/vp/env.sh; cd "$R"; '
def failed(out):
    import re
    return sorted(set(re.findall(r'^test (\S+) \.\.\. FAILED', out, re.M)))
def main():
    bugs = []
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        bugs += g['BUGS']
    W = '/tmp/plantcopy'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', REPO, W], check=True)
    run('git checkout -q -- .', W)
    for b in bugs:
        d = os.path.join(OUT, b['id'])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.sh', 'w').write(b.get('sh') or SH); os.chmod(d + '/demo.sh', 0o755)
        if b.get('demo'):
            open(d + '/demo.rs', 'w').write(b['demo'])
        for n, t in (b.get('files') or {}).items():
            open(d + '/' + n, 'w').write(t)
        run('git checkout -q -- . && touch src/lib.rs src/main.rs', W)
        ok = run(d + '/demo.sh', W)
        why = ''
        if ok.returncode: why = 'demo fails on clean tree: %d %s' % (ok.returncode, (ok.stdout + ok.stderr)[-1500:])
        for p, old, new in b['edits']:
            s = open(f'{W}/{p}').read()
            if s.count(old) != 1: why = why or f'{p}: {s.count(old)} matches of {old[:60]!r}'
            open(f'{W}/{p}', 'w').write(s.replace(old, new))
            base = run(f'git show 872ac13:{p}', W).stdout.split('\n')
            for l in old.split('\n'):
                if l not in new.split('\n') and not any(l.strip() in x for x in base): why = why or 'edits a line that is not original: ' + l
        if not why:
            t = [run(ENV + 'cargo test --workspace --no-fail-fast --offline -- --test-threads 8', W) for _ in range(2)]
            f = failed(t[0].stdout) + failed(t[1].stdout)
            base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
            if 'error' in t[0].stderr and 'could not compile' in t[0].stderr: why = 'does not compile ' + t[0].stderr[-1500:]
            elif f: why = 'tests fail: %s' % f
        if not why:
            rs = [run(d + '/demo.sh', W).returncode for _ in range(3)]
            if 0 in rs: why = 'demo passes with the bug: %s' % rs
        if why:
            print('REJECT', b['id'], why); shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(run('git diff', W).stdout)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print('KEEP', b['id'])
    shutil.rmtree(W, ignore_errors=True)
main()
