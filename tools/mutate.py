#!/usr/bin/env python3
"""Mutation campaign: mutate.py OUT.jsonl [--only GLOB] [--seed N] [--max N] [--jobs N]
Generates small source mutants of /repo's non-test code, keeps those that compile and pass the tests,
and asks every check about the survivors. Works in copies under /tmp/mut*."""
import fnmatch, json, os, random, re, shutil, subprocess, sys, multiprocessing as mp
REPO = '/repo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPFN = {}

def code_lines(path, text):
    """indices of lines of non-test, non-comment code, not in skipped functions"""
    lines = text.split('\n')
    keep = []
    depth_skip = None
    i, depth, block = 0, 0, False
    skip_until = None
    pend = tst = False
    for i, l in enumerate(lines):
        s = re.sub(r'//.*', '', l)
        if '/*' in s:
            block = True
        was = block
        if '*/' in s:
            block = False
        if was:
            continue
        if '#[cfg(test)]' in s:
            pend = True
        if '#[test]' in s:
            tst = True
        m = re.match(r'\s*(pub )?fn (\w+)', s)
        start = (m and tst) or (pend and '{' in s and 'mod' in s) or (m and (m.group(2) in SKIPFN.get(path, ()) or m.group(2) == 'fmt'))
        if start and skip_until is None:
            skip_until = depth
            pend = tst = False
        o = s.count('{') - s.count('}')
        depth += o
        if skip_until is None and s.strip() and not s.strip().startswith(('use ', '#', 'extern', '/*', '*', 'mod ', 'pub mod')):
            keep.append(i)
        if skip_until is not None and depth <= skip_until and '{' not in s.split('}')[-1] and (s.count('}')):
            skip_until = None
    return lines, keep

OPS = [
 (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
 (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
 (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']),
 (r'(?<=[ (])!(?=\w)', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'Continence::Inside', ['Continence::Outside', 'Continence::Boundary']), (r'Continence::Outside', ['Continence::Inside', 'Continence::Boundary']),
 (r'Continence::Boundary', ['Continence::Inside', 'Continence::Outside']),
 (r'BoundaryInclusion::Open', ['BoundaryInclusion::Closed']), (r'BoundaryInclusion::Closed', ['BoundaryInclusion::Open']),
 (r'Orientation::Counterclockwise', ['Orientation::Clockwise', 'Orientation::Colinear']), (r'Orientation::Clockwise', ['Orientation::Counterclockwise']),
 (r'Orientation::Colinear', ['Orientation::Clockwise']),
 (r'\bv1\b', ['v2', 'v3']), (r'\bv2\b', ['v1', 'v3']), (r'\bv3\b', ['v1', 'v2', 'v4']), (r'\bv4\b', ['v3']),
 (r'\be1\b', ['e2']), (r'\be2\b', ['e3']), (r'\be3\b', ['e1']), (r'\be12\b', ['e23']), (r'\be23\b', ['e31']), (r'\be31\b', ['e12']),
 (r'\.x\b', ['.y']), (r'\.y\b', ['.x']), (r'\bx1\b', ['x2']), (r'\by2\b', ['y1']),
 (r'\bh1\b', ['h2']), (r'\bh2\b', ['h1']),
 (r'included_triangles', ['removed_triangles']), (r'removed_triangles', ['included_triangles']),
 (r'new_triangles', ['old_triangles']), (r'old_triangles', ['new_triangles']),
 (r'irregular_triangles', ['large_triangles']), (r'large_triangles', ['irregular_triangles']),
 (r'is_irregular_triangle\(', ['is_large_triangle(']), (r'is_large_triangle\(', ['is_irregular_triangle(']),
 (r'inner_edges', ['outer_edges']), (r'outer_edges', ['inner_edges']),
 (r'\bboundary,', ['&None,']), (r'\bholes,', ['&HashSet::new(),']), (r'segment_const?raints,', ['&HashSet::new(),']),
 (r'&segment_const?raints,', ['&HashSet::new(),']), (r'&self\.holes', ['&HashSet::new()']),
 (r'\b0\b(?!\.)', ['1']), (r'\b1\b(?!\.)', ['0', '2']), (r'\b2\b(?!\.)', ['1', '3']), (r'\b3\b(?!\.)', ['2']),
 (r'\b0\.0\b', ['1.0']), (r'\b2\.0\b', ['3.0', '1.0']), (r'1\.0E-14f64', ['1.0E-6f64', '1.0E-3f64', '0.0']),
 (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\.opposite\(\)', ['.clone()', '']), (r'\bcontinue;', ['break;', '']), (r'\bbreak;', ['continue;']),
 (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']), (r'\.keys\(\)', ['.values()']), (r'\.values\(\)', ['.keys()']),
 (r'midpoint\b', ['v1']), (r'origin', ['destin']), (r'destin', ['origin']),
 (r'\bif (?!let)(.*) \{$', ['if true {', 'if false {']), (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']),
 (r'\.pop\(\)', ['.first().cloned()']), (r'new_opened', ['new_closed']), (r'\.powi\(2\)', ['.abs()']),
 (r'\.iter\(\)', ['.iter().skip(1)', '.iter().take(1)', '.iter().take(2)']),
 (r'\.insert\(', ['.remove(&']),
]

def rare(path):
    """mutants that matter only for large collections"""
    text = open(os.path.join(REPO, path)).read()
    lines, keep = code_lines(path, text)
    out = []
    for i in keep:
        l = lines[i]
        code = l.split('//')[0]
        if re.match(r'\s*(pub )?(fn|struct|enum|impl|trait|type|static|const)\b', code):
            continue
        for m in re.finditer(r'\.iter\(\)|\.drain\(\)|\.into_iter\(\)|\.keys\(\)|\.values\(\)', code):
            out.append((path, i, l[:m.end()] + '.take(40)' + l[m.end():]))
        near = set(re.findall(r'([a-z_][\w.]*)\.(?:iter|len|is_empty|contains|insert|push|get|drain|remove|keys)\(', '\n'.join(lines[max(0, i - 15):i + 10])))
        for n in sorted(near)[:6]:
            for m in re.finditer(r'\bif (?!let)(.*) \{$', code):
                out.append((path, i, l[:m.start()] + 'if (%s) && %s.len() < 40 {' % (m.group(1), n) + l[m.end():]))
                out.append((path, i, l[:m.start()] + 'if (%s) || %s.len() > 40 {' % (m.group(1), n) + l[m.end():]))
        m = re.match(r'^(\s*)(([a-z_][\w.]*)\.(insert|push|remove|extend|retain)\(.*\);)\s*$', code)
        if m:
            out.append((path, i, '%sif %s.len() < 40 { %s }' % (m.group(1), m.group(3), m.group(2))))
        m = re.match(r'^(\s*)\.(chain)\((.*)\)$', code)
        if m:
            out.append((path, i, '%s.chain((%s).into_iter().take(40))' % (m.group(1), m.group(3))))
        m = re.match(r'^(\s*)\.(filter|map|flat_map)\(.*\)$', code)
        if m:
            out.append((path, i, '%s.take(40)\n' % m.group(1) + l))
    return out


def mutants(path):
    text = open(os.path.join(REPO, path)).read()
    lines, keep = code_lines(path, text)
    out = []
    for i in keep:
        l = lines[i]
        code = l.split('//')[0]
        if re.match(r'\s*(pub )?(fn|struct|enum|impl|trait|type|static|const)\b', code) or re.match(r'^\s*\w+: [&\w<>(), ]+,?$', code):
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    out.append((path, i, l[:m.start()] + r + l[m.end():]))
        if re.match(r'^\s*[^{}]*;\s*$', code) and not re.match(r'^\s*(let|return|pub|\.|\}|\))', code):
            out.append((path, i, ''))
        if re.match(r'^\s*\.(chain|filter|map)\(.*\)$', code):
            out.append((path, i, ''))
        m = re.match(r'^(\s*)(&?\w[\w.&()]*),\s*$', code)
        if m and i + 1 < len(lines):
            m2 = re.match(r'^(\s*)(&?\w[\w.&()]*),\s*$', lines[i + 1])
            if m2:
                out.append((path, i, lines[i + 1] + '\n' + l, 2))
        m = re.match(r'^(\s*)(.*;)\s*$', code)
        if m and i + 1 < len(lines) and re.match(r'^\s*[^{}]*;\s*$', lines[i + 1]) and re.match(r'^\s*[^{}]*;\s*$', code) and not code.strip().startswith('let'):
            out.append((path, i, lines[i + 1] + '\n' + l, 2))
    seen, res = set(), []
    for o in out:
        if o not in seen and '\n'.join(lines[o[1]:o[1] + 1]) != o[2]:
            seen.add(o)
            res.append(o)
    return res

ENV = 'R=$PWD; . /opt/vp/env.sh; cd "$R"; '

def setup(n):
    w = '/tmp/mut%d' % n
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', REPO, w + '/repo'], check=True)
    subprocess.run('git checkout -q -- .', shell=True, cwd=w + '/repo')
    return w

def run(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ''

def worker(arg):
    n, jobs, outp = arg
    w = setup(n)
    R = w + '/repo'
    sys.path.insert(0, os.path.join(ROOT, 'engine'))
    for idx, mu in jobs:
        path, i, new = mu[:3]
        k = mu[3] if len(mu) > 3 else 1
        orig = open(os.path.join(REPO, path)).read()
        lines = orig.split('\n')
        old = '\n'.join(lines[i:i + k])
        lines[i:i + k] = [new]
        open(os.path.join(R, path), 'w').write('\n'.join(lines))
        r = dict(idx=idx, path=path, line=i + 1, old=old.strip(), new=new.strip())
        rc, o = run(ENV + 'cargo test --workspace --offline -q -- --test-threads 2', R, 60)
        if rc == 124:
            r['status'] = 'hang'
        elif rc:
            r['status'] = 'nocompile' if 'could not compile' in o else 'killed'
        else:
            bad = False
            for _ in range(2):
                rc, o = run(ENV + 'cargo test --workspace --offline -q -- --test-threads 2', R, 60)
                bad = bad or rc
            if bad:
                r['status'] = 'flaky'
            else:
                rc, o = run('bash %s/tools/ext.sh %s %s/facts %s/rt >/dev/null 2>&1; python3 %s/tools/allprops.py %s/facts/*.json' % (ROOT, R, w, w, ROOT, w), R, 400)
                r['status'] = 'caught' if 'CAUGHT' in o else 'missed'
                r['out'] = o[:600]
        open(os.path.join(R, path), 'w').write(orig)
        with open(outp, 'a') as f:
            f.write(json.dumps(r) + '\n')
    shutil.rmtree(w, ignore_errors=True)

def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    outp = a[0]
    only, seed, mx, jobs = opt('--only', '*'), int(opt('--seed', 1)), int(opt('--max', 10 ** 9)), int(opt('--jobs', 8))
    files = subprocess.run(['git', 'ls-files', 'src'], cwd=REPO, capture_output=True, text=True).stdout.split()
    ms = []
    for f in files:
        if f.endswith('.rs') and fnmatch.fnmatch(f, only) and 'glium' not in f or 'glium_interface/vertex' in f and fnmatch.fnmatch(f, only):
            ms += rare(f) if '--rare' in a else mutants(f)
    random.Random(seed).shuffle(ms)
    if '--redo' in a:
        # only what an earlier campaign missed
        want = {(d['path'], d['old'], d['new']) for d in map(json.loads, open(opt('--redo', None))) if d['status'] == 'missed'}
        def key(m):
            k = m[3] if len(m) > 3 else 1
            return (m[0], '\n'.join(open(os.path.join(REPO, m[0])).read().split('\n')[m[1]:m[1] + k]).strip(), m[2].strip())
        ms = [m for m in ms if key(m) in want]
    ms = ms[:mx]
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)['idx'] for l in open(outp)}
    ms = [(i, m) for i, m in enumerate(ms) if i not in done]
    print(len(ms), 'mutants')
    with mp.Pool(jobs) as p:
        p.map(worker, [(n, ms[n::jobs], outp) for n in range(jobs)], chunksize=1)
main()
