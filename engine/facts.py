"""Extraction of the type-checked program (MIR facts) from a crate's current source."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, '.cache')
REPO = os.environ.get('VERIF_REPO', '/repo')


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def source_files(d, sub=('src',)):
    out = []
    for s in sub:
        for base, dirs, files in os.walk(os.path.join(d, s)):
            dirs.sort()
            if 'target' in dirs:
                dirs.remove('target')
            out += [os.path.join(base, f) for f in sorted(files)]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml'):
        p = os.path.join(d, f)
        if os.path.exists(p):
            out.append(p)
    return out


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def lock(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def sysroot():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise BuildError(out)
    return out.strip()


def driver():
    l = lock('driver')
    d = os.path.join(ROOT, 'driver')
    tgt = os.path.join(CACHE, 'driver')
    stamp = os.path.join(CACHE, 'driver.' + digest(source_files(d)))
    binary = os.path.join(tgt, 'release', 'mirdump')
    if not (os.path.exists(stamp) and os.path.exists(binary)):
        rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--release', '--target-dir', tgt], cwd=d)
        if rc:
            raise BuildError('building the MIR extractor failed:\n' + out[-4000:])
        open(stamp, 'w').close()
    l.close()
    return binary


def extract(crate, tag):
    """fact files of a crate's library and binaries, from its current source"""
    binary = driver()
    l = lock(tag)
    key = digest(source_files(crate) + [os.path.join(ROOT, 'driver', 'src', 'main.rs')])
    out = os.path.join(CACHE, 'facts-%s-%s' % (tag, key))
    if not os.path.exists(os.path.join(out, 'done')):
        for old in glob.glob(os.path.join(CACHE, 'facts-%s-*' % tag)):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, 'target-' + tag)
        for base, dirs, files in os.walk(tgt, topdown=False):
            for n in dirs + files:
                if n.startswith(('nlsn-delaunay', 'nlsn_delaunay', 'libnlsn_delaunay')):
                    p = os.path.join(base, n)
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        env = dict(os.environ)
        for k in list(env):
            if k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC') or k.startswith('CARGO_BUILD_'):
                del env[k]
        env.update(LD_LIBRARY_PATH=sysroot() + '/lib', CARGO_INCREMENTAL='0',
                   RUSTC_WORKSPACE_WRAPPER=binary, MIRDUMP_OUT=out)
        rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--manifest-path',
                      os.path.join(crate, 'Cargo.toml'), '--target-dir', tgt], env=env)
        if rc:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError('type-checking %s failed:\n%s' % (crate, log[-4000:]))
        if not glob.glob(out + '/*.json'):
            raise BuildError('no facts extracted from ' + crate)
        open(os.path.join(out, 'done'), 'w').close()
    l.close()
    files = sorted(glob.glob(out + '/*.json'))
    if tag == 'spec':
        # the stand-ins for third-party crates are not part of the specification
        files = [f for f in files if os.path.basename(f).startswith('nlsn_delaunay-')]
    return files
