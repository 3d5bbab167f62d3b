"""Rebuilds, from /repo's current working tree, the MIR dump the verifier works on and the native harness."""
import os, subprocess, hashlib, shutil, glob, sys, fcntl, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')

class BuildError(Exception): pass

def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC', 'CARGO_BUILD_TARGET', 'RUSTC_WORKSPACE_WRAPPER'): e.pop(k, None)
    e['HOME'] = '/root'; e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    e.update(kw)
    return e

def run(cmd, cwd, e, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode: raise BuildError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout

def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def crate_files(src):
    """copy of a crate with its path dependencies pointing at REPO"""
    return src

def forget(target, names):
    """drop cargo's memory of the path crates, so that they are compiled again whatever their time stamps say"""
    for prof in ('debug', 'release'):
        for n in names:
            for d in glob.glob(os.path.join(target, prof, '.fingerprint', n + '-*')): shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(os.path.join(target, prof, 'build', n), ignore_errors=True)

PATHCRATES = ['libsecp256k1', 'libsecp256k1-core', 'libsecp256k1-gen-ecmult', 'libsecp256k1-gen-genmult', 'vroots', 'harness']

def cargo_dir(name):
    """committed crate /verif/<name>; when REPO is not /repo a copy whose path dependencies point there"""
    src = os.path.join(ROOT, name)
    if REPO == '/repo' and ROOT == '/verif': return src
    dst = os.path.join(BUILD, 'crates', name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('target'))
    p = os.path.join(dst, 'Cargo.toml')
    t = open(p).read().replace('"../../repo', '"' + REPO)
    open(p, 'w').write(t)
    return dst

def driver():
    run(['cargo', '+nightly', 'build', '--offline', '--quiet'], os.path.join(ROOT, 'mirdump'), env(CARGO_TARGET_DIR=os.path.join(BUILD, 'mirdump')))
    return os.path.join(BUILD, 'mirdump', 'debug', 'mirdump')

def mir():
    """returns the path of a fresh MIR dump of /repo's working tree"""
    d = driver()
    target = os.path.join(BUILD, 'mir')
    forget(target, PATHCRATES)
    out = os.path.join(BUILD, 'mir.json')
    if os.path.exists(out): os.unlink(out)
    run(['cargo', '+nightly', 'build', '--offline', '--quiet'], cargo_dir('vroots'),
        env(CARGO_TARGET_DIR=target, RUSTC_WRAPPER=d, MIRDUMP_OUT=out, RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'))
    if not os.path.exists(out): raise BuildError('the MIR dump was not written')
    return out

def harness():
    target = os.path.join(BUILD, 'native')
    forget(target, PATHCRATES)
    run(['cargo', 'build', '--offline', '--quiet'], cargo_dir('harness'), env(CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN='stable', RUSTFLAGS='-Awarnings'))
    return os.path.join(target, 'debug', 'harness')

if __name__ == '__main__':
    with lock():
        t = time.time(); mir(); print('MIR dump', round(time.time() - t, 1), 's')
        if os.path.isdir(os.path.join(ROOT, 'harness')):
            t = time.time(); harness(); print('harness', round(time.time() - t, 1), 's')
