"""Build the MIR dumps of /repo's current tree (cached by content)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
STD = ("std::option::;std::result::;core::option;core::result;<std::option::Option;<std::result::Result;std::iter::;<std::iter::;"
       "<&mut I as std::iter;core::bool::;std::mem::;std::ops::ControlFlow;<std::ops::ControlFlow;std::convert::;<T as std::convert;<std::ops::Range")


class FactsError(Exception):
    pass


def _hash_files(h, root, pats):
    fs = []
    for p in pats:
        fs += glob.glob(os.path.join(root, p), recursive=True)
    for f in sorted(set(fs)):
        if os.path.isfile(f) and '/target/' not in f[len(root):]:
            h.update(f[len(root):].encode() + b'\0')
            h.update(open(f, 'rb').read())


def source_key():
    h = hashlib.sha256()
    _hash_files(h, REPO, ['Cargo.toml', 'Cargo.lock', '.cargo/**', 'koopa/Cargo.toml', 'libkoopa/Cargo.toml', 'koopa/src/**', 'libkoopa/src/**',
                          'koopa/build.rs', 'libkoopa/build.rs', 'libkoopa/include/**'])
    _hash_files(h, HERE, ['driver/src/**', 'driver/Cargo.toml', 'roots/src/**', 'roots/Cargo.toml', 'roots/Cargo.lock'])
    h.update(STD.encode())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:24]


def env_base():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def sh(cmd, env, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def driver():
    """path of the built driver"""
    d = os.path.join(HERE, 'driver')
    h = hashlib.sha256()
    _hash_files(h, HERE, ['driver/src/**', 'driver/Cargo.toml', 'driver/rust-toolchain.toml'])
    out = os.path.join(BUILD, 'driver-' + h.hexdigest()[:16])
    binp = os.path.join(out, 'debug', 'mirdump')
    if not os.path.exists(binp):
        rc, o = sh(['cargo', '+nightly', 'build', '--offline', '--target-dir', out], env_base(), d)
        if rc != 0:
            raise FactsError('driver build failed:\n' + o[-3000:])
    return binp


def build(which):
    """which: roots | roots-nofl | libkoopa -> path of the json dump"""
    os.makedirs(BUILD, exist_ok=True)
    key = source_key()
    d = os.path.join(BUILD, 'facts-' + key)
    path = os.path.join(d, which + '.json')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(path):
            os.utime(d)
            return path
        drv = driver()
        os.makedirs(d, exist_ok=True)
        # keep few old dumps
        old = sorted((x for x in glob.glob(os.path.join(BUILD, 'facts-*')) if x != d), key=os.path.getmtime)
        for x in old[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        e = env_base()
        rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'], e)
        if rc != 0:
            raise FactsError(o)
        e['LD_LIBRARY_PATH'] = o.strip().splitlines()[-1] + '/lib'
        e['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on'
        e['MIRDUMP_STD'] = STD
        tgt = os.path.join(BUILD, 'tgt-%s-%d' % (which, os.getpid()))
        outd = tgt + '-out'
        os.makedirs(outd, exist_ok=True)
        e['MIRDUMP_OUT'] = outd
        e['RUSTC_WRAPPER'] = drv
        try:
            if which.startswith('roots'):
                e['MIRDUMP_CRATES'] = 'roots'
                cmd = ['cargo', '+nightly', 'check', '--offline', '--manifest-path', os.path.join(HERE, 'roots', 'Cargo.toml'), '--target-dir', tgt]
                if which == 'roots-nofl':
                    cmd += ['--features', 'no-front-logger']
                src = os.path.join(outd, 'roots.json')
                if REPO != '/repo':
                    # analyse a scratch copy: same roots crate, other path dependency
                    rc_ = os.path.join(tgt, 'roots-src')
                    shutil.copytree(os.path.join(HERE, 'roots'), rc_, ignore=shutil.ignore_patterns('target'))
                    t = open(os.path.join(rc_, 'Cargo.toml')).read().replace('/repo/koopa', REPO + '/koopa')
                    open(os.path.join(rc_, 'Cargo.toml'), 'w').write(t)
                    cmd[cmd.index('--manifest-path') + 1] = os.path.join(rc_, 'Cargo.toml')
            else:
                e['MIRDUMP_CRATES'] = 'libkoopa'
                # a scratch copy of the workspace, in which libkoopa also holds the accessor roots
                ws = os.path.join(outd, 'ws')
                os.makedirs(ws)
                for x in ('Cargo.toml', 'Cargo.lock', 'koopa', 'libkoopa'):
                    s_, d_ = os.path.join(REPO, x), os.path.join(ws, x)
                    if os.path.isdir(s_): shutil.copytree(s_, d_, ignore=shutil.ignore_patterns('target', '.git'))
                    elif os.path.exists(s_): shutil.copy(s_, d_)
                shutil.copy(os.path.join(HERE, 'roots', 'src', 'lib.rs'), os.path.join(ws, 'libkoopa', 'src', 'verif_roots.rs'))
                with open(os.path.join(ws, 'libkoopa', 'src', 'lib.rs'), 'a') as f: f.write('\n#[path = "verif_roots.rs"]\npub mod roots;\n')
                cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--manifest-path', os.path.join(ws, 'libkoopa', 'Cargo.toml'), '--lib', '--target-dir', tgt]
                src = os.path.join(outd, 'libkoopa.json')
            rc, o = sh(cmd, e)
            if rc != 0 or not os.path.exists(src):
                raise FactsError('dump of %s failed (rc %s):\n%s' % (which, rc, o[-3000:]))
            shutil.move(src, path)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
            shutil.rmtree(outd, ignore_errors=True)
        return path


if __name__ == '__main__':
    for w in sys.argv[1:] or ['roots', 'roots-nofl', 'libkoopa']:
        print(build(w))
