"""Plant bugs: plant(id, prop, [(file, old, new[, nth])], needs, breaks, demo) writes /verif/seeded/<id> after confirming in /tmp/seed/repo that the change builds,
passes the tests and that the demonstration passes without it and fails with it.  demo: rust source (str), or dict(name -> content) with its own demo.sh."""
import json, os, re, shutil, subprocess, sys
R = '/tmp/seed/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Builds demo.rs against its koopa crate in a scratch directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nkoopa = { path = "%s/koopa" }\\n[workspace]\\n' "$REPO" > "$W/Cargo.toml"
cd "$W" && timeout 250 cargo run -q --offline --target-dir "$W/target"
'''
CDEMO = '''#!/bin/bash
# cwd: the repository. Builds the library as a static library in a scratch directory, links demo.c with it and runs it.
D=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
cargo build -q --offline --manifest-path "$REPO/libkoopa/Cargo.toml" --target-dir "$W/target" || exit 8
gcc -w -I"$REPO/libkoopa/include" "$D/demo.c" -o "$W/demo" -L"$W/target/debug" -l:libkoopa.a -lpthread -ldl -lm || exit 8
cd "$W" && timeout 60 ./demo
'''


def sh(cmd, cwd=R, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def plant(pid, prop, edits, needs, breaks, demo, check=None):
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    d = os.path.join(HERE, 'seeded', pid)
    os.makedirs(d, exist_ok=True)
    if isinstance(demo, str):
        files = {'demo.c': demo, 'demo.sh': CDEMO} if '#include' in demo else {'demo.rs': demo, 'demo.sh': DEMO}
    else: files = demo
    for n, t in files.items():
        open(os.path.join(d, n), 'w').write(t)
        if n.endswith('.sh'): os.chmod(os.path.join(d, n), 0o755)
    r = sh('bash %s/demo.sh' % d)
    if r.returncode != 0:
        print(pid, 'DEMO FAILS ON CLEAN', (r.stdout + r.stderr)[-1500:]); return False
    for f, old, new, *nth in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        k = s.count(old)
        if k == 0 or (k > 1 and not nth):
            print(pid, 'EDIT MATCHES %d TIMES' % k, f, old[:60]); return False
        if nth:
            i = -1
            for _ in range(nth[0] + 1): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else: s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh('git diff').stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    r = sh('cargo test --workspace --no-fail-fast --offline 2>&1')
    ok = sum(int(x) for x in re.findall(r'(\d+) passed', r.stdout))
    bad = sum(int(x) for x in re.findall(r'(\d+) failed', r.stdout))
    if bad or ok < 34:
        print(pid, 'TESTS', ok, bad, r.stdout[-2000:]); return False
    r = sh('bash %s/demo.sh' % d)
    if r.returncode == 0 or r.returncode in (8, 9):
        print(pid, 'DEMO rc %d ON PATCHED' % r.returncode, (r.stdout + r.stderr)[-600:]); return False
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(pid, 'ok; demo rc', r.returncode, (r.stderr.strip().splitlines() or [''])[-1][:150])
    env = dict(os.environ, VERIF_REPO=R)
    for c in [prop] + list(check or []):
        if os.path.exists(HERE + '/checks/%s.py' % c):
            q = subprocess.run(['python3', HERE + '/checks/%s.py' % c], env=env, capture_output=True, text=True)
            print('   ', c, 'rc', q.returncode, (q.stdout.splitlines() or [''])[0][:200])
    sh('git checkout -q -- .')
    return True
