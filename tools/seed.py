"""creates and verifies planted bugs: seed.py [ID...]   (specs in seeds.py)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = os.path.join(V, 'tools', 'seedlib')
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
W = '/tmp/seedwork'
REPO = W + '/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=REPO + '/target', PYO3_PYTHON='/usr/bin/python3.12', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    sh('git checkout -q -- .', cwd=REPO)
    for f, old, new, *n in s['edits']:
        p = os.path.join(REPO, f)
        t = open(p).read()
        k = n[0] if n else 1
        if t.count(old) < 1 or (not n and t.count(old) != 1): return 'edit matches %d times: %s' % (t.count(old), old[:50])
        if k == 'all': t = t.replace(old, new)
        else:
            parts = t.split(old)
            t = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, 'w').write(t)
    diff = sh('git diff', cwd=REPO).stdout
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    if 'py' in s:
        shutil.copy(L + '/demo_py.sh', d + '/demo.sh'); open(d + '/demo.py', 'w').write(s['py'])
    else:
        shutil.copy(L + '/demo.sh', d + '/demo.sh'); shutil.copy(L + '/Cargo.lock', d)
        open(d + '/demo.rs', 'w').write(open(L + '/prelude.rs').read() + '\nfn main() {\n' + s['demo'].strip('\n') + '\n}\n')
    b = sh('cargo build --workspace --exclude dess-examples-pyo3 --offline && cargo build -p dess-examples-pyo3 --offline', cwd=REPO, env=ENV)
    if b.returncode: return 'does not build\n' + b.stdout[-2000:]
    t = sh('cargo test --workspace --exclude dess-examples-pyo3 --no-fail-fast --offline -- --test-threads 8', cwd=REPO, env=ENV)
    ok = set(re.findall(r'test (\S+) \.\.\. ok', t.stdout))
    bad = [x for x in STABLE if x.split('::', 1)[1] not in ok]
    if bad: return 'tests fail: ' + ' '.join(bad)
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    if r.returncode in (0, 3): return 'demo does not fail with the change (%d) %s' % (r.returncode, r.stdout[-800:])
    sh('git checkout -q -- .', cwd=REPO)
    if 'py' in s: sh('cargo build -p dess-examples-pyo3 --offline', cwd=REPO, env=ENV)
    r2 = sh('bash %s/demo.sh' % d, cwd=REPO)
    if r2.returncode: return 'demo fails without the change (%d) %s' % (r2.returncode, r2.stdout[-800:])
    return 'kept: ' + r.stdout.strip()[-120:]

def main():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(REPO): sh('cp -a /repo ' + REPO)
    sh('git fetch -q /repo && git reset -q --hard FETCH_HEAD' if False else 'true', cwd=REPO)
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want: continue
        if not want and os.path.exists(os.path.join(V, 'seeded', s['id'], 'ok')): continue
        r = make(s)
        print(s['id'], r, flush=True)
        if not r.startswith('kept'):
            shutil.rmtree(os.path.join(V, 'seeded', s['id']), ignore_errors=True)
main()
