"""Rebuilds the harness (and with it the code under test) from /repo's working tree."""
import fcntl
import hashlib
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')
H = os.path.join(V, 'harness')
REPO = '/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
# the guarded copies of the methods exposed to Python
ENV['RUSTFLAGS'] = '--cfg dess_verif'
LLVM_FLAGS = ['-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout.decode('utf8', 'replace')[-6000:])
        raise SystemExit('build failed: ' + ' '.join(cmd))
    return r.stdout.decode('utf8', 'replace')


def sysroot():
    return sh(['rustc', '--print', 'sysroot'], env=ENV).strip()


def source_hash():
    h = hashlib.sha256()
    for top in (REPO, H):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'docs', '.github'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml')) or (f == 'Cargo.lock' and top == H):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    h.update(open(p, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:24]


def build(kind):
    """kind: 'ir', 'text' -> path of the shrunken whole-program module (that of the text
    encodings and files on its own); 'native' -> path of the
    replay binary. Cached by the content of every source file involved."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock.' + kind), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hs = source_hash()
        tag = os.path.join(B, kind + '.' + hs)
        if kind in ('ir', 'text'):
            out = tag + '.ll'
            if os.path.exists(out):
                return out
            tgt = os.path.join(B, 't-' + kind)
            fresh(tgt, kind)
            env = dict(ENV, CARGO_TARGET_DIR=tgt)
            sh(['cargo', 'rustc', '--release', '--lib', '--crate-type', 'staticlib'] + (['--features', 'text'] if kind == 'text' else []) + ['--', '--emit=llvm-ir'] + LLVM_FLAGS, cwd=H, env=env)
            deps = os.path.join(tgt, 'release', 'deps')
            lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith('vharness') and f.endswith('.ll')]
            if len(lls) != 1:
                raise SystemExit('expected one vharness*.ll, got %r' % lls)
            ents = [l.split('fn ')[1].split('(')[0] for f in sorted(os.listdir(os.path.join(H, 'src'))) if f.endswith('.rs') and (f in ('text.rs', 'py.rs')) == (kind == 'text')
                    for l in open(os.path.join(H, 'src', f)) if 'pub extern "C" fn h_' in l]
            opt = os.path.join(sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin/opt')
            tmp = out + '.tmp'
            sh([opt, '-strip-debug', '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(ents), lls[0], '-o', tmp])
            os.remove(lls[0])
            clean(kind + '.', out)
            os.rename(tmp, out)
            return out
        out = tag + '.bin'
        if os.path.exists(out):
            return out
        tgt = os.path.join(B, 't-native')
        fresh(tgt, kind)
        env = dict(ENV, CARGO_TARGET_DIR=tgt)
        sh(['cargo', 'build', '--profile', 'replay', '--features', 'text', '--bin', 'replay'], cwd=H, env=env)
        import shutil
        clean(kind + '.', out)
        shutil.copy2(os.path.join(tgt, 'replay', 'replay'), out + '.tmp')
        os.rename(out + '.tmp', out)
        return out


def clean(prefix, keep):
    for f in os.listdir(B):
        if f.startswith(prefix) and os.path.join(B, f) != keep:
            p = os.path.join(B, f)
            if os.path.isfile(p) and not p.endswith('.tmp'):
                os.remove(p)


def fresh(tgt, kind):
    """the sources changed: make cargo look at them again whatever their times say"""
    if os.path.isdir(tgt):
        prof = ['--release'] if kind != 'native' else ['--profile', 'replay']
        subprocess.run(['cargo', 'clean', '--offline'] + prof + ['-p', 'dess', '-p', 'dess-proc-macros', '-p', 'dess-examples', '-p', 'vharness'],
                       cwd=H, env=dict(ENV, CARGO_TARGET_DIR=tgt), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


if __name__ == '__main__':
    print(build('ir'))
    print(build('text'))
    print(build('native'))
