"""Builds the engine and the bitcode / native harness from /repo's current tree."""
import glob, os, subprocess, fcntl, hashlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the two variables serve to try a change in a scratch copy of /repo; nothing sets them in a check
B = os.environ.get('JBK_BUILD', os.path.join(V, 'build'))
H = os.environ.get('JBK_HARNESS', os.path.join(V, 'harness'))
TC = 'nightly-x86_64-unknown-linux-gnu'
TRIPLE = 'x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def env(**k):
    e = dict(os.environ)
    for x in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        e.pop(x, None)
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TC)
    e.setdefault('HOME', '/root')
    e.update(k)
    return e


def cargo(args, cwd, **k):
    os.makedirs(B, exist_ok=True)
    # `--locked` is not used: the lock file of the harness is committed and cargo leaves it alone
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env(**k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(f'cargo {" ".join(args)} in {cwd} failed:\n' + p.stdout[-6000:])
    return p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    with Lock('engine'):
        cargo(['build', '--release', '--offline'], os.path.join(V, 'engine'), CARGO_TARGET_DIR=os.path.join(V, 'build/engine'))
    return os.path.join(V, 'build', 'engine/release/symex')


FLAGS = '--cfg=rustix_use_libc --emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all'


def bitcode(profile='release'):
    """One optimised bitcode module of harness + jubako + dependencies + std."""
    td = os.path.join(B, 'bc')
    with Lock('bc-' + profile):
        cargo(['build', '--profile', profile, '--target', TRIPLE, '--offline'], H, CARGO_TARGET_DIR=td, RUSTFLAGS=FLAGS)
        c = glob.glob(os.path.join(td, TRIPLE, profile, 'build/harness/*/out/harness.bc')) + glob.glob(os.path.join(td, TRIPLE, profile, 'deps/harness-*.bc'))
        if not c:
            raise BuildError('no bitcode produced')
        return max(c, key=os.path.getmtime)


def native(profile='release'):
    """The same harness, natively, replaying a recorded assignment."""
    td = os.path.join(B, 'native')
    with Lock('native-' + profile):
        cargo(['build', '--profile', profile, '--features', 'native', '--offline'], H, CARGO_TARGET_DIR=td)
    return os.path.join(td, profile, 'harness')
