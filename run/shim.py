"""The native fault injector (shim.c), built on demand."""
import os, subprocess
import build


def build_so():
    d = os.path.join(build.V, 'build')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'shim.so')
    src = os.path.join(build.V, 'run', 'shim.c')
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, src, '-ldl', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise build.BuildError('shim: ' + p.stdout.decode(errors='replace'))
    return so
