"""Builds the LD_PRELOAD seams (shim/*.c) into /verif/build when they are missing or older."""
import hashlib
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ensure(name='fsshim'):
    src = os.path.join(VERIF, 'shim', name + '.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:12]
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, '%s-%s.so' % (name, tag))
    if not os.path.exists(so):
        fd, tmp = tempfile.mkstemp(suffix='.so', dir=d)
        os.close(fd)
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', tmp, src, '-ldl'], check=True)
        os.replace(tmp, so)
    return so
