"""Simulated storage: the scratch directory behind the LD_PRELOAD seam.

Every file operation of the code under test is announced here.  The object injects scripted errors and short
transfers, records the directory image after every operation (what a process killed there would leave), torn-write
variants, and a power-loss model (fsync makes an inode durable, directory changes become durable in order)."""
import ctypes
import errno
import importlib.util
import os
import shutil
import sys

OPS = {1: 'open', 2: 'write', 3: 'read', 4: 'fsync', 5: 'close', 6: 'rename', 7: 'unlink', 8: 'truncate', 9: 'link',
       10: 'mkdir', 11: 'write'}
CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int,
                      ctypes.c_long, ctypes.c_long)
_lib = None


def shim():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        try:
            _lib.dst_shim_configure
        except AttributeError:
            raise RuntimeError('file-system seam is not loaded (LD_PRELOAD)')
        _lib.dst_shim_configure.argtypes = [ctypes.c_char_p, CB]
    return _lib


def fresh_module(name='tmdsimpy.utils.continuation'):
    """The module as a restarted process would see it: nothing remembered from before."""
    import importlib
    importlib.import_module(name)
    spec = importlib.util.find_spec(name)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


class FSim:
    def __init__(self, root, run, faults=(), images=True, readers=()):
        self.root = os.path.realpath(root)
        self.run = run
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.n = 0
        self.images = []         # list of (op index, phase, label, {name: (ino, bytes)})
        self.keep = images
        self.error = None
        self.fired = 0
        self.durable = {}        # ino -> bytes at last fsync
        self.known_inodes = set()
        self.open_now = 0
        self.opened = {}
        self.readers = list(readers)
        self.read_results = []
        self.marks = []
        self._cb = CB(self._on_op)
        self._kill_tears = []

    # state ------------------------------------------------------------------
    def snap(self):
        out = {}
        for d, _, files in os.walk(self.root):
            for f in sorted(files):
                p = os.path.join(d, f)
                try:
                    st = os.stat(p)
                    with open(p, 'rb') as h:
                        out[os.path.relpath(p, self.root)] = (st.st_ino, h.read())
                except FileNotFoundError:
                    pass
        return out

    def start(self):
        s = self.snap()
        self.durable = {ino: b for ino, b in s.values()}     # what is there at the start is on disk
        self.known_inodes = set(self.durable)
        self.images = [(0, 'start', 'start', s)]
        self.base_image = 0

    def current(self):
        return self.images[-1][3] if self.images else self.snap()

    def _on_op(self, op, phase, p1, p2, fd, arg, res):
        try:
            return self._op(OPS.get(op, str(op)), phase, (p1 or b'').decode(errors='replace'),
                            (p2 or b'').decode(errors='replace'), fd, arg, res) or 0
        except BaseException as e:      # noqa
            import traceback
            self.error = self.error or ''.join(traceback.format_exception(type(e), e, e.__traceback__))
            return 0

    def _op(self, op, phase, p1, p2, fd, arg, res):
        rel = os.path.relpath(p1, self.root) if p1.startswith(self.root) else p1
        if phase == 0:
            self.n += 1
            wr = op == 'open' and bool(arg & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            key = 'openw' if wr else ('openr' if op == 'open' else op)
            k = self.counts[key] = self.counts.get(key, 0) + 1
            for r in self.readers:
                if r['at'] == self.n:
                    self._reader(r)
            for f in self.faults:
                if f['op'] == key and f['n'] <= k < f['n'] + f.get('count', 1):
                    self.fired += 1
                    self.run.hit('fault.io-%s-%s' % (key, f['do'] if f['do'] == 'short' else errno.errorcode[f['do']]))
                    self.run.log('fault', key, k, f['do'])
                    if f['do'] == 'short':
                        n = max(1, int(arg * f.get('frac', 0.5)))
                        return -n if n < arg else 0
                    return int(f['do'])
            return 0
        self.run.log('io', op, rel if len(rel) < 60 else rel[-60:], os.path.basename(p2) if p2 else '', arg if op != 'open' else 0,
                     min(res, 0) if op in ('open',) else res)
        if op == 'open' and res >= 0:
            self.opened[res] = rel
        if op == 'close':
            self.opened.pop(fd, None)
        if op in ('write', 'rename', 'unlink', 'truncate', 'open', 'link', 'close'):
            if op == 'open' and not (arg & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
                return 0
            s = self.snap()
            if op == 'open':
                for ino, _ in s.values():
                    if ino not in self.known_inodes:
                        self.known_inodes.add(ino)
                        self.durable.pop(ino, None)
            if s != self.current():
                if not self.keep:
                    self.images = []
                self.images.append((self.n, op, rel, s))
        if op == 'fsync' and res == 0:
            try:
                st = os.fstat(fd)
                cur = {ino: b for ino, b in self.snap().values()}
                if st.st_ino in cur:
                    self.durable[st.st_ino] = cur[st.st_ino]
                    self.run.hit('fsyncs')
                if self.keep:
                    self.images.append((self.n, 'fsync', rel, self.current()))
                    self.marks.append((len(self.images) - 1, st.st_ino))
            except OSError:
                pass
        return 0

    def _reader(self, r):
        import numpy as np
        try:
            if r['phase'] == 'whole' or 'h' not in r:
                r['h'] = np.load(os.path.join(self.root, r['file']), allow_pickle=False)
            if r['phase'] == 'whole':
                self.read_results.append((r, np.array(r['h']['XlamP']), np.array(r['h']['dirP_prev'])))
                r['h'].close()
        except FileNotFoundError:
            self.read_results.append((r, None, None))
        except Exception as e:      # noqa
            self.read_results.append((r, e, None))

    def __enter__(self):
        shim().dst_shim_configure(self.root.encode(), self._cb)
        return self

    def __exit__(self, *a):
        shim().dst_shim_configure(None, ctypes.cast(None, CB))
        if self.error:
            raise RuntimeError('simulator callback failed: ' + self.error)
        return False

    # crash images --------------------------------------------------------------
    def torn(self, k, r):
        """Image k with the write that produced it only partly done; None when image k is not a write."""
        if k < 1 or self.images[k][1] not in ('write', 'close'):
            return None
        a, b = self.images[k - 1][3], self.images[k][3]
        for name in b:
            x = a.get(name, (0, b''))[1]
            y = b[name][1]
            if x != y:
                lo = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                c = lo + int(r * max(0, len(y) - lo))
                out = dict(b)
                out[name] = (b[name][0], y[:c] + x[c:len(y)] if len(x) > c else y[:c])
                return out
        return None

    def power_loss(self, k, rng):
        """State after power fails just after image k."""
        ops = self.images[:k + 1]
        durable = {ino: b for ino, b in self.images[0][3].values()}
        for idx, ino in self.marks:
            if idx <= k:
                for n, (i, b) in self.images[idx][3].items():
                    if i == ino:
                        durable[ino] = b
        j = rng.choice([k, k, rng.randint(0, k)])
        names = {n: i for n, (i, _) in ops[j][3].items()}
        now = {}
        for im in ops:
            for n, (i, b) in im[3].items():
                now[i] = b
        out = {}
        for n, i in names.items():
            cur = now.get(i, b'')
            if durable.get(i) == cur:
                out[n] = (i, cur)
                continue
            opts = [durable.get(i, b''), b'', cur[:rng.randint(0, len(cur))]]
            z = rng.randint(0, len(cur))
            opts.append(cur[:z] + b'\0' * (len(cur) - z))
            opts.append(b'\0' * z + cur[z:])
            opts.append(cur)
            out[n] = (i, rng.choice(opts))
        return out

    def materialise(self, image, root):
        for n, (_, b) in image.items():
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b)


def new_dir(tag='d'):
    base = os.environ['DST_SCRATCH']
    assert '/dst-' in base, base
    n = new_dir.n = getattr(new_dir, 'n', 0) + 1
    # fixed width: path lengths do not depend on how many runs this process made before
    d = os.path.join(base, 'fs%07d' % n)
    os.makedirs(d)
    return os.path.realpath(d)


def drop_dir(d):
    assert os.path.basename(d).startswith('fs') and '/dst-' in d
    shutil.rmtree(d, ignore_errors=True)
