"""P01-P04: saved solutions, summary files and restarts on simulated storage."""
import copy
import errno
import io
import os
import pathlib
import random

import numpy as np

from .core import Check, Violation, lib
from .fsim import FSim, new_dir, drop_dir, fresh_module

NAMES = ['run.npz', 'a b.npz', 'sub/x.npz', 'data', 'r.v2.npz', 'res.dat', 'run2.npz', 'run.npz.npz', 'u_\u00e9.npz']
IOERR = {'openw': [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EINTR], 'openr': [errno.EACCES, errno.EMFILE, errno.EIO, errno.EINTR],
         'write': ['short', 'short', errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EINTR],
         'read': ['short', errno.EIO, errno.EINTR], 'fsync': [errno.EIO, errno.ENOSPC, errno.EINTR],
         'close': [errno.EIO, errno.ENOSPC], 'rename': [errno.EACCES, errno.EIO, errno.ENOSPC, errno.EXDEV], 'unlink': [errno.EACCES]}


def npz(name):
    return name if name.endswith('.npz') else name + '.npz'


def point(seed, n, kind='plain'):
    r = random.Random(seed)
    X = np.array([r.uniform(-1, 1) * 10.0 ** r.randint(-12, 12) for _ in range(n)])
    d = np.array([r.uniform(-1, 1) for _ in range(n)])
    if kind == 'first':
        d[:] = np.nan
    elif kind == 'last':
        X[:] = np.nan
    elif kind == 'special':
        for i, v in enumerate((np.inf, -np.inf, np.nan, -0.0, 5e-324, 1.7976931348623157e308)):
            X[(seed + 7 * i) % n] = v
    return X, d


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a.view(np.int64), b.view(np.int64))


class Cache:
    """Parsed archives by content."""

    def __init__(self):
        self.d = {}

    def load(self, b):
        if b not in self.d:
            if len(self.d) > 4000:
                self.d.clear()
            try:
                with np.load(io.BytesIO(b), allow_pickle=False) as z:
                    keys = sorted(z.files)
                    self.d[b] = (keys, np.array(z['XlamP']), np.array(z['dirP_prev']))
            except Exception as e:      # noqa
                self.d[b] = e
        return self.d[b]


def rows_equal(got, pts):
    """Archive content equals the given list of points, bit for bit."""
    if isinstance(got, Exception) or got[0] != ['XlamP', 'dirP_prev']:
        return False
    X, D = got[1], got[2]
    if not pts or X.ndim != 2 or D.ndim != 2 or X.shape[0] != len(pts) or D.shape[0] != len(pts):
        return False
    return same(X, np.array([p[0] for p in pts])) and same(D, np.array([p[1] for p in pts]))


def describe(got):
    if got is None:
        return 'absent'
    if isinstance(got, Exception):
        return 'unreadable (%s: %s)' % (type(got).__name__, str(got)[:80])
    return 'an archive with %s, %s rows' % (got[0], got[1].shape[:1])


class StoreCheck(Check):
    needs = ('shim',)
    real = ('tmdsimpy.utils.continuation (continuation_save / print_* callbacks), numpy.savez/load, zipfile, Python buffered '
            'I/O, C library calls')
    stub = ('storage device and process life: an LD_PRELOAD seam sees every file call, injects errors and yields the directory '
            'image at every operation; restart = module loaded anew on a directory built from an image')
    state_measure = 'distinct (operation, file role, number of rows on disk, image kind) signatures'

    def warmup(self):
        import tmdsimpy.utils.continuation as m
        d = new_dir()
        for _ in range(2):
            m.continuation_save(np.ones(3), np.ones(3), os.path.join(d, 'w.npz'))
        m.print_epmc_stats(np.ones(9), np.ones(9), os.path.join(d, 'w.dat'))
        with np.load(os.path.join(d, 'w.npz')) as z:
            z['XlamP']
        drop_dir(d)

    def path_arg(self, root, name, how):
        p = os.path.join(root, name)
        if how == 'rel':
            return os.path.relpath(p, os.getcwd())
        return pathlib.Path(p) if how == 'path' else p

    def execute(self, sc, run):
        dirs = []
        cwd = os.getcwd()

        def mk():
            d = new_dir()
            os.makedirs(os.path.join(d, 'sub'))
            dirs.append(d)
            if sc.get('how') == 'rel':
                os.chdir(d)
            return d
        try:
            self.simulate(sc, run, mk)
        finally:
            os.chdir(cwd)
            for d in dirs:
                drop_dir(d)


def gen_saves(rng, nfiles, m):
    ev = []
    for k in range(m):
        ev.append([rng.randrange(nfiles), rng.randrange(10 ** 6), rng.choice(['plain'] * 6 + ['special', 'first', 'last'])])
    return ev


class P01(StoreCheck):
    pid = 'P01'
    runs_quick = 5000
    runs_thorough = 250000
    rule = ('one seed draws 1-2 files, 1-4 process lives of 1-8 saves each ending in a kill after a chosen file operation '
            '(optionally in the middle of a write), a power loss or a clean exit, and concurrent readers; besides the chosen '
            'crash every other crash image of every life is checked; non-trivial = the chosen crash hit a save in progress or '
            'a reader overlapped one; distinct by event-log digest')
    assumptions = ['POSIX rename is atomic; fsync makes the data of a file durable; directory changes become durable in order',
                   'one writer per file at a time']

    def gen(self, rng, i, tier):
        nf = rng.choice([1, 1, 2])
        files = rng.sample(NAMES, nf)
        if len({npz(f) for f in files}) < nf:
            files = files[:1]
            nf = 1
        sc = {'files': files, 'dims': [rng.choice([1, 2, 5, 12, 60, 1500 if rng.random() < .3 else 30]) for _ in files],
              'how': rng.choice(['str', 'str', 'path', 'rel']), 'lives': [], 'readers': []}
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            end = rng.choice(['kill', 'kill', 'kill', 'torn', 'power', 'power', 'exit'])
            sc['lives'].append({'saves': gen_saves(rng, nf, rng.choice([1, 2, 3, 5, 8])), 'end': end,
                                'at': round(rng.random(), 4), 'r': round(rng.random(), 4), 'seed': rng.randrange(10 ** 6)})
        for _ in range(rng.choice([0, 1, 2])):
            a = rng.randint(1, 60)
            sc['readers'].append([rng.randrange(nf), rng.randrange(len(sc['lives'])), a, a + rng.choice([0, 1, 3, 8, 25])])
        return sc

    def shrink(self, sc):
        for k in range(len(sc['lives'])):
            if len(sc['lives']) > 1:
                c = copy.deepcopy(sc)
                del c['lives'][k]
                c['readers'] = [r for r in c['readers'] if r[1] < len(c['lives'])]
                yield c
            for j in range(len(sc['lives'][k]['saves'])):
                if len(sc['lives'][k]['saves']) > 1:
                    c = copy.deepcopy(sc)
                    del c['lives'][k]['saves'][j]
                    yield c
            if sc['lives'][k]['end'] != 'exit':
                c = copy.deepcopy(sc)
                c['lives'][k]['end'] = 'exit'
                yield c
        for k in range(len(sc['readers'])):
            c = copy.deepcopy(sc)
            del c['readers'][k]
            yield c
        if len(sc['files']) > 1:
            c = copy.deepcopy(sc)
            c['files'], c['dims'] = c['files'][:1], c['dims'][:1]
            for l in c['lives']:
                for s in l['saves']:
                    s[0] = 0
            for r in c['readers']:
                r[0] = 0
            yield c
        for k, d in enumerate(sc['dims']):
            if d > 1:
                c = copy.deepcopy(sc)
                c['dims'][k] = 1 if d < 6 else 3
                yield c
        if sc['how'] != 'str':
            c = copy.deepcopy(sc)
            c['how'] = 'str'
            yield c

    def simulate(self, sc, run, mk):
        cache = Cache()
        files = [npz(f) for f in sc['files']]
        hist = [[] for _ in files]          # points that must be on disk
        root = mk()
        for li, life in enumerate(sc['lives']):
            mod = fresh_module()
            rng = random.Random(life['seed'])
            readers = []
            for f, l, a, b in sc['readers']:
                if l == li:
                    readers.append({'at': a, 'phase': 'open' if b > a else 'whole', 'file': files[f], 'f': f})
                    if b > a:
                        readers.append({'at': b, 'phase': 'end', 'file': files[f], 'f': f, 'first': len(readers) - 1})
            fs = FSim(root, run)
            fs.readers = []
            fs.start()
            pend = []                        # (first image index of this save, file, acked-before, point)
            acked = [list(h) for h in hist]
            reads = _Readers(fs, readers, root)
            with fs:
                for f, seed, kind in life['saves']:
                    X, d = point(seed, sc['dims'][f], kind)
                    Xk, dk = X.copy(), d.copy()
                    pend.append((len(fs.images), f, [list(a) for a in acked], (Xk, dk)))
                    lib(mod.continuation_save, X, d, self.path_arg(root, sc['files'][f], sc['how']), what='continuation_save')
                    if not (same(X, Xk) and same(d, dk)):
                        raise Violation('argument-changed', 'continuation_save modified its arguments')
                    acked[f].append((Xk, dk))
                    run.hit('saves')
                    if fs.opened:
                        raise Violation('file-left-open', 'after a save %s still open' % sorted(fs.opened.values()))
            pend.append((len(fs.images), None, [list(a) for a in acked], None))
            reads.check(run, cache, pend, files)
            # what a reader or a restart finds after every single operation
            for k in range(len(fs.images)):
                self.check_image(fs.images[k][3], k, fs, pend, files, cache, run, 'kill after %s' % fs.images[k][1])
                t = fs.torn(k, rng.random())
                if t is not None:
                    run.hit('fault.torn-write')
                    self.check_image(t, k - 1, fs, pend, files, cache, run, 'kill inside a write', inside=True)
                if rng.random() < 0.5:
                    run.hit('fault.power-loss')
                    self.check_power(fs.power_loss(k, rng), k, pend, files, cache)
                run.hit('fault.kill')
            final = fs.snap()
            self.check_image(final, len(fs.images), fs, pend, files, cache, run, 'clean exit')
            # the chosen end of this life decides what the next one starts from
            K = len(fs.images)
            k = min(K - 1, int(life['at'] * K))
            img = final
            if life['end'] == 'kill':
                img = fs.images[k][3]
            elif life['end'] == 'torn':
                ws = [j for j in range(K) if fs.images[j][1] == 'write']
                if ws:
                    j = ws[min(len(ws) - 1, int(life['at'] * len(ws)))]
                    img = fs.torn(j, life['r']) or fs.images[j][3]
            elif life['end'] == 'power':
                img = fs.power_loss(k, rng)
            if life['end'] != 'exit' or readers:
                run.nontrivial = True
            for f, name in enumerate(files):
                got = cache.load(img[name][1]) if name in img else None
                full = acked[f]
                if got is None:
                    hist[f] = []
                else:
                    n = 0 if isinstance(got, Exception) else got[1].shape[0]
                    if not rows_equal(got, full[:n]):
                        raise Violation('history-damaged', 'after %s: %s holds %s' % (life['end'], name, describe(got)))
                    hist[f] = full[:n]
                run.state(life['end'], len(hist[f]), len(full))
            run.log('life', li, life['end'], [len(h) for h in hist])
            root = mk()
            fs.materialise(img, root)

    def bracket(self, k, pend):
        """The save in progress at image k: (file, acked lists before it, its point)."""
        cur = None
        for p in pend:
            if p[0] <= k + 0:
                cur = p
        return cur

    def check_image(self, img, k, fs, pend, files, cache, run, how, inside=False):
        # image k was produced by the save whose first image index is <= k; before any save: nothing pending
        cur = None
        for p in pend:
            if p[0] <= (k + 1 if inside else k):
                cur = p
        acked = cur[2] if cur else pend[0][2]
        for f, name in enumerate(files):
            ok = [acked[f]]
            if cur and cur[1] == f:
                ok.append(acked[f] + [cur[3]])
            got = cache.load(img[name][1]) if name in img else None
            if got is None:
                if any(not o for o in ok):
                    continue
                raise Violation('lost-history', '%s: %s is gone (%d points were saved)' % (how, name, len(acked[f])))
            if not any(rows_equal(got, o) for o in ok):
                raise Violation('lost-history' if not isinstance(got, Exception) else 'torn-archive',
                                '%s: %s is %s; %d points were saved before' % (how, name, describe(got), len(acked[f])))

    def check_power(self, img, k, pend, files, cache):
        cur = None
        for p in pend:
            if p[0] <= k:
                cur = p
        start = pend[0][2]
        acked = cur[2] if cur else start
        for f, name in enumerate(files):
            full = acked[f] + ([cur[3]] if cur and cur[1] == f else [])
            got = cache.load(img[name][1]) if name in img else None
            if got is None:
                if start[f]:
                    raise Violation('lost-history', 'power loss: %s is gone' % name)
                continue
            n = 0 if isinstance(got, Exception) else got[1].shape[0]
            if isinstance(got, Exception) or not rows_equal(got, full[:n]) or n < len(start[f]):
                raise Violation('torn-archive', 'power loss: %s is %s of %d' % (name, describe(got), len(full)))


class _Readers:
    """Concurrent readers: open at one operation, read at a later one."""

    def __init__(self, fs, readers, root):
        self.results = []
        self.h = {}
        self.img = {}
        orig = fs._op

        def op(kind, phase, *a):
            if phase == 0:
                for j, r in enumerate(readers):
                    if r['at'] == fs.n + 1:
                        self.step(j, r, root, fs)
            return orig(kind, phase, *a)
        fs._op = op

    def step(self, j, r, root, fs):
        k = len(fs.images) - 1
        p = os.path.join(root, r['file'])
        if r['phase'] in ('open', 'whole'):
            try:
                self.h[j] = np.load(p, allow_pickle=False)
                self.img[j] = k
            except FileNotFoundError:
                self.h[j] = None
                self.results.append((r['f'], k, k, None))
                return
            except Exception as e:      # noqa
                self.h[j] = None
                self.results.append((r['f'], k, k, e))
                return
        src = j if r['phase'] == 'whole' else r.get('first')
        if r['phase'] != 'open' and self.h.get(src) is not None:
            z = self.h[src]
            try:
                self.results.append((r['f'], self.img[src], k, (sorted(z.files), np.array(z['XlamP']), np.array(z['dirP_prev']))))
            except Exception as e:      # noqa
                self.results.append((r['f'], self.img[src], k, e))
            z.close()

    def check(self, run, cache, pend, files):
        for f, k0, k1, got in self.results:
            run.hit('concurrent-reads')
            lo = hi = None
            for p in pend:
                if p[0] <= k0:
                    lo = p
                if p[0] <= k1 + 1:
                    hi = p
            start = (lo or pend[0])[2][f]
            end = (hi or pend[0])[2][f] + ([hi[3]] if hi and hi[1] == f else [])
            if got is None:
                if start:
                    raise Violation('reader-missing', 'a concurrent reader found no %s' % files[f])
                continue
            n = 0 if isinstance(got, Exception) else got[1].shape[0]
            if isinstance(got, Exception) or n < len(start) or not rows_equal(got, end[:n]):
                raise Violation('reader-torn', 'a concurrent reader of %s got %s' % (files[f], describe(got)))


class P02(StoreCheck):
    pid = 'P02'
    runs_quick = 8000
    runs_thorough = 300000
    rule = ('one seed draws a sequence of 2-14 saves to 1-2 files and I/O faults (errors of open, read, write, fsync, rename, '
            'close; disk full for a while; short transfers; interrupted calls) at chosen operations and points of another size; non-trivial = a fault '
            'fired; distinct by event-log digest')
    assumptions = ['a failing file call returns an error; devices that acknowledge and then lose data are part of P01 (power loss) only']

    def gen(self, rng, i, tier):
        nf = rng.choice([1, 1, 1, 2])
        files = rng.sample(NAMES, nf)
        if len({npz(f) for f in files}) < nf:
            files, nf = files[:1], 1
        sc = {'files': files, 'dims': [rng.choice([1, 3, 12, 60, 1500 if rng.random() < .3 else 30]) for _ in files],
              'how': rng.choice(['str', 'str', 'path', 'rel']), 'saves': gen_saves(rng, nf, rng.choice([2, 4, 8, 14])), 'faults': []}
        kinds = rng.sample(sorted(IOERR), rng.choice([1, 2, 3]))
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            op = rng.choice(kinds)
            per = {'write': 12, 'read': 14}.get(op, 1.2)
            sc['faults'].append({'op': op, 'n': rng.randint(1, max(1, int(len(sc['saves']) * per))), 'do': rng.choice(IOERR[op]),
                                 'count': rng.choice([1, 1, 1, 2, 6, 25]), 'frac': round(rng.random(), 3)})
        sc['restart'] = rng.random() < 0.3
        if rng.random() < 0.25:        # a point of another analysis (other number of unknowns) under a name in use
            for s in rng.sample(sc['saves'], rng.choice([1, 1, 2])):
                s[2] = 'misfit'
        return sc

    def shrink(self, sc):
        for k in range(len(sc['faults'])):
            c = copy.deepcopy(sc)
            del c['faults'][k]
            yield c
        for k in range(len(sc['saves'])):
            if len(sc['saves']) > 1:
                c = copy.deepcopy(sc)
                del c['saves'][k]
                yield c
        for k, f in enumerate(sc['faults']):
            if f['count'] > 1:
                c = copy.deepcopy(sc)
                c['faults'][k]['count'] = 1
                yield c
        for k, d in enumerate(sc['dims']):
            if d > 3:
                c = copy.deepcopy(sc)
                c['dims'][k] = 3
                yield c
        if sc['how'] != 'str':
            yield dict(copy.deepcopy(sc), how='str')

    def simulate(self, sc, run, mk):
        cache = Cache()
        files = [npz(f) for f in sc['files']]
        root = mk()
        fs = FSim(root, run, faults=sc['faults'], images=False)
        fs.start()
        mod = fresh_module()
        rows = [[] for _ in files]
        acked = [0] * len(files)
        calls = [(s, True) for s in sc['saves']] + [([f, 4242 + f, 'plain'], False) for f in range(len(files))]
        for (f, seed, kind), faulty in calls:
            misfit = kind == 'misfit' and len(rows[f]) > 0
            X, d = point(seed, sc['dims'][f] + misfit * (1 + seed % 3), kind)
            Xk, dk = X.copy(), d.copy()
            if not faulty:
                fs.faults = []
            if sc['restart']:
                mod = fresh_module()
            before = fs.fired
            exc = None
            with fs:
                try:
                    mod.continuation_save(X, d, self.path_arg(root, sc['files'][f], sc['how']))
                except Exception as e:      # noqa
                    exc = e
            fired = fs.fired > before
            if fired:
                run.nontrivial = True
            if misfit:
                run.hit('fault.point-of-other-size')
                run.nontrivial = True
            if exc is not None and not fired and not misfit:
                raise Violation('cannot-recover' if fs.fired else 'unexpected-exception',
                                'a save without any I/O error raised %s: %s' % (type(exc).__name__, str(exc)[:150]))
            run.log('save', f, type(exc).__name__ if exc else 'ok')
            img = fs.snap()
            for g, name in enumerate(files):
                got = cache.load(img[name][1]) if name in img else None
                ok = [rows[g]] if g != f or exc is not None else []
                if g == f and not misfit:
                    ok.append(rows[g] + [(Xk, dk)])
                if g == f and misfit and exc is None:
                    raise Violation('silent-loss', 'a point with %d unknowns cannot be stored with %d of %d, yet the save returned '
                                    'normally; %s is %s' % (len(Xk), len(rows[g]), len(rows[g][0][0]), name, describe(got)))
                hit = None
                for o in ok:
                    if (got is None and not o) or (got is not None and rows_equal(got, o)):
                        hit = o
                if hit is None:
                    if g == f and exc is None and ((got is None and not rows[g]) or (got is not None and rows_equal(got, rows[g]))):
                        raise Violation('silent-loss', 'the save returned normally but the point is not in %s' % name)
                    raise Violation('history-damaged', 'after a save that %s, %s is %s (%d points were saved before)' % (
                        'raised %s' % type(exc).__name__ if exc else 'returned', name, describe(got), len(rows[g])))
                rows[g] = hit
            run.state(type(exc).__name__ if exc else 'ok', fired, len(rows[f]))
            if exc is not None:
                run.hit('failed-saves')
                exc = None
            else:
                run.hit('saves')
                if fired:
                    run.hit('saves-despite-fault')
                if fs.opened:
                    raise Violation('file-left-open', 'after a save %s still open' % sorted(fs.opened.values()))


# summary files -------------------------------------------------------------------------------------------------
def _amp(U, w, h, order, recov, hh):
    """Independent amplitude of one harmonic (harmonic zero contributes one block, every other two)."""
    nd = len(recov)
    h = [int(x) for x in h]
    b = 0
    for x in h:
        if x == hh:
            break
        b += 1 if x == 0 else 2
    c = float(np.dot(recov, U[b * nd:(b + 1) * nd]))
    s = float(np.dot(recov, U[(b + 1) * nd:(b + 2) * nd]))
    return float(np.hypot(c, s)) * float(hh * w) ** order


FMT = {'f': lambda v: 6e-4 + 1e-9 * abs(v), 'e': lambda v: 6e-4 * abs(v) + 1e-300}


class Summary:
    """One summary function: how to call it, header labels and expected column values."""

    def __init__(self, p):
        self.p = p
        r = random.Random(p['seed'])
        self.h = np.array(p['h'])
        self.nd = p['nd']
        self.recs = [(np.array([r.uniform(-1, 1) for _ in range(self.nd)]), r.choice([x for x in p['h'] if x > 0]))
                     for _ in range(p['nrec'])]
        self.order = p['order']
        self.corder = p['corder']
        self.nh = sum(1 if x == 0 else 2 for x in p['h']) * self.nd
        self.freq, self.amp = p['freq'], p['amp']

    def dim(self):
        return self.nh + {'epmc': 3, 'amp': 2, 'amp_phase': 3, 'vprnm': 2, 'vprnm_ap': 4}[self.p['kind']]

    def call(self, mod, X, d, fname):
        k = self.p['kind']
        if k == 'epmc':
            return mod.print_epmc_stats(X, d, fname)
        if k == 'amp':
            return mod.print_hbm_amp_stats(X, d, fname, self.h, self.order, *self.recs[0])
        if k == 'amp_phase':
            return mod.print_hbm_amp_phase_stats(X, d, fname, self.freq, self.amp, self.h, self.order, *self.recs[0])
        if k == 'vprnm':
            return mod.print_vprnm_stats(X, d, fname, self.h, self.order, self.recs)
        return mod.print_vprnm_amp_phase_stats(X, d, fname, self.h, self.corder, self.order, self.recs)

    def expect(self, X):
        """[(label substring, value, format)] in documented order."""
        k = self.p['kind']
        tp = 2 * np.pi
        am = lambda w, j: _amp(X, w, self.h, self.order, *self.recs[j])
        ra = 'Recov Amp [m/s^%d]' % self.order
        if k == 'epmc':
            return [('Amplitude (log)', X[-1], 'f'), ('Frequency [Hz]', X[-3] / tp, 'f'), ('Damping [Frac Crit]', X[-2] / 2 / X[-3], 'e')]
        if k == 'amp':
            return [('Frequency [Hz]', X[-1] / tp, 'f'), ('Force Scaling [N]', X[-2], 'f'), (ra, am(X[-1], 0), 'e')]
        if k == 'amp_phase':
            return [('Frequency [Hz]', self.freq / tp, 'f'), ('Amplitude [m/s^%d]' % self.order, self.amp, 'f'),
                    ('Force Cosine [N]', X[-3], 'e'), ('Force Sine [N]', X[-2], 'e'), (ra, am(self.freq, 0), 'e')]
        if k == 'vprnm':
            return [('Force Scaling [N]', X[-1], 'f'), ('Frequency [Hz]', X[-2] / tp, 'f')] + [
                (ra, am(X[-2], j), 'e') for j in range(len(self.recs))]
        return [('Amp Control [m/s^%d]' % self.corder, X[-1], 'f'), ('Force Cosine [N]', X[-4], 'f'), ('Force Sine [N]', X[-3], 'f'),
                ('Frequency [Hz]', X[-2] / tp, 'f')] + [(ra, am(X[-2], j), 'e') for j in range(len(self.recs))]

    def headers(self):
        return 2 if self.p['kind'].startswith('vprnm') else 1

    def point(self, seed, kind):
        r = random.Random(seed)
        X = np.array([r.uniform(-1, 1) * 10.0 ** r.randint(-5, 2) for _ in range(self.dim())])
        for j in (-1, -2, -3):
            X[j] = r.uniform(0.5, 9) * 10.0 ** r.randint(-1, 3) * r.choice([1, 1, -1])
        if kind == 'last':
            X[:] = np.nan
        return X, np.array([r.uniform(-1, 1) for _ in range(self.dim())])

    def is_header(self, line, j):
        if j == 0:
            return 'Hz]' in line
        return 'dof=' in line

    def match_row(self, line, X):
        fields = [f.strip() for f in line.split('&')]
        exp = self.expect(X)
        if len(fields) != len(exp):
            return False
        for t, (_, v, fm) in zip(fields, exp):
            try:
                x = float(t)
            except ValueError:
                return False
            if np.isnan(v) or np.isnan(x):
                if not (np.isnan(v) and np.isnan(x)):
                    return False
            elif abs(x - v) > FMT[fm](v):
                return False
        return True


def check_log(text, summ, rows, tears, what):
    """rows: [(X, required)].  tears: how many writes may have been cut short.  Returns the rows found."""
    if text is None:
        if any(r for _, r in rows):
            raise Violation('row-lost', '%s: the summary file does not exist' % what)
        return []
    lines = text.split('\n')
    tail = lines.pop()
    lines = [(l, True) for l in lines] + ([(tail, False)] if tail else [])
    lines = [(l, nl) for l, nl in lines if l.strip() or not nl]
    nhead = summ.headers()
    heads = [0] * nhead
    body, seen_row = [], False
    for li, (l, nl) in enumerate(lines):
        hj = next((q for q in range(nhead) if summ.is_header(l, q)), None)
        if hj is not None:
            heads[hj] += 1
            if heads[hj] > 1 or seen_row:
                raise Violation('header-repeated', '%s: line %d is a header again: %r' % (what, li, l[:100]))
            if nl and not tears:
                self_check_header(l, hj, summ, what)
            continue
        ms = [q for q in range(len(rows)) if summ.match_row(l, rows[q][0])]
        seen_row = seen_row or bool(ms)
        body.append((li, l, ms))
    first = text.split('\n', 1)[0]
    if any(summ.match_row(first, X) for X, _ in rows):
        raise Violation('header-missing', '%s: the file starts with a row' % what)
    # order-preserving assignment of lines to rows with as few fragments as possible; equal (all-NaN) rows are interchangeable
    INF = 10 ** 6
    req = [r for _, r in rows]
    best = [[INF] * (len(rows) + 1) for _ in range(len(body) + 1)]
    best[0][0] = 0
    for i in range(len(body) + 1):
        for q in range(len(rows) + 1):
            c = best[i][q]
            if c >= INF:
                continue
            if q < len(rows) and not req[q]:
                best[i][q + 1] = min(best[i][q + 1], c)
            if i < len(body):
                if q < len(rows) and q in body[i][2]:
                    best[i + 1][q + 1] = min(best[i + 1][q + 1], c)
                best[i + 1][q] = min(best[i + 1][q], c + 1)
    found = [b for b in body if b[2]]
    if best[len(body)][len(rows)] > tears:
        j = 0           # greedy pass only for the message
        for li, l, ms in body:
            if not ms:
                if best[len(body)][len(rows)] < INF:
                    raise Violation('damaged-row', '%s: line %d %r is neither a saved row nor the rest of an interrupted write'
                                    % (what, li, l[:160]))
            else:
                j += 1
        raise Violation('row-lost' if best[len(body)][len(rows)] >= INF else 'row-repeated',
                        '%s: %d rows were written, the file has %d (%d interrupted writes)' % (what, len(rows), j, tears))
    if found and tears == 0:
        for q in range(nhead):
            if heads[q] != 1:
                raise Violation('header-missing', '%s: header line %d appears %d times' % (what, q, heads[q]))
    return found


def self_check_header(l, hj, summ, what):
    fields = [f.strip() for f in l.split('&')]
    exp = summ.expect(np.ones(summ.dim()))
    if len(fields) != len(exp):
        raise Violation('columns', '%s: header line %d has %d columns, rows have %d' % (what, hj, len(fields), len(exp)))
    if hj == 0:
        for f, (lab, _, _) in zip(fields, exp):
            if f != lab:
                raise Violation('columns', '%s: header column %r should be %r' % (what, f, lab))
    else:
        labs = [f for f in fields if f]
        want = ['dof=%d, h=%d' % (q, r[1]) for q, r in enumerate(summ.recs)]
        off = len(exp) - len(want)
        if [f for f in fields[off:]] != want or any(fields[:off]):
            raise Violation('columns', '%s: harmonic labels %s are not above their columns' % (what, labs))


class P03(StoreCheck):
    pid = 'P03'
    runs_quick = 8000
    runs_thorough = 300000
    rule = ('one seed draws one of the five summary functions with harmonics, derivative orders and recovery vectors, 1-4 '
            'process lives of 1-8 rows, each life ending in a kill after a chosen file operation or inside a write, or a clean '
            'exit, and I/O faults; every other kill image is checked too; non-trivial = a crash or fault hit; distinct by '
            'event-log digest')
    assumptions = ['rows cut short by a kill or a failed write may leave one fragment line each']

    def gen(self, rng, i, tier):
        h = rng.choice([[0, 1, 2, 3], [1], [0, 1], [1, 2, 3], [0, 1, 3], [1, 3, 5], [0, 2, 3]])
        p = {'kind': rng.choice(['epmc', 'amp', 'amp_phase', 'vprnm', 'vprnm_ap']), 'h': h, 'nd': rng.choice([1, 2, 3]),
             'order': rng.choice([0, 1, 2]), 'corder': rng.choice([0, 2]), 'nrec': rng.choice([1, 2, 3]), 'seed': rng.randrange(10 ** 6),
             'freq': round(rng.uniform(1, 900), 3), 'amp': round(rng.uniform(0.1, 50), 3)}
        sc = {'summ': p, 'name': rng.choice(['s.dat', 'sub/x y.txt', 'sum']), 'how': rng.choice(['str', 'path', 'rel']), 'lives': []}
        faulty = rng.random() < 0.5
        for _ in range(rng.choice([1, 2, 3, 4])):
            life = {'rows': [[rng.randrange(10 ** 6), rng.choice(['plain'] * 8 + ['last'])] for _ in range(rng.choice([1, 2, 4, 8]))],
                    'end': rng.choice(['kill', 'torn', 'torn', 'exit']), 'at': round(rng.random(), 4), 'r': round(rng.random(), 4),
                    'faults': []}
            if faulty:
                for _ in range(rng.choice([0, 1, 2])):
                    op = rng.choice(['openw', 'openr', 'write', 'write', 'close', 'read'])
                    life['faults'].append({'op': op, 'n': rng.randint(1, 8), 'do': rng.choice(IOERR[op]), 'count': rng.choice([1, 1, 3]),
                                           'frac': round(rng.random(), 3)})
            sc['lives'].append(life)
        return sc

    def shrink(self, sc):
        for k, l in enumerate(sc['lives']):
            if len(sc['lives']) > 1:
                c = copy.deepcopy(sc)
                del c['lives'][k]
                yield c
            for j in range(len(l['rows'])):
                if len(l['rows']) > 1:
                    c = copy.deepcopy(sc)
                    del c['lives'][k]['rows'][j]
                    yield c
            for j in range(len(l['faults'])):
                c = copy.deepcopy(sc)
                del c['lives'][k]['faults'][j]
                yield c
            if l['end'] != 'exit':
                c = copy.deepcopy(sc)
                c['lives'][k]['end'] = 'exit'
                yield c
        for key, v in (('nd', 1), ('nrec', 1), ('order', 0)):
            if sc['summ'][key] != v:
                c = copy.deepcopy(sc)
                c['summ'][key] = v
                yield c

    def simulate(self, sc, run, mk):
        summ = Summary(sc['summ'])
        name = sc['name']
        root = mk()
        rows, tears = [], 0           # [(X, required)] of all lives
        for li, life in enumerate(sc['lives']):
            mod = fresh_module()
            fs = FSim(root, run, faults=life['faults'])
            fs.start()
            bounds = []               # (image count before the call, rows before, tears before, row)
            for seed, kind in life['rows']:
                X, d = summ.point(seed, kind)
                Xk = X.copy()
                before, exc = fs.fired, None
                bounds.append((len(fs.images), list(rows), tears, Xk))
                with fs:
                    try:
                        summ.call(mod, X, d, self.path_arg(root, name, sc['how']))
                    except Exception as e:      # noqa
                        exc = e
                fired = fs.fired > before
                if exc is not None and not fired:
                    raise Violation('unexpected-exception', 'a row without any I/O error raised %s: %s' % (type(exc).__name__, str(exc)[:150]))
                if not same(X, Xk):
                    raise Violation('argument-changed', 'the summary function modified the point')
                rows.append((Xk, exc is None))
                tears += exc is not None
                run.hit('rows' if exc is None else 'failed-rows')
                if fired:
                    run.nontrivial = True
                if exc is None and fs.opened:
                    raise Violation('file-left-open', 'after a row %s still open' % sorted(fs.opened.values()))
                run.log('row', type(exc).__name__ if exc else 'ok')
                self.text_check(fs.snap(), name, summ, rows, tears, 'after row %d' % len(rows))
            for k in range(len(fs.images)):
                self.image(fs, fs.images[k][3], k, bounds, name, summ, run, 'kill after %s' % fs.images[k][1])
                t = fs.torn(k, (0.15, 0.5, 0.999, life['r'])[k % 4])
                if t is not None:
                    run.hit('fault.torn-write')
                    self.image(fs, t, k, bounds, name, summ, run, 'kill inside a write')
                run.hit('fault.kill')
            img = fs.snap()
            K = len(fs.images)
            k = None
            if life['end'] == 'kill':
                k = min(K - 1, int(life['at'] * K))
                img = fs.images[k][3]
            elif life['end'] == 'torn':
                ws = [j for j in range(K) if fs.images[j][1] in ('write', 'close')]
                if ws:
                    k = ws[min(len(ws) - 1, int(life['at'] * len(ws)))]
                    img = fs.torn(k, life['r']) or fs.images[k][3]
            if k is not None:
                run.nontrivial = True
                cur = None
                for b in bounds:
                    if b[0] <= k:
                        cur = b
                if cur is None:
                    rows, tears = list(bounds[0][1]), bounds[0][2]
                else:
                    rows, tears = cur[1] + [(cur[3], False)], cur[2] + 1
            run.state(sc['summ']['kind'], life['end'], len(rows), tears)
            run.log('life', li, life['end'], len(rows), tears)
            self.text_check(img, name, summ, rows, tears, 'after %s' % life['end'])
            root = mk()
            fs.materialise(img, root)

    def image(self, fs, img, k, bounds, name, summ, run, how):
        cur = None
        for b in bounds:
            if b[0] <= k:
                cur = b
        if cur is None:
            self.text_check(img, name, summ, bounds[0][1], bounds[0][2], how)
        else:
            self.text_check(img, name, summ, cur[1] + [(cur[3], False)], cur[2] + 1, how)

    def text_check(self, img, name, summ, rows, tears, what):
        t = img[name][1].decode('utf-8', errors='replace') if name in img else None
        check_log(t, summ, rows, tears, what)
