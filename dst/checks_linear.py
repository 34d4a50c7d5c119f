"""E06: reduced-order models on stored backbones.  E07: linear predictions and conditioning around configuration changes.

Both run a *session*: a seeded sequence of calls on shared objects and reused arrays, interleaved with configuration changes,
foreign use, calls that are interrupted between two lines of the library and (E06) producers of the backbone that are killed
and resumed through the saved archive.  Every call that returns is judged against independent formulas.
"""
import os
import random
import shutil

import numpy as np

from .core import Check, Violation, lib
from .forcelib import sibling, Element, gen_element, LineInterrupt, RefSystem

INTR = ['KeyboardInterrupt', 'MemoryError']


def nhc(h):
    return sum(1 if k == 0 else 2 for k in h)


def interrupted(call, where, run):
    """Runs call() with an exception at a fraction of its lines -> True when it struck."""
    with LineInterrupt() as li:
        call()
    with LineInterrupt(int(where[0] * li.count), where[1]) as li:
        try:
            call()
        except (KeyboardInterrupt, MemoryError) as e:
            if not getattr(e, 'dst_injected', False):
                raise
    if li.fired:
        run.hit('fault.line-' + where[1])
        run.log('line', li.where)
    return li.fired


def close(got, want, tol, kind, what):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(kind, '%s has shape %s instead of %s' % (what, got.shape, want.shape))
    if np.any(np.isnan(got) != np.isnan(want)):
        raise Violation(kind, '%s: NaN at the wrong places' % what)
    with np.errstate(invalid='ignore'):
        bad = np.abs(got - want) > tol
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Violation(kind, '%s%s is %.12g instead of %.12g' % (what, list(map(int, i)), got[i], want[i]))


class Session(Check):
    stub = 'none; interrupts enter at interpreter line events'

    def shrink(self, sc):
        for k in range(len(sc['ops'])):
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])

    def guard(self, live):
        return [(a, a.copy()) for a in live if isinstance(a, np.ndarray)]

    def unchanged(self, kept, what):
        for a, b in kept:
            if a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=True):
                raise Violation('argument-changed', what + ' changed an argument')

    def call(self, f, args, kw, op, run, what):
        """One judged call: optionally interrupted first, arguments guarded."""
        kept = self.guard(list(args) + list(kw.values()))
        if op.get('intr'):
            self.faults += bool(interrupted(lambda: lib(f, *args, what=what, **kw), op['intr'], run))
            self.unchanged(kept, what + ' (interrupted)')
        out = lib(f, *args, what=what, **kw)
        self.unchanged(kept, what)
        return out

    def clobber(self, out, op):
        """Results belong to the caller."""
        if op.get('clobber'):
            for a in out if isinstance(out, tuple) else (out,):
                if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == 'f':
                    a *= 0
                    a += 7.0


# ------------------------------------------------------------------------------------------------------ E06

def gen_bb(rng):
    h = rng.choice([[1], [0, 1], [1, 3], [0, 1, 2, 3], [1, 2]])
    return {'h': h, 'M': rng.choice([2, 3, 6, 12, 25]), 'a': [round(rng.uniform(-4, 4), 3), round(rng.uniform(0.3, 2.0), 3)],
            'w': 10 ** rng.uniform(0, 3), 'soft': rng.choice([0.0, 0.1, -0.2]), 'z': round(10 ** rng.uniform(-3, -0.7), 5),
            'dz': rng.choice([0.0, 0.5, 2.0]), 'seed': rng.randrange(10 ** 8)}


def backbone(d, n):
    """Synthetic EPMC rows: smooth in the amplitude, complex mode shapes, modal amplitude over the range a[0]..a[0]+a[1]."""
    rng = random.Random(d['seed'])
    h, M = d['h'], d['M']
    t = np.sort(np.array([0.0, 1.0] + [rng.random() for _ in range(M - 2)]))
    t = 0.7 * t + 0.3 * np.linspace(0, 1, M)
    rows = np.zeros((M, nhc(h) * n + 3))
    base = np.array([rng.uniform(0.5, 1.5) * rng.choice([-1, 1]) for _ in range(nhc(h) * n)])
    base[n * (1 + (h[0] == 0)):] *= 0.4
    slope = np.array([rng.uniform(-0.15, 0.15) for _ in range(len(base))])
    rows[:, :-3] = base * (1 + t[:, None] * slope)
    rows[:, -3] = d['w'] * (1 + d['soft'] * t)
    rows[:, -2] = 2 * rows[:, -3] * d['z'] * (1 + d['dz'] * t)
    rows[:, -1] = d['a'][0] + d['a'][1] * t
    return rows


def amplitude(rows, h, n, hi, p, log=True):
    i = sum(1 if k == 0 else 2 for k in h if k < hi) * n
    a = np.hypot(rows[:, i:i + n] @ p, rows[:, i + n:i + 2 * n] @ p)
    return a * 10 ** rows[:, -1] if log else a


def lerp(x, xp, rows):
    """Linear interpolation of the rows (NaN outside)."""
    out = np.full((len(x), rows.shape[1]), np.nan)
    for i, v in enumerate(x):
        if v < xp[0] or v > xp[-1]:
            continue
        j = min(max(int(np.searchsorted(xp, v, side='right')) - 1, 0), len(xp) - 2) if len(xp) > 1 else 0
        f = (v - xp[j]) / (xp[j + 1] - xp[j]) if len(xp) > 1 else 0.0
        out[i] = rows[j] + (f * (rows[j + 1] - rows[j]) if len(xp) > 1 else 0.0)
    return out


def rotate(U, n, h, th, hr=1):
    """Time shift that delays harmonic hr by the phase th (complex form)."""
    U = np.array(U, dtype=float)
    th = np.broadcast_to(np.asarray(th, dtype=float) / hr, (len(U),))
    i = 0
    for k in h:
        if k == 0:
            i += n
            continue
        z = (U[:, i:i + n] - 1j * U[:, i + n:i + 2 * n]) * np.exp(-1j * k * th)[:, None]
        U[:, i:i + n], U[:, i + n:i + 2 * n] = z.real, -z.imag
        i += 2 * n
    return U


def ref_frc(bb, n, h, Fc=None, Fs=None, w=None, zeta=None, pF=None):
    """All responses of the modal equation (w_n^2 - W^2 + 2 i zeta w_n W) q e^{-i theta} = phi^H F at the stored amplitudes,
    lower root along the backbone, then the upper root back."""
    n0 = n if h[0] == 0 else 0
    wn = bb[:, -3] if w is None else w * np.ones(len(bb))
    z = bb[:, -2] / (2 * wn) if zeta is None else zeta * np.ones(len(bb))
    q = 10 ** bb[:, -1]
    if pF is None:
        phi = bb[:, n0:n0 + n] - 1j * bb[:, n0 + n:n0 + 2 * n]
        pF = np.conj(phi) @ (Fc - 1j * Fs)
    else:
        pF = pF * np.ones(len(bb))
    rows = []
    disc = (wn ** 2 * (1 - 2 * z ** 2)) ** 2 - wn ** 4 + np.abs(pF) ** 2 / q ** 2
    for sgn, order in ((-1, range(len(bb))), (1, range(len(bb) - 1, -1, -1))):
        for i in order:
            if disc[i] < 0:
                continue
            W2 = wn[i] ** 2 * (1 - 2 * z[i] ** 2) + sgn * np.sqrt(disc[i])
            if W2 > 0:
                rows.append((i, np.sqrt(W2)))
    tight = np.min(np.abs(np.concatenate((disc / wn ** 4, [1.0])))) > 1e-9
    W = np.array([r[1] for r in rows])
    idx = np.array([r[0] for r in rows], dtype=int)
    tight = tight and (len(W) == 0 or np.min(W / wn[idx]) > 1e-4)
    th = -np.angle(pF[idx] / (wn[idx] ** 2 - W ** 2 + 2j * z[idx] * wn[idx] * W))
    U = bb[idx, :-3].copy()
    U[:, n0:] *= q[idx, None]
    return np.hstack((rotate(U, n, h, th), W[:, None])), q[idx], th, idx, tight


def ref_cd(bb, n, h, Fc, Om, p, amp, w=None, zeta=None):
    n0 = n if h[0] == 0 else 0
    bb = bb.copy()
    bb[:, -1] = 10 ** bb[:, -1]
    if w is not None:
        bb[:, -3] = w
    if zeta is not None:
        bb[:, -2] = 2 * zeta * bb[:, -3]
    a = np.hypot(bb[:, n0:n0 + n] @ p, bb[:, n0 + n:n0 + 2 * n] @ p) * bb[:, -1]
    pt = lerp([amp], a, bb)[0]
    q, wn = pt[-1], pt[-3]
    phi = pt[n0:n0 + n] - 1j * pt[n0 + n:n0 + 2 * n]
    f = q * np.abs(wn ** 2 - Om ** 2 + 1j * pt[-2] * Om) / np.abs(np.conj(phi) @ Fc)
    pt[-1] = np.log10(pt[-1])
    return f, pt


class E06(Session):
    pid = 'E06'
    runs_quick = 4000
    runs_thorough = 150000
    rule = 'a session with at least three judged reductions and an interrupted call, resumed producer or reuse of arrays'
    real = 'roms.epmc, roms.vprnm, postprocess.continuation, harmonic utilities, continuation_save'
    state_measure = 'distinct (reduction, harmonic sets, options, preceding operation) tuples'

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2, 3])
        bbs = [gen_bb(rng) for _ in range(3)]
        ops = []
        for _ in range(rng.randrange(3, 9)):
            o = {'op': rng.choice(['cf', 'cf', 'cf', 'cd', 'cd', 'vp', 'vp', 'vp', 'phase', 'lerp', 'new']), 'b': rng.randrange(2),
                 'seed': rng.randrange(10 ** 8), 'clobber': rng.random() < 0.5}
            if rng.random() < 0.3:
                o['intr'] = [rng.random(), rng.choice(INTR)]
            if o['op'] == 'new':
                o['bb'] = gen_bb(rng)
            ops.append(o)
        return {'n': n, 'bbs': bbs, 'ops': ops, 'kills': [rng.randrange(1, 6) for _ in range(rng.choice([0, 0, 1, 2]))]}

    def produce(self, rows, kills, tag, run):
        """Rows reach the user through the archive of a producer that is killed and resumed from its last stored row."""
        from tmdsimpy.utils.continuation import continuation_save
        d = os.path.join(os.environ['DST_SCRATCH'], 'e06')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        f = os.path.join(d, 'bb_%s.npz' % tag)
        i = 0
        for k in kills + [None]:
            first = True
            j0 = i
            while i < len(rows) and (k is None or i < j0 + k):
                lib(continuation_save, rows[i], np.full(rows.shape[1], np.nan) if first else rows[i] * 0.5, f, what='continuation_save')
                first = False
                i += 1
            if k is None:
                lib(continuation_save, np.full(rows.shape[1], np.nan), rows[-1] * 0.5, f, what='continuation_save')
            else:
                i = max(i - 1, 0)      # the next process starts at the last stored point
                run.hit('restart.process')
                self.faults += 1
        with np.load(f) as z:
            X = z['XlamP']
        shutil.rmtree(d)
        X = X[np.all(np.isfinite(X), axis=1)]
        X = X[np.append(True, np.any(np.diff(X, axis=0) != 0, axis=1))]
        if not np.array_equal(X, rows):
            raise Violation('stored-backbone', 'the stored rows are not the delivered ones')
        return X

    def execute(self, sc, run):
        import tmdsimpy.roms.epmc as epmc
        import tmdsimpy.roms.vprnm as vprnm
        import tmdsimpy.postprocess.continuation as post
        import tmdsimpy.utils.harmonic as hu
        n = sc['n']
        self.faults = 0
        bbs = [(d, self.produce(backbone(d, n), sc['kills'], j, run)) for j, d in enumerate(sc['bbs'])]
        judged, last = 0, 'start'
        for op in sc['ops']:
            rng = random.Random(op['seed'])
            name = op['op']
            d, bb = bbs[op['b']]
            h = d['h']
            ha = np.array(h)
            n0 = n if h[0] == 0 else 0
            q = 10 ** bb[:, -1]
            run.hit('op.' + name)
            opt = ''
            if name == 'new':
                # the array of the old backbone is refilled in place when it has the right shape
                r = backbone(op['bb'], n)
                if r.shape == bb.shape:
                    bb[:] = r
                    r = bb
                bbs[op['b']] = (op['bb'], r)
                last = name
                continue
            if name == 'cf':
                kw = {}
                if rng.random() < 0.3:
                    kw['w'] = rng.choice([float(d['w']), np.array(bb[:, -3]) * rng.uniform(0.8, 1.2)])
                if rng.random() < 0.3:
                    kw['zeta'] = rng.choice([d['z'], np.array([d['z'] * rng.uniform(0.5, 2) for _ in bb])])
                wn = kw.get('w', bb[:, -3]) * np.ones(len(bb))
                z = kw['zeta'] * np.ones(len(bb)) if 'zeta' in kw else bb[:, -2] / (2 * wn)
                Fc = np.array([rng.uniform(-1, 1) for _ in range(n)])
                Fs = np.array([rng.choice([0.0, rng.uniform(-1, 1)]) for _ in range(n)])
                k = rng.randrange(len(bb))
                phi = bb[k, n0:n0 + n] - 1j * bb[k, n0 + n:n0 + 2 * n]
                m = 2 * z[k] * wn[k] ** 2 * q[k] * rng.choice([1.1, 0.7, 3.0, 30.0]) / max(abs(np.conj(phi) @ (Fc - 1j * Fs)), 1e-300)
                Fc, Fs = Fc * m, Fs * m
                args = [bb, n, ha]
                rk = {}
                if rng.random() < 0.35:
                    pF = rng.uniform(-1, 1) + 1j * rng.choice([0.0, rng.uniform(-1, 1)])
                    pF *= 2 * z[k] * wn[k] ** 2 * q[k] * rng.choice([1.1, 0.7, 3.0]) / abs(pF)
                    rk = {'pF': pF}
                    if rng.random() < 0.5:
                        rk = {'pF': pF * np.linspace(0.7, 1.3, len(bb))}
                    kw['phiH_Fl_real'], kw['phiH_Fl_imag'] = np.real(rk['pF']), np.imag(rk['pF'])
                    opt = 'modal'
                else:
                    Fl = np.zeros(nhc(h) * n)
                    Fl[:n0] = rng.random()
                    Fl[n0:n0 + n], Fl[n0 + n:n0 + 2 * n] = Fc, Fs
                    Fl[n0 + 2 * n:] = rng.random()        # only the first harmonic counts
                    kw['Fl'] = Fl
                    rk = {'Fc': Fc, 'Fs': Fs}
                out = self.call(epmc.constant_force, args, kw, op, run, 'constant_force')
                want, qw, th, idx, tight = ref_frc(bb, n, h, w=kw.get('w'), zeta=kw.get('zeta'), **rk)
                if not tight:
                    run.hit('skip.double-root')
                    last = name
                    continue
                s = np.max(np.abs(bb[:, :-3]))
                tol = 1e-6 * np.hstack((np.tile(q[idx, None] * s, (1, want.shape[1] - 1)), want[:, -1:]))
                if n0:
                    tol[:, :n0] = 1e-9 * s
                close(out[0], want, tol, 'reduced-response', 'constant_force row, column ')
                close(out[1], qw, 1e-9 * qw, 'modal-amplitude', 'modal amplitude ')
                close(np.exp(1j * out[2]).imag, np.sin(th), 1e-6, 'modal-phase', 'sine of the modal phase ')
                close(np.exp(1j * out[2]).real, np.cos(th), 1e-6, 'modal-phase', 'cosine of the modal phase ')
            elif name == 'cd':
                p = np.array([rng.uniform(0.5, 1) for _ in range(n)])
                a = amplitude(bb, h, n, 1, p)
                if np.any(np.diff(a) <= 0.02 * a[:-1]):
                    run.hit('skip.not-monotone')
                    continue
                amp = a[0] + (a[-1] - a[0]) * rng.choice([1e-9, 1 - 1e-9, rng.random(), rng.random()])
                if rng.random() < 0.1:
                    amp = a[-1] * 1.5
                Fc = np.array([rng.uniform(0.2, 1) for _ in range(n)])
                Om = d['w'] * np.array([rng.uniform(0.1, 2) for _ in range(rng.choice([1, 4]))])
                kw = {}
                if rng.random() < 0.3:
                    kw['w'] = rng.choice([float(d['w']), np.array(bb[:, -3]) * rng.uniform(0.8, 1.2)])
                if rng.random() < 0.3:
                    kw['zeta'] = rng.choice([d['z'], np.array([d['z'] * rng.uniform(0.5, 2) for _ in bb])])
                f, pt = self.call(epmc.constant_displacement, [bb, ha, Fc, Om, p, amp], kw, op, run, 'constant_displacement')
                wf, wpt = ref_cd(bb, n, h, Fc, Om, p, amp, **kw)
                close(f, wf, 1e-7 * np.abs(wf) + 1e-9 * np.max(np.abs(wf)), 'reduced-force', 'constant_displacement force ')
                close(pt, wpt, 1e-8 * (np.abs(wpt) + np.max(np.abs(wpt[:-3]))), 'reduced-point', 'constant_displacement point ')
                opt = ','.join(sorted(kw))
                out = (f, pt)
            elif name == 'vp':
                out = self.vprnm(sc, rng, bbs, op, n, run, vprnm)
                if out is None:
                    continue
                opt = out[3]
                out = out[:3]
            elif name == 'lerp':
                ref = np.cumsum(0.1 + np.array([rng.random() for _ in bb]))
                use = rng.random() < 0.5
                xp = ref if use else bb[:, -1]
                x = np.array([xp[0] + (xp[-1] - xp[0]) * rng.choice([0, 1, rng.random(), rng.random(), -0.3, 1.4]) for _ in range(5)])
                x = np.where(np.abs(x - xp[-1]) < 1e-12 * abs(xp[-1]) + 1e-300, xp[-1], x)
                out = self.call(post.linear_interp, [bb, x] + ([ref] if use else []), {}, op, run, 'linear_interp')
                close(out, lerp(x, xp, bb), 1e-9 * np.max(np.abs(bb), axis=0), 'interpolation', 'linear_interp ')
            else:
                ph = np.array([rng.uniform(-1, 1) * rng.choice([3.0, 10.0, 50.0]) for _ in range(6)])
                out = self.call(hu.shift_pm_pi, [ph], {}, op, run, 'shift_pm_pi')
                out = np.asarray(out)
                if out.shape != ph.shape or np.any(out < -np.pi - 1e-9) or np.any(out >= np.pi + 1e-9) \
                        or np.any(np.abs(np.exp(1j * out) - np.exp(1j * ph)) > 1e-9):
                    raise Violation('phase', 'shift_pm_pi(%s) is %s' % (ph, out))
                hr = rng.choice([k for k in h if k])
                U = bb if rng.random() < 0.7 else bb[0]
                th = np.linspace(-4, 4, len(bb)) if U.ndim == 2 and rng.random() < 0.5 else rng.uniform(-7, 7)
                o2 = self.call(hu.rotate_subtract_phase, [U, n, ha, th, hr], {}, op, run, 'rotate_subtract_phase')
                close(o2, rotate(np.atleast_2d(U), n, h, th, hr), 1e-9 * np.max(np.abs(bb)), 'phase', 'rotate_subtract_phase ')
                zc = self.call(hu.zero_crossing, [ph], {}, op, run, 'zero_crossing')
                want = [i + 1 < len(ph) and ph[i] * ph[i + 1] < 0 for i in range(len(ph))]
                if list(map(bool, zc)) != want:
                    raise Violation('phase', 'zero_crossing(%s) is %s' % (ph, zc))
                self.clobber(o2, op)
            judged += 1
            run.log(name, *[a for a in (out if isinstance(out, tuple) else (out,)) if isinstance(a, np.ndarray)])
            run.state(name, tuple(h), opt, last, bool(op.get('intr')))
            self.clobber(out, op)
            last = name
        run.nontrivial = judged >= 3 and (self.faults > 0 or any(o['op'] == 'new' for o in sc['ops']))

    def vprnm(self, sc, rng, bbs, op, n, run, mod):
        """Superharmonic reduction: independent restatement with complex amplitudes."""
        (df, bf), (dr, br) = bbs[op['b']], bbs[2]
        hf, hr = df['h'], dr['h']
        rhi = rng.choice([2, 3, 5])
        hv = rng.choice([[0, 1, rhi], [1, rhi], [0, 1, rhi, rhi + 1]])
        pc = np.array([rng.uniform(0.5, 1) for _ in range(n)])
        pr = np.array([rng.uniform(0.5, 1) for _ in range(n)])
        af, ar = amplitude(bf, hf, n, 1, pc), amplitude(br, hr, n, 1, pr)
        if np.any(np.diff(af) <= 0.02 * af[:-1]) or np.any(np.diff(ar) <= 0.02 * ar[:-1]) or min(af[0], ar[0]) <= 0:
            run.hit('skip.not-monotone')
            return None
        A1 = af[0] + (af[-1] - af[0]) * rng.uniform(0.15, 0.85)
        A3 = ar[0] + (ar[-1] - ar[0]) * rng.uniform(0.15, 0.85)
        # superharmonic resonance path: fundamental amplitude grows along it
        m = rng.choice([2, 4, 9])
        full = rng.random() < 0.5
        t = np.linspace(0, 1, m) ** rng.choice([1.0, 1.5])
        nv = nhc(hv) * n
        vb = np.zeros((m, nv + (4 if full else 2)))
        vb[:, :nv] = np.array([rng.uniform(-1, 1) for _ in range(nv)]) * 0.1
        v0 = n if hv[0] == 0 else 0
        i3 = nhc([k for k in hv if k < rhi]) * n

        def place(i, p, amp):
            a = rng.uniform(0, 6.28)
            u = np.array([rng.uniform(0.5, 1) for _ in range(n)])
            u /= p @ u
            vb[:, i:i + n] = np.outer(amp, u) * np.cos(a)
            vb[:, i + n:i + 2 * n] = np.outer(amp, u) * np.sin(a)
        place(v0, pc, A1 * (0.5 + 1.2 * t))
        place(i3, pr, A3 * (0.9 + 0.2 * t))
        Om = br[0, -3] / rhi * rng.uniform(0.9, 1.1) * (1 + 0.1 * t)
        if full:
            vb[:, -4], vb[:, -3] = rng.uniform(0.2, 1) * (1 + t), rng.uniform(-1, 1)
            vb[:, -2], vb[:, -1] = Om, A1 * (0.5 + 1.2 * t)
        else:
            vb[:, -2], vb[:, -1] = Om, rng.uniform(0.2, 1) * (1 + t)
        Fc = np.array([rng.uniform(0.2, 1) for _ in range(n)])
        kw = {}
        # independent statement
        pv = lerp([A1], np.hypot(vb[:, v0:v0 + n] @ pc, vb[:, v0 + n:v0 + 2 * n] @ pc), vb)[0]
        W = pv[-2]
        fm = np.hypot(pv[-4], pv[-3]) if full else pv[-1]
        lin = br.copy()
        lin[:, -1] = 10 ** lin[:, -1]
        arv = np.hypot(pr @ pv[i3:i3 + n], pr @ pv[i3 + n:i3 + 2 * n])
        if not (ar[0] < arv < ar[-1]):
            run.hit('skip.outside')
            return None
        pt = lerp([arv], ar, lin)[0]
        zS = pt[-2] / (2 * pt[-3])
        sel = lin[:, -1] < pt[-1]
        cut = np.vstack((lin[sel], pt))
        if np.sum(sel) and np.min(pt[-1] / lin[sel, -1] - 1) < 1e-9:
            run.hit('skip.on-a-point')
            return None
        zc = cut[:, -2] / (2 * cut[:, -3])
        wc = cut[:, -3] * rhi * W / pt[-3]
        cut[:, -1] = np.log10(cut[:, -1])
        U, q, th, idx, tight = ref_frc(cut, n, hr, w=wc, zeta=zc, pF=2 * pt[-1] * (rhi * W) ** 2 * zS + 0j)
        # the peak itself is a double root when the damping is tiny; every other root has to be clear
        _, _, _, _, tight = ref_frc(cut[:-1], n, hr, w=wc[:-1], zeta=zc[:-1], pF=2 * pt[-1] * (rhi * W) ** 2 * zS + 0j)
        if not tight or zS < 2e-3 or zS > 0.3:
            run.hit('skip.double-root')
            return None
        k = int(np.argmin(np.abs(U[:, -1] - rhi * W)))
        r0 = n if hr[0] == 0 else 0
        zz = lambda v: v[:n] - 1j * v[n:2 * n]
        shift = np.angle(pr @ zz(U[k, r0:])) - np.angle(pr @ zz(pv[i3:]))
        U = rotate(U, n, hr, shift)
        opt = 'full' if full else 'fixed'
        if rng.random() < 0.4 and len(U) > 1:
            if np.any(np.diff(U[:, -1]) <= 1e-6 * U[:-1, -1]):
                run.hit('skip.not-monotone')
                return None
            lo, hi = U[0, -1] / rhi, U[-1, -1] / rhi
            ex = np.sort([lo + (hi - lo) * rng.uniform(0.05, 0.95) for _ in range(3)])
            kw['extra_Omega'] = ex
            new = np.sort(np.hstack((rhi * ex, U[:, -1])))
            q = np.interp(new, U[:, -1], q)
            k += int(np.sum(rhi * ex < U[k, -1]))
            U = lerp(new, U[:, -1], U)
            U[:, -1] = new
            opt += ',extra'
        if rng.random() < 0.4:
            kw['correct_force'] = rng.random() < 0.5
        Omg = U[:, -1] / rhi
        f, pf = ref_cd(bf, n, hf, Fc, Omg, pc, A1)
        f0 = n if hf[0] == 0 else 0
        uf = pf[:-3].copy()
        uf[f0:] *= 10 ** pf[-1]
        uf = rotate(uf[None], n, hf, np.angle(pc @ zz(uf[f0:])) - np.angle(pc @ zz(pv[v0:])))[0]
        ho = sorted({hv[0]} | set(hf) | {rhi * x for x in hr})
        want = np.zeros((len(U), nhc(ho) * n + 1))
        if hv[0] == 0:
            want[:, :n] = pv[:n]
        for x in hf:
            if x:
                i, j = nhc([y for y in hf if y < x]) * n, nhc([y for y in ho if y < x]) * n
                want[:, j:j + 2 * n] = uf[i:i + 2 * n]
        for x in hr:
            if x:
                i, j = nhc([y for y in hr if y < x]) * n, nhc([y for y in ho if y < x * rhi]) * n
                want[:, j:j + 2 * n] += U[:, i:i + 2 * n]
        want[:, -1] = Omg
        if kw.get('correct_force', True):
            f = f + (fm - f[k]) * q / np.max(q)
        out = self.call(mod.constant_h1_displacement, [bf, np.array(hf), br, np.array(hr), vb, np.array(hv), rhi, pc, A1, pr, Fc], kw,
                        op, run, 'constant_h1_displacement')
        if list(np.asarray(out[2])) != ho:
            raise Violation('harmonics', 'constant_h1_displacement returns harmonics %s instead of %s' % (out[2], ho))
        s = np.max(np.abs(want[:, :-1]))
        close(out[0], want, np.hstack((np.full((len(want), want.shape[1] - 1), 3e-5 * s), 1e-6 * want[:, -1:])), 'reduced-response',
              'constant_h1_displacement row, column ')
        close(out[1], f, 1e-5 * np.max(np.abs(f)), 'reduced-force', 'constant_h1_displacement force ')
        return tuple(out) + (opt,)


# ------------------------------------------------------------------------------------------------------ E07

class E07(Session):
    pid = 'E07'
    runs_quick = 4000
    runs_thorough = 150000
    rule = 'a session with at least three judged predictions of two kinds and a configuration change or an interrupted call'
    real = 'VibrationSystem.linear_frf/linear_frf_base/set_new_C, NonlinearSolver.eigs, predict_harmonic_solution, harmonic_wise_conditioning'
    state_measure = 'distinct (prediction, size, modes, options, preceding operation) tuples'

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2, 3, 4])
        us = 10.0 ** rng.uniform(-3, 2)
        kinds = ['frf', 'frf', 'base', 'base', 'pred', 'pred', 'pred', 'cond', 'setab', 'setC', 'swapM', 'other', 'eigs']
        ops = []
        for _ in range(rng.randrange(4, 12)):
            o = {'op': rng.choice(kinds), 'seed': rng.randrange(10 ** 8), 'clobber': rng.random() < 0.5}
            if rng.random() < 0.25:
                o['intr'] = [rng.random(), rng.choice(INTR)]
            ops.append(o)
        return {'n': n, 'us': us, 'ops': ops, 'mat': rng.randrange(10 ** 8), 'free': rng.random() < 0.2, 'coupled': rng.random() < 0.4,
                'els': [gen_element(rng, ['cubic', 'jenkins', 'vjenkins', 'poly', 'uni'], us) for _ in range(rng.choice([1, 2]))]}

    @staticmethod
    def matrices(seed, n, free, coupled):
        rng = random.Random(seed)
        k = [rng.uniform(0.5, 2) for _ in range(n + 1)]
        if free:
            k[0] = k[n] = 0.0
        K = np.zeros((n, n))
        for i in range(n):
            K[i, i] = k[i] + k[i + 1]
            if i:
                K[i, i - 1] = K[i - 1, i] = -k[i]
        if n == 1 and free:
            K[0, 0] = 0.0
        M = np.diag([rng.uniform(0.5, 1.5) for _ in range(n)])
        if coupled:
            for i in range(1, n):
                M[i, i - 1] = M[i - 1, i] = rng.uniform(-0.2, 0.2)
        s = 10 ** rng.uniform(-2, 3)
        return M, K * s, s

    def execute(self, sc, run):
        from tmdsimpy.vibration_system import VibrationSystem
        from tmdsimpy.solvers import NonlinearSolver
        from tmdsimpy.jax.solvers import NonlinearSolverOMP
        import tmdsimpy.utils.harmonic as hu
        n, us = sc['n'], sc['us']
        M, K, s = self.matrices(sc['mat'], n, sc['free'], sc['coupled'])
        self.faults = 0
        w0 = np.sqrt(s)
        ab = [0.05 * w0, 0.02 / w0]
        vs = lib(VibrationSystem, M.copy(), K.copy(), ab=list(ab), what='constructor')
        els = [Element(e, n) for e in sc['els']]
        nl = VibrationSystem(M.copy(), K.copy(), ab=list(ab))
        for e in els:
            if e.kind in ('jenkins', 'vjenkins'):
                e.obj.init_history()
            nl.add_nl_force(e.obj)
            vs.add_nl_force(e.obj)         # does not count in linear predictions
        rn = RefSystem(M, K, 0 * K)
        rn.els = els
        solvers = [NonlinearSolver(), NonlinearSolverOMP(config={'verbose': False})]
        judged, kinds, last, changed = 0, set(), 'start', 0
        nf = n

        def response(w, F, free=None, neigs=None):
            """Complex response amplitude (cos - i sin) of the degrees of freedom in free."""
            ix = np.arange(n) if free is None else np.flatnonzero(free)
            Mf, Kf = M[np.ix_(ix, ix)], K[np.ix_(ix, ix)]
            if neigs is None or neigs >= len(ix):
                return np.linalg.solve(Kf - w ** 2 * Mf + 1j * w * (ab[0] * Mf + ab[1] * Kf), F)
            L = np.linalg.cholesky(Mf)
            Li = np.linalg.inv(L)
            lam, V = np.linalg.eigh(Li @ Kf @ Li.T)
            V = (Li.T @ V)[:, :neigs]
            lam = lam[:neigs]
            return V @ ((V.T @ F) / (lam - w ** 2 + 1j * w * (ab[0] + ab[1] * lam)))

        for op in sc['ops']:
            rng = random.Random(op['seed'])
            name = op['op']
            run.hit('op.' + name)
            sol = rng.choice(solvers)
            opt = ''
            ws = [w0 * rng.uniform(0.05, 2.5) for _ in range(rng.choice([1, 2, 3, 5]))]
            neigs = rng.choice([1, n, n, n + 2])
            if name == 'setab':
                ab = [round(rng.uniform(0.01, 0.1), 4) * w0, round(rng.uniform(0.005, 0.05), 4) / w0]
                lib(vs.set_new_C, what='set_new_C', ab=list(ab), **({'C': np.eye(n)} if rng.random() < 0.3 else {}))
                changed += 1
            elif name == 'setC':
                # general damping: the modal predictions are not defined until proportional damping is set again
                lib(vs.set_new_C, C=np.eye(n) * rng.uniform(0.1, 9) + 0.1, what='set_new_C')
                try:
                    out = vs.linear_frf(np.array(ws), np.ones(n), sol, neigs=n)
                except AssertionError:
                    out = None
                if out is not None:
                    X = out[0, :n] - 1j * out[0, n:2 * n]
                    w = ws[0]
                    F = (K - w ** 2 * M + 1j * w * np.asarray(vs.C)) @ X
                    if np.max(np.abs(F - 1)) > 1e-6:
                        raise Violation('stale-damping', 'linear_frf after set_new_C(C) answers with damping that is no longer configured')
                lib(vs.set_new_C, ab=list(ab), what='set_new_C')
                changed += 1
            elif name == 'swapM':
                # another system built from the same matrices and solver
                v2 = VibrationSystem(vs.M, vs.K, ab=[0.3 * w0, 0.1 / w0])
                lib(v2.linear_frf, np.array(ws), np.ones(n), sol, neigs=1, what='linear_frf')
                v2.set_new_C(C=np.eye(n) * 5)
                changed += 1
            elif name == 'other':
                h = [0, 1, 2]
                U = us * np.array([rng.uniform(-1, 1) for _ in range(5 * n)])
                lib(nl.hbm_res, np.append(U, w0), np.zeros(5 * n), np.array(h), Nt=32, what='hbm_res')
                lib(sol.nsolve, lambda x, calc_grad=True: (x ** 3 + x - 1, np.diag(3 * x ** 2 + 1)), np.ones(2), verbose=False, what='nsolve')
                changed += 1
            elif name == 'eigs':
                k = rng.randrange(n + 2)
                out = self.call(sol.eigs, [vs.K, vs.M], {'subset_by_index': [0, k]} if rng.random() < 0.7 else {}, op, run, 'eigs')
                ev, V = out
                k = min(k, n - 1) if len(ev) != min(3, n) else len(ev) - 1
                L = np.linalg.inv(np.linalg.cholesky(M))
                want = np.linalg.eigvalsh(L @ K @ L.T)[:len(ev)]
                close(ev, want, 1e-8 * s, 'eigenvalues', 'eigs ')
                close(V.T @ M @ V, np.eye(len(ev)), 1e-8, 'eigenvectors', 'mass matrix in modes ')
                close(K @ V, (M @ V) * ev, 1e-7 * s, 'eigenvectors', 'stiffness times modes ')
            elif name == 'frf':
                Fc = np.array([rng.uniform(-1, 1) for _ in range(n)])
                Fs = np.array([rng.uniform(-1, 1) for _ in range(n)])
                kw = {'neigs': neigs}
                if rng.random() < 0.5:
                    kw['Flsin'] = Fs
                else:
                    Fs = 0 * Fs
                w = np.array(ws) if len(ws) > 1 or rng.random() < 0.5 else ws[0]
                out = self.call(vs.linear_frf, [w, Fc, sol], kw, op, run, 'linear_frf')
                X = [response(v, Fc - 1j * Fs, None, neigs) for v in ws]
                want = np.array([np.hstack((x.real, -x.imag, v)) for x, v in zip(X, ws)])
                big = np.max(np.abs(want[:, :-1]), axis=1, keepdims=True)
                close(out, want, 1e-7 * np.hstack((np.tile(big, (1, 2 * n)), want[:, -1:])), 'linear-response', 'linear_frf row, column ')
                opt = (neigs, len(ws), 'Flsin' in kw)
                self.clobber(out, op)
            elif name == 'base':
                if n < 2:
                    continue
                flag = np.zeros(n, dtype=bool)
                flag[rng.randrange(n)] = True
                if n > 2 and rng.random() < 0.4:
                    flag[rng.randrange(n)] = True
                free = ~flag
                nf = int(free.sum())
                neigs = rng.choice([1, nf, nf, nf + 1])
                Ub = np.array([rng.uniform(-1, 1), rng.choice([0.0, rng.uniform(-1, 1)])])
                w = np.array(ws) if len(ws) > 1 or rng.random() < 0.5 else ws[0]
                out = self.call(vs.linear_frf_base, [w, Ub, flag, sol], {'neigs': neigs}, op, run, 'linear_frf_base')
                b = np.full(int(flag.sum()), Ub[0] - 1j * Ub[1])
                C = ab[0] * M + ab[1] * K
                want = []
                for v in ws:
                    D = K - v ** 2 * M + 1j * v * C
                    x = response(v, -D[np.ix_(free, flag)] @ b, free, neigs)
                    want.append(np.hstack((x.real, -x.imag, v)))
                want = np.array(want)
                big = np.max(np.abs(want[:, :-1]), axis=1, keepdims=True)
                close(out, want, 1e-7 * np.hstack((np.tile(big, (1, 2 * nf)), want[:, -1:])), 'linear-response', 'linear_frf_base row, column ')
                opt = (neigs, len(ws), int(flag.sum()))
                self.clobber(out, op)
            elif name == 'cond':
                h = rng.choice([[1], [0, 1], [0, 1, 2, 3], [1, 3], [1, 2, 3], [0, 1, 2], [0, 3]])
                m = rng.choice([0, 1, 2, 3, 4])
                X = us * np.array([rng.choice([0, rng.uniform(-1, 1), 1e-3 * rng.uniform(-1, 1)]) for _ in range(n * nhc(h) + m)])
                X0 = X.copy()
                r = rng.random()
                dl = us * rng.choice([0.1, 0.5])
                if r < 0.4:
                    delta, per = float(dl), [dl] * (len(h) + 1)
                elif r < 0.55:
                    delta, per = np.float64(dl), [dl] * (len(h) + 1)
                else:
                    per = [dl * rng.uniform(0.3, 3) for _ in range(len(h) + (m > 0))]
                    delta = np.array(per) if rng.random() < 0.5 else list(per)
                out = self.call(hu.harmonic_wise_conditioning, [X, n, np.array(h)], {'delta': delta}, op, run, 'harmonic_wise_conditioning')
                want, i = np.zeros(len(X)), 0
                for j, k in enumerate(h):
                    c = n * (1 if k == 0 else 2)
                    want[i:i + c] = max(per[j], np.mean(np.abs(X0[i:i + c])))
                    i += c
                if m:
                    want[i:] = np.maximum(per[-1], np.abs(X0[i:]))
                close(out, want, 1e-12 * us, 'conditioning', 'harmonic_wise_conditioning ')
                opt = (tuple(h), m, type(delta).__name__)
                self.clobber(out, op)
            elif name == 'pred':
                opt = self.predict(sc, rng, op, run, vs, nl, rn, sol, hu, response, n, us, w0)
            if name in ('frf', 'base', 'pred', 'cond', 'eigs'):
                judged += 1
                kinds.add(name)
            run.log(name, last)
            run.state(name, n, opt, last, bool(op.get('intr')), sc['free'])
            last = name
        if not (np.array_equal(vs.M, M) and np.array_equal(vs.K, K)):
            raise Violation('argument-changed', 'the mass or stiffness matrix was changed')
        run.nontrivial = judged >= 3 and len(kinds) >= 2 and (self.faults + changed) > 0

    def predict(self, sc, rng, op, run, vs, nl, rn, sol, hu, response, n, us, w0):
        eq = rng.choice(['HBM', 'HBM_AMP', 'HBM_AMP_PHASE', 'VPRNM_AMP_PHASE'])
        rhi = rng.choice([2, 3])
        h = rng.choice([[0, 1, 2, 3], [1, 2, 3], [0, 1, 3], [1, 3], [0, 1, 3, 5], [1, 3, 5], [1, 3, 4], [0, 2, 3]][:8 if eq == 'HBM' else 7])
        if rhi not in h:
            rhi = 3
        n0 = n if h[0] == 0 else 0
        w = w0 * rng.uniform(0.1, 1.5)
        Fl = np.zeros(nhc(h) * n)
        Fl[:n0] = rng.random()
        Fl[n0:n0 + n] = [rng.uniform(-1, 1) for _ in range(n)]
        if eq in ('HBM', 'HBM_AMP') and rng.random() < 0.5:
            Fl[n0 + n:n0 + 2 * n] = [rng.uniform(-1, 1) for _ in range(n)]
        if rng.random() < 0.3:
            Fl = Fl[:n0 + 2 * n]
        neigs = rng.choice([n, n + 1, 1])
        kw = {'neigs': neigs}
        Xs = None
        if rng.random() < 0.6:
            Xs = us * np.array([rng.uniform(-1, 1) for _ in range(n)])
            kw['Xstat'] = Xs
        fm = rng.uniform(0.5, 3)
        p = np.array([rng.uniform(-1, 1) for _ in range(n)])
        amp, order = us * rng.uniform(0.3, 2), rng.choice([0, 1, 2])
        F = Fl[n0:n0 + n] - 1j * Fl[n0 + n:n0 + 2 * n]
        X1 = response(w, F, None, neigs)
        if eq == 'HBM':
            kw['fmag'] = fm
            X1 = X1 * fm
            tail = [w]
        else:
            amp *= w ** order
            kw.update(control_amp=amp, control_recov=p, control_order=order)
            if abs(p @ X1) < 0.1 * np.max(np.abs(X1)):
                run.hit('skip.node')
                return 'node'
            g = amp / w ** order / abs(p @ X1)
            if eq == 'HBM_AMP':
                X1 = X1 * g
                tail = [g, w]
            else:
                e = g * np.exp(-1j * np.angle(p @ X1))
                X1 = X1 * e
                tail = [e.real, -e.imag, w]
        want = np.zeros(nhc(h) * n)
        want[n0:n0 + n], want[n0 + n:n0 + 2 * n] = X1.real, -X1.imag
        if Xs is not None:
            want[:n0] = Xs[:n0]
        tol = 1e-7 * np.max(np.abs(X1)) * np.ones(len(want)) + 1e-12 * us
        if eq == 'VPRNM_AMP_PHASE':
            tail = tail + [amp]
            kw.update(rhi=rhi, vib_sys_nl=nl)
            i = nhc([k for k in h if k < rhi]) * n
            Fn = -rn.fnl(want, w, h, 128)[i:i + 2 * n]
            X3 = response(rhi * w, Fn[:n] - 1j * Fn[n:], None, neigs)
            want[i:i + n], want[i + n:i + 2 * n] = X3.real, -X3.imag
            pk = max(e.peak for e in rn.els)
            D = K_inv_norm(response, rhi * w, n, neigs)
            kx = max(e.d['p']['fs'] for e in rn.els) / us * np.max(np.abs(X1))      # rounding of cancelling displacements
            tol[i:i + 2 * n] = 1e-6 * (np.max(np.abs(X3)) + D * pk) + 1e-11 * D * kx
        args = [vs, w, Fl, np.array(h), sol, eq if rng.random() < 0.7 else eq.lower()]
        out = self.call(hu.predict_harmonic_solution, args, kw, op, run, 'predict_harmonic_solution')
        tail = np.array(tail)
        close(out, np.append(want, tail), np.append(tol, 1e-7 * np.abs(tail) + 1e-9 * np.max(np.abs(tail[:max(1, len(tail) - 2)]))),
              'prediction', 'predict_harmonic_solution(%s) ' % eq)
        self.clobber(out, op)
        return (eq, tuple(h), neigs, Xs is not None)


def K_inv_norm(response, w, n, neigs):
    return max(np.max(np.abs(response(w, np.eye(n)[i] + 0j, None, neigs))) for i in range(n))


class H03(Session):
    pid = 'H03'
    runs_quick = 6000
    runs_thorough = 300000
    rule = 'a session with at least four judged transforms of two kinds and an interrupted call or a modified result or argument'
    real = 'utils.harmonic (Nhc, time_series_deriv, get_fourier_coeff, harmonic_stiffness), jax.harmonic_utils (plain and inside jit)'
    state_measure = 'distinct (transform, harmonic set, samples, order, options, preceding operation) tuples'
    SETS = [[0, 1], [1], [0, 1, 2, 3], [1, 3], [0, 2], [2, 3, 5], [0, 1, 3, 7], [0], [0, 4], [1, 2, 3, 4, 5, 6]]

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randrange(4, 12)):
            o = {'op': rng.choice(['tsd', 'tsd', 'gfc', 'gfc', 'round', 'hs', 'hs', 'nhc', 'fill']), 'b': rng.randrange(2),
                 'seed': rng.randrange(10 ** 8), 'clobber': rng.random() < 0.5, 'jax': rng.choice([0, 0, 1])}
            if rng.random() < 0.25 and not o['jax']:
                o['intr'] = [rng.random(), rng.choice(INTR)]
            ops.append(o)
        h = [rng.choice(self.SETS) for _ in range(2)]
        if rng.random() < 0.6:
            h[1] = sibling(rng, h[0])
        return {'h': h, 'n': rng.choice([1, 2, 3]), 'us': 10 ** rng.uniform(-9, 6),
                'ht': rng.choice(['int64', 'int64', 'int32']), 'seed': rng.randrange(10 ** 8), 'ops': ops}

    def execute(self, sc, run):
        import tmdsimpy.utils.harmonic as hu
        import tmdsimpy.jax.harmonic_utils as ju
        n, us = sc['n'], sc['us']
        self.faults = 0
        r0 = np.random.default_rng(sc['seed'])
        cs = [us * r0.uniform(-1, 1, (nhc(h), n)) for h in sc['h']]
        hs = [np.array(h, dtype=sc['ht']) for h in sc['h']]
        mats = [r0.uniform(-1, 1, (n, n)) for _ in range(3)]
        judged, kinds, other, last = 0, set(), 0, 'start'
        for op in sc['ops']:
            rng = random.Random(op['seed'])
            name, b = op['op'], op['b']
            h, ha, X = sc['h'][b], hs[b], cs[b]
            run.hit('op.' + name)
            opt = ''
            Nt = rng.choice([k for k in (4, 8, 16, 32, 64, 128) if k > 2 * max(h) + 1])
            om = 2 * np.pi * np.arange(Nt) / Nt

            def series(order):
                x, i = np.zeros((Nt, n)), 0
                for k in h:
                    if k == 0:
                        x += X[0] * (order == 0)
                        i = 1
                        continue
                    z = (1j * k) ** order * np.exp(1j * k * om)
                    x += np.outer(z.real, X[i]) + np.outer(z.imag, X[i + 1])
                    i += 2
                return x
            if name == 'fill':        # the caller goes on with the same arrays
                X[:] = us * np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in X])
                mats[rng.randrange(3)][:] *= -1.7
                other += 1
                last = name
                continue
            if name == 'tsd':
                o = rng.choice([0, 0, 1, 1, 2, 3, 4])
                if op['jax']:
                    out = self.call(ju.time_series_deriv, [Nt, tuple(h), X, o], {}, op, run, 'jax time_series_deriv')
                else:
                    out = self.call(hu.time_series_deriv, [Nt, ha, X, o], {}, op, run, 'time_series_deriv')
                close(out, series(o), 1e-11 * us * max(max(h), 1) ** o * len(X), 'time-series', 'time_series_deriv(order %d) ' % o)
                opt = (Nt, o)
            elif name == 'gfc':
                extra = max(h) + 1 + np.arange(2)            # content at other harmonics does not leak in
                x = series(0)
                for k in extra:
                    if 2 * k < Nt:
                        x = x + us * np.outer(np.cos(k * om + rng.uniform(0, 6)), np.ones(n))
                if 0 not in h:
                    x = x + us * rng.uniform(-1, 1)
                if op['jax']:
                    out = self.call(ju.get_fourier_coeff, [tuple(h), x], {}, op, run, 'jax get_fourier_coeff')
                else:
                    out = self.call(hu.get_fourier_coeff, [ha, x], {}, op, run, 'get_fourier_coeff')
                close(out, X, 1e-12 * us * Nt, 'coefficients', 'get_fourier_coeff ')
                opt = Nt
            elif name == 'round':
                x = lib(hu.time_series_deriv, Nt, ha, X, 0, what='time_series_deriv')
                out = self.call(hu.get_fourier_coeff, [ha, x], {}, op, run, 'get_fourier_coeff')
                close(out, X, 1e-12 * us * Nt, 'coefficients', 'there and back ')
                opt = Nt
            elif name == 'hs':
                M, C, K = mats
                w, c = 10 ** rng.uniform(-2, 3), rng.random() < 0.3
                kw = {'calc_grad': False} if rng.random() < 0.3 else {}
                if c:
                    kw['only_C'] = True
                out = self.call(hu.harmonic_stiffness, [np.zeros((1, 1)) if c else M, C, np.zeros((1, 1)) if c else K, w, ha], kw, op, run,
                                'harmonic_stiffness')
                if not isinstance(out, tuple) or len(out) != (1 if 'calc_grad' in kw else 2):
                    raise Violation('harmonic-stiffness', 'harmonic_stiffness(%s) returns %s' % (kw, type(out)))
                N = nhc(h) * n
                E, D, i = np.zeros((N, N)), np.zeros((N, N)), 0
                for k in h:
                    if k == 0:
                        E[:n, :n] = 0 if c else K
                        i = n
                        continue
                    S, dS = (0, 0) if c else (K - (k * w) ** 2 * M, -2 * k ** 2 * w * M)
                    for a in (0, n):
                        E[i + a:i + a + n, i + a:i + a + n] = S
                        D[i + a:i + a + n, i + a:i + a + n] = dS
                    E[i:i + n, i + n:i + 2 * n], E[i + n:i + 2 * n, i:i + n] = k * w * C, -k * w * C
                    D[i:i + n, i + n:i + 2 * n], D[i + n:i + 2 * n, i:i + n] = k * C, -k * C
                    i += 2 * n
                close(out[0], E, 1e-12 * (1 + np.max(np.abs(E))), 'harmonic-stiffness', 'harmonic_stiffness ')
                if len(out) > 1:
                    close(out[1], D, 1e-12 * (1 + np.max(np.abs(D))), 'harmonic-stiffness', 'frequency derivative of harmonic_stiffness ')
                opt = tuple(sorted(kw))
            else:
                out = self.call(hu.Nhc, [ha], {}, op, run, 'Nhc')
                if int(out) != nhc(h):
                    raise Violation('count', 'Nhc(%s) is %s' % (h, out))
            judged += 1
            kinds.add(name)
            run.log(name, last)
            run.state(name, tuple(h), opt, op['jax'], last, bool(op.get('intr')))
            if op['clobber']:
                self.clobber(out, op)
                other += 1
            last = name
        run.nontrivial = judged >= 4 and len(kinds) >= 2 and self.faults + other > 0
