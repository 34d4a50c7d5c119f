"""Nonlinear forces under test, their independent reference models and the fault seams around them."""
import os
import random
import sys

import numpy as np

from .core import InjectedError
from .contsim import make_exc

REPO = os.path.realpath(os.environ.get('DST_REPO', '/repo'))


# ---------------------------------------------------------------- fault seams

class Plan:
    """Raises at the n-th matrix product with a Q or T of the armed forces."""

    def __init__(self):
        self.n = None
        self.count = 0
        self.fired = False

    def arm(self, n):
        self.n, self.count, self.fired = n, 0, False

    def disarm(self):
        self.n = None
        return self.fired

    def tick(self):
        if self.n is not None:
            self.count += 1
            if self.count > self.n and not self.fired:
                self.fired = True
                raise make_exc('InjectedError')


class FaultArray(np.ndarray):
    plan = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self.plan = getattr(obj, 'plan', None)

    def __matmul__(self, other):
        if self.plan is not None:
            self.plan.tick()
        return np.asarray(self) @ (np.asarray(other) if isinstance(other, FaultArray) else other)

    def __rmatmul__(self, other):
        if self.plan is not None:
            self.plan.tick()
        return other @ np.asarray(self)


def fault_array(a, plan):
    b = np.array(a, dtype=float).view(FaultArray)
    b.plan = plan
    return b


class LineInterrupt:
    """Raises an exception at the n-th line event inside the package under test (n=None: only counts)."""
    TOOL = 4

    def __init__(self, n=None, exc='KeyboardInterrupt'):
        self.n, self.exc, self.count, self.fired, self.where = n, exc, 0, False, None
        self.prefix = os.path.join(REPO, 'tmdsimpy') + os.sep

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        self.count += 1
        if self.n is not None and self.count > self.n and not self.fired:
            self.fired = True
            self.where = '%s:%s' % (os.path.basename(code.co_filename), code.co_name)
            raise make_exc(self.exc)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'dst')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.restart_events()
        m.set_events(self.TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)
        return False


# ---------------------------------------------------------------- harmonics (independent of tmdsimpy.utils.harmonic)

def basis(h, Nt):
    """(Nt, Nhc) cosine and sine columns in the documented order."""
    t = 2 * np.pi * np.arange(Nt) / Nt
    cols = []
    for n in h:
        if n == 0:
            cols.append(np.ones(Nt))
        else:
            cols += [np.cos(n * t), np.sin(n * t)]
    return np.array(cols).T


def dbasis(h, Nt):
    t = 2 * np.pi * np.arange(Nt) / Nt
    cols = []
    for n in h:
        if n == 0:
            cols.append(np.zeros(Nt))
        else:
            cols += [-n * np.sin(n * t), n * np.cos(n * t)]
    return np.array(cols).T


def project(h, f):
    """Fourier coefficients (Nhc, n) of samples (Nt, n) by direct quadrature."""
    Nt = f.shape[0]
    B = basis(h, Nt)
    s = np.array([1.0 if n == 0 else 2.0 for n in h for _ in range(1 if n == 0 else 2)])
    return (B * s / Nt).T @ f


# ---------------------------------------------------------------- reference elements

class Ref:
    """Local model: state machine for quasi-static use and steady state for periodic motion."""
    static = True
    hysteretic = True
    has_prestress = True

    def reset(self):
        raise NotImplementedError

    def f(self, u, commit=False):
        raise NotImplementedError

    def loop(self, ut, udt, u0):
        raise NotImplementedError


class RefSlider(Ref):
    """Jenkins."""

    def __init__(self, p):
        self.kt, self.F0 = p['kt'], p['Fs']
        self.Fs = self.F0
        self.reset()

    def reset(self):
        self.u, self.q = 0.0, 0.0

    def mu(self, real):
        self.Fs = self.F0 if real else 0.0

    def f(self, u, commit=False):
        q = min(max(self.q + self.kt * (u[0] - self.u), -self.Fs), self.Fs)
        if commit:
            self.u, self.q = u[0], q
        return np.array([q])

    def loop(self, ut, udt, u0):
        q, up = 0.0, u0[0]
        out = np.zeros_like(ut)
        for _ in range(4):
            for k in range(len(ut)):
                q = min(max(q + self.kt * (ut[k, 0] - up), -self.Fs), self.Fs)
                up = ut[k, 0]
                out[k, 0] = q
        return out


class RefIwan(Ref):
    has_prestress = False

    def __init__(self, p):
        kt, Fs, chi, beta, n = p['kt'], p['Fs'], p['chi'], p['beta'], p['n']
        r = beta + (chi + 1) / (chi + 2)
        pm = Fs * (1 + beta) / kt / r
        d = pm / n
        phi = (np.arange(n) + 0.5) * d
        R = Fs * (chi + 1) / pm ** (chi + 2) / r
        self.phi = np.append(phi, pm)
        self.w = np.append(R * phi ** chi * d, Fs * beta / pm / r)
        self.reset()

    def reset(self):
        self.u, self.q = 0.0, np.zeros(len(self.phi))

    def f(self, u, commit=False):
        q = np.clip(self.q + (u[0] - self.u), -self.phi, self.phi)
        if commit:
            self.u, self.q = u[0], q
        return np.array([q @ self.w])

    def loop(self, ut, udt, u0):
        q, up = np.zeros(len(self.phi)), u0[0]
        out = np.zeros_like(ut)
        for _ in range(4):
            for k in range(len(ut)):
                q = np.clip(q + (ut[k, 0] - up), -self.phi, self.phi)
                up = ut[k, 0]
                out[k, 0] = q @ self.w
        return out


class RefDry(Ref):
    """Elastic dry friction, nt tangential directions per normal one."""

    def __init__(self, p, nt, m):
        self.kt, self.kn, self.mu0, self.gap, self.nt, self.m = p['kt'], p['kn'], p['mu'], p['gap'], nt, m
        self.mu_ = self.mu0
        self.reset()

    def reset(self):
        self.u, self.q = np.zeros((self.m, self.nt)), np.zeros((self.m, self.nt))

    def mu(self, real):
        self.mu_ = self.mu0 if real else 0.0

    def _split(self, u):
        b = np.asarray(u, dtype=float).reshape(self.m, self.nt + 1)
        return b[:, :self.nt], b[:, self.nt]

    def _join(self, t, n):
        return np.hstack((t, n[:, None])).reshape(-1)

    def f(self, u, commit=False):
        t, n = self._split(u)
        fn = np.maximum((n - self.gap) * self.kn, 0.0)
        lim = self.mu_ * fn[:, None]
        q = np.clip(self.q + self.kt * (t - self.u), -lim, lim)
        if commit:
            self.u, self.q = t.copy(), q
        return self._join(q, fn)

    def loop(self, ut, udt, u0):
        Nt = len(ut)
        t0, _ = self._split(u0)
        q, up = np.zeros((self.m, self.nt)), t0
        out = np.zeros_like(ut)
        for _ in range(4):
            for k in range(Nt):
                t, n = self._split(ut[k])
                fn = np.maximum((n - self.gap) * self.kn, 0.0)
                lim = self.mu_ * fn[:, None]
                q = np.clip(q + self.kt * (t - up), -lim, lim)
                up = t
                out[k] = self._join(q, fn)
        return out


ROUGH = [dict(E=192.85e9, nu=0.29, Re=0.000173, Et=620e6, Sy=331.7e6), dict(E=70e9, nu=0.33, Re=0.0005, Et=0.0, Sy=250e6)]
GAPS = np.array([0.0, 1.0, 2.5, 4.0]) * 1e-6
GAPW = np.array([0.2, 0.3, 0.3, 0.2]) * 1e4
NRAD = 8


class RefRough(Ref):
    """Rough contact (Porter and Brake 2023; plastic loading Ghaednia et al. 2019, unloading Brake 2015), one asperity at a time."""

    def __init__(self, p, model):
        m = ROUGH[p.get('mat', 0)]
        self.E, self.nu, self.Re, self.Et, self.Sy = m['E'], m['nu'], m['Re'], m['Et'], m['Sy']
        self.Es = self.E / 2 / (1 - self.nu ** 2)
        self.Gs = self.E / 4 / (1 + self.nu) / (2 - self.nu)
        self.C = 1.295 * np.exp(0.736 * self.nu)
        self.dy = 2 * (np.pi * self.C * self.Sy / (4 * self.Es)) ** 2 * 2 * self.Re
        self.gaps = p['gap'] + GAPS
        self.mif = model == 'MIF'
        self.mu0 = self.mu_ = p['mu']
        if self.mif:
            self.x = np.linspace(0, 1, NRAD)
            self.xw = np.full(NRAD, 2.0)
            self.xw[[0, -1]] = 1.0
            self.xw /= self.xw.sum()
            with np.errstate(divide='ignore'):
                k = 0.8709 + 0.1291 / np.sqrt(1 - self.x ** 2) + 0.0629 * self.x - 0.8915 * self.x ** 2 + 0.6998 * self.x ** 3
            k[-1] = 0.0
            self.kx = k
        self.reset()

    def zero(self):
        n = len(GAPS)
        return (np.zeros((n, NRAD, 2)), np.zeros(n)) if self.mif else (np.zeros((n, 2)), np.zeros(n))

    def reset(self):
        self.top, self.Fm, self.u = 0.0, np.zeros(len(GAPS)), np.zeros(3)
        self.q, self.a = self.zero()
        self.unclear = self.tied = False

    def mu(self, real):
        self.mu_ = self.mu0 if real else 0.0

    def elastic(self, d):
        return 4 / 3 * self.Es * np.sqrt(self.Re) * d ** 1.5, np.sqrt(self.Re * d)

    def plastic(self, d):
        r = d / self.dy
        fe, ae = self.elastic(d)
        B = 0.14 * np.exp(23 * self.Sy / (2 * self.Es))
        ap = 2 * self.Re * (np.pi * self.C * self.Sy / (4 * self.Es)) * np.sqrt(r * (r / 1.9) ** B)
        ups = 0.0
        e = self.Et / self.E
        if e > 1e-15:
            s = np.sqrt(self.E / self.Sy)
            ups = -2 * s * e ** (1 - (d - self.dy) / (4 * self.Re)) / ((4 - 3 * np.exp(-2 * s * e)) * (1 - e))
        a = ae + (ap - ae) * np.exp(ups)
        H = 2.84 - 0.92 * (1 - np.cos(np.pi * a / (2 * self.Re)))
        Fc = 4 / 3 * (self.Re / self.Es) ** 2 * (self.C * np.pi * self.Sy / 2) ** 3
        fp = Fc * (np.exp(-0.25 * r ** (5 / 12)) * r ** 1.5 + 4 * H / self.C * (1 - np.exp(-r ** (5 / 9) / 25)) * r)
        return fp + (fe - fp) * (1 - np.exp(-3.3 * e)), a

    def unload(self, d, dm, Fm):
        """Elastic around the largest load (dm, Fm); nothing was flattened where the asperity never touched."""
        if dm <= 0 or Fm <= 0:
            return 0.0, 0.0
        db = dm * (1 - Fm / (4 / 3 * self.Es * np.sqrt(self.Re) * dm ** 1.5))
        if d <= db or dm <= db:
            return 0.0, 0.0
        Rb = (Fm / (4 / 3 * self.Es)) ** 2 / (dm - db) ** 3
        return 4 / 3 * self.Es * np.sqrt(Rb) * (d - db) ** 1.5, np.sqrt(Rb * (d - db))

    def normal(self, d, dm, Fm, tie=False):
        lim = 1.9 * self.dy
        if d > lim and abs(d - dm) < 1e-9 * abs(dm):
            self.tied = True           # reloaded to the same point: rounding decides between two contact radii
            if tie:
                return self.plastic(d) if d <= dm else self.unload(d, dm, Fm)
        if d > lim and d > dm:
            return self.plastic(d)
        if d < lim and dm < lim:
            return self.elastic(d) if d > 0 else (0.0, 0.0)
        return self.unload(d, dm, Fm)

    def tangent(self, du, q, a0, fn, a):
        """-> (tractions or forces to remember, tangential force per asperity)"""
        if not self.mif:
            lim = self.mu_ * fn[:, None]
            q = np.clip(q + 8 * self.Gs * np.outer(a, du), -lim, lim)
            return q, q
        new, f = np.zeros_like(q), np.zeros((len(fn), 2))
        for i in range(len(fn)):
            if fn[i] <= 0 or a[i] <= 0:
                continue
            r = a[i] * self.x
            t = np.zeros((NRAD, 2))
            if a0[i] > 0:
                for c in range(2):
                    t[:, c] = np.interp(r, a0[i] * self.x, q[i, :, c], right=0.0)
            t = t + np.outer(8 * self.Gs / a[i] / np.pi * self.kx, du)
            lim = self.mu_ * 1.5 * fn[i] / np.pi / a[i] ** 2 * np.sqrt(1 - self.x ** 2)[:, None]
            new[i] = np.clip(t, -lim, lim)
            f[i] = 2 * np.pi * a[i] ** 2 * ((new[i] * self.x[:, None]).T @ self.xw)
        return new, f

    def f(self, u, commit=False, tie=False):
        u = np.asarray(u, dtype=float)
        self.tied = False
        fa = [self.normal(u[2] - g, self.top - g, F, tie) for g, F in zip(self.gaps, self.Fm)]
        fn, a = np.array([x[0] for x in fa]), np.array([x[1] for x in fa])
        q, f = self.tangent(u[:2] - self.u[:2], self.q, self.a, fn, a)
        if commit:
            self.top, self.Fm, self.u, self.q, self.a = max(self.top, u[2]), np.maximum(self.Fm, fn), u.copy(), q, a
            self.unclear = self.unclear or self.tied and self.mif
        return np.append(GAPW @ f, GAPW @ fn)

    def loop(self, ut, udt, u0):
        top = np.max(ut[:, 2])
        dm = top - self.gaps
        Fm = [self.normal(d, 0 - g, 0.0)[0] for d, g in zip(dm, self.gaps)]
        q, a0 = self.zero()
        up = np.asarray(u0, dtype=float)[:2]
        out = np.zeros_like(ut)
        for _ in range(2):
            for k in range(len(ut)):
                fa = [self.unload(ut[k, 2] - g, d, F) for g, d, F in zip(self.gaps, dm, Fm)]
                fn, a = np.array([x[0] for x in fa]), np.array([x[1] for x in fa])
                q, f = self.tangent(ut[k, :2] - up, q, a0, fn, a)
                a0, up = a, ut[k, :2]
                out[k] = np.append(GAPW @ f, GAPW @ fn)
        return out


class RefInst(Ref):
    hysteretic = False
    has_prestress = False

    def __init__(self, fun, vel=False):
        self.fun, self.vel = fun, vel

    def reset(self):
        pass

    def f(self, u, commit=False):
        return self.fun(np.asarray(u, dtype=float))

    def loop(self, ut, udt, u0):
        x = udt if self.vel else ut
        return np.array([self.fun(x[k]) for k in range(len(ut))])


def _iwanbb(p):
    kt, Fs, chi, beta = p['kt'], p['Fs'], p['chi'], p['beta']
    pm = Fs * (1 + beta) / kt / (beta + (chi + 1) / (chi + 2))
    # force matched at phimax: kt*pm - E*pm^(2+chi) = Fs
    E = (kt * pm - Fs) / pm ** (2 + chi)

    def f(u):
        a = np.abs(u)
        return np.sign(u) * np.where(a < pm, kt * a - E * a ** (2 + chi), Fs)
    return f


def _poly(p):
    E, q = np.array(p['E']), np.array(p['q'])
    return lambda u: E @ np.array([np.prod([u[j] ** q[i, j] for j in range(q.shape[1])]) for i in range(q.shape[0])])


class Element:
    """One nonlinear force of the real package with its reference."""

    def __init__(self, d, N, plan=None, QT=None):
        """d: {'kind', 'p', 'seed'}; QT: reuse the matrices of another element."""
        self.d, self.kind = d, d['kind']
        p = d['p']
        rng = random.Random(d['seed'])
        m = d.get('m', 1)
        self.n = n = {'dry2': 2 * m, 'dry3': 3 * m, 'roughTAN': 3, 'roughMIF': 3}.get(
            self.kind, 2 if self.kind == 'poly' else (m if self.kind in ('cubic', 'quintic', 'cdamp', 'uni', 'iwanbb', 'cubicj') else 1))
        self.local_scale = p.get('scale', 1.0)
        if QT is None:
            Q = np.array([[rng.choice([1.0, 0.0, 0.5, -1.0]) for _ in range(N)] for _ in range(n)])
            for i in range(n):
                if not Q[i].any():
                    Q[i, rng.randrange(N)] = 1.0
            if d.get('mat') == 'sel' and n <= N:      # plain selection of degrees of freedom, the identity for n == N
                Q = np.eye(N)[:n]
            T = Q.T.copy() if rng.random() < 0.6 or d.get('sym') or d.get('mat') else np.array(
                [[rng.choice([1.0, 0.0, 0.7, -1.0]) for _ in range(n)] for _ in range(N)])
        else:
            Q, T = QT
        self.Q, self.T = np.array(Q), np.array(T)
        self.u0 = d.get('u0', 'default')
        self.obj = self._make(p, np.array(Q), np.array(T))
        if plan is not None:
            self.obj.Q = fault_array(Q, plan)
            self.obj.T = fault_array(T, plan)
        self.ref = self._ref(p, m)
        self.peak = 0.0

    def _make(self, p, Q, T):
        k = self.kind
        from tmdsimpy import nlforces as nf
        if k == 'jenkins':
            return nf.JenkinsForce(Q, T, p['kt'], p['Fs'])
        if k == 'vjenkins':
            return nf.VectorJenkins(Q, T, p['kt'], p['Fs'])
        if k == 'iwan':
            return nf.Iwan4Force(Q, T, p['kt'], p['Fs'], p['chi'], p['beta'], Nsliders=p['n'])
        if k == 'viwan':
            return nf.VectorIwan4(Q, T, p['kt'], p['Fs'], p['chi'], p['beta'], Nsliders=p['n'])
        if k == 'cubic':
            return nf.CubicForce(Q, T, p['k'])
        if k == 'quintic':
            return nf.QuinticForce(Q, T, p['k'])
        if k == 'cdamp':
            return nf.CubicDamping(Q, T, p['k'])
        if k == 'uni':
            return nf.UnilateralSpring(Q, T, p['k'], Npreload=p['N'], delta=p['delta'])
        if k == 'iwanbb':
            return nf.ConservativeIwanBB(Q, T, p['kt'], p['Fs'], p['chi'], p['beta'])
        if k == 'poly':
            return nf.GenPolyForce(Q, T, np.array(p['E']), np.array(p['q']))
        from tmdsimpy.jax import nlforces as jf
        u0 = self.u0
        kw = {} if u0 == 'default' else {'u0': np.array(u0) if isinstance(u0, list) else u0}
        if k == 'jjenkins':
            return jf.JenkinsForce(Q, T, p['kt'], p['Fs'], **kw)
        if k == 'jvjenkins':
            return jf.VectorJenkins(Q, T, p['kt'], p['Fs'], **kw)
        if k == 'dry2':
            return jf.ElasticDryFriction2D(Q, T, p['kt'], p['kn'], p['mu'], meso_gap=p['gap'], **kw)
        if k == 'dry3':
            return jf.ElasticDryFriction3D(Q, T, p['kt'], p['kn'], p['mu'], meso_gap=p['gap'], **kw)
        if k in ('roughTAN', 'roughMIF'):
            from tmdsimpy.jax.nlforces.roughcontact.rough_contact import RoughContactFriction
            r = ROUGH[p.get('mat', 0)]
            return RoughContactFriction(Q, T, r['E'], r['nu'], r['Re'], r['Et'], r['Sy'], p['mu'], meso_gap=p['gap'],
                                        gaps=GAPS.copy(), gap_weights=GAPW.copy(), tangent_model=k[5:], N_radial_quad=NRAD, **kw)
        raise KeyError(k)

    def _ref(self, p, m):
        k = self.kind
        if k in ('jenkins', 'vjenkins', 'jjenkins', 'jvjenkins'):
            r = RefSlider(p)
            r.static = k in ('jenkins', 'vjenkins')
            r.has_prestress = k != 'jvjenkins'
            return r
        if k in ('iwan', 'viwan'):
            return RefIwan(p)
        if k == 'dry2':
            return RefDry(p, 1, m)
        if k == 'dry3':
            return RefDry(p, 2, m)
        if k == 'cubic':
            return RefInst(lambda u: p['k'] * u ** 3)
        if k == 'quintic':
            return RefInst(lambda u: p['k'] * u ** 5)
        if k == 'cdamp':
            return RefInst(lambda u: p['k'] * u ** 3, vel=True)
        if k == 'uni':
            return RefInst(lambda u: np.where(u > p['delta'], p['k'] * (u - p['delta']), 0.0) - p['N'])
        if k == 'iwanbb':
            return RefInst(_iwanbb(p))
        if k == 'poly':
            return RefInst(_poly(p))
        if k in ('roughTAN', 'roughMIF'):
            return RefRough(p, k[5:])
        raise KeyError(k)

    @property
    def rough(self):
        return self.kind.startswith('rough')

    @property
    def static_kept_by_aft(self):
        """JAX elements keep their static history apart from the harmonic one."""
        return self.kind.startswith(('dry', 'rough'))

    def slider0(self, Uloc, h, live_u0=None):
        """Documented initial slider position of the periodic steady state."""
        u0 = self.u0 if live_u0 is None else live_u0
        if self.kind in ('jjenkins', 'jvjenkins', 'dry2', 'dry3'):
            if isinstance(u0, str):
                u0 = 0
            if u0 is None:
                return Uloc[0] if h[0] == 0 else np.zeros(self.n)
            return np.asarray(u0, dtype=float) * np.ones(self.n)
        if self.rough:
            if isinstance(u0, str):
                u0 = 0
            u0 = np.asarray(u0, dtype=float)
            return u0 if u0.shape == (3,) else np.append(u0 * np.ones(2), 0.0)
        return Uloc[0] if h[0] == 0 else np.zeros(self.n)

    def ref_loop(self, U, w, h, Nt, live_u0=None):
        N = self.Q.shape[1]
        Nhc = sum(1 if n == 0 else 2 for n in h)
        Ul = np.asarray(U).reshape(Nhc, N) @ self.Q.T
        ut = basis(h, Nt) @ Ul
        udt = w * (dbasis(h, Nt) @ Ul)
        return ut, self.ref.loop(ut, udt, self.slider0(Ul, h, live_u0))

    def ref_aft(self, U, w, h, Nt, live_u0=None):
        ut, ft = self.ref_loop(U, w, h, Nt, live_u0)
        self.peak = np.max(np.abs(ft)) * max(1.0, np.max(np.abs(self.T)))
        return (project(h, ft) @ self.T.T).reshape(-1)


def derivative_mismatch(an, f0, fp, fm, tols, rel=1e-4):
    """Analytic directional derivative against central differences at two steps; kinks inside a stencil widen the band.
    fp, fm: {eps: values}; tols: absolute accuracy of one value.  -> index of the worst entry out of band, or None."""
    c, n = [], 0.0
    for eps in fp:
        fwd, bwd = (fp[eps] - f0) / eps, (f0 - fm[eps]) / eps
        n = n + np.abs(fwd - bwd) + 4 * tols / eps
        c.append((fp[eps] - fm[eps]) / (2 * eps))
    n = 5 * n + 5 * np.abs(c[0] - c[-1])
    lim = rel * np.abs(an) + rel * 0.03 * np.max(np.abs(an)) + n
    err = np.abs(an - c[0])
    bad = ~(err <= lim)
    return int(np.argmax(bad)) if np.any(bad) else None, c[0]


def gen_element(rng, kinds, us, fs=None, sym=False):
    """us: displacement scale of the run; fs: force scale; sym: T is always the transpose of Q."""
    k = rng.choice(kinds)
    d = {'kind': k, 'seed': rng.randrange(10 ** 9)}
    if sym:
        d['sym'] = True
    fs = 10.0 ** rng.uniform(-1, 3) if fs is None else fs
    kt = round(rng.uniform(0.3, 3), 3) * fs / us
    if k in ('jenkins', 'vjenkins', 'jjenkins', 'jvjenkins'):
        p = {'kt': kt, 'Fs': round(rng.uniform(0.2, 2), 3) * fs}
    elif k in ('iwan', 'viwan', 'iwanbb'):
        p = {'kt': kt, 'Fs': round(rng.uniform(0.2, 2), 3) * fs, 'chi': rng.choice([0.0, -0.5, -0.2, 0.4, -0.8]),
             'beta': rng.choice([0.0, 0.1, 0.8, 2.0]), 'n': rng.choice([1, 3, 8])}
    elif k in ('dry2', 'dry3'):
        p = {'kt': kt, 'kn': round(rng.uniform(0.3, 3), 3) * fs / us, 'mu': round(rng.uniform(0.1, 1.0), 3),
             'gap': rng.choice([0.0, 0.0, 0.3, -0.4]) * us}
        d['m'] = rng.choice([1, 1, 2])
    elif k == 'cubic':
        p, d['m'] = {'k': fs / us ** 3}, rng.choice([1, 2])
    elif k == 'quintic':
        p, d['m'] = {'k': fs / us ** 5}, rng.choice([1, 2])
    elif k == 'cdamp':
        p, d['m'] = {'k': fs / us ** 3}, rng.choice([1, 2])
    elif k == 'uni':
        p, d['m'] = {'k': fs / us, 'N': rng.choice([0.0, 0.5]) * fs, 'delta': rng.choice([0.0, 0.3, -0.4]) * us}, rng.choice([1, 2])
    elif k == 'poly':
        q = rng.choice([[[3, 0], [2, 1], [0, 3]], [[2, 0], [1, 1]], [[1, 2], [3, 0], [2, 0], [0, 2]]])
        p = {'q': q, 'E': [[rng.uniform(-1, 1) * fs / us ** sum(r) for r in q] for _ in range(2)]}
    else:
        p = {'mu': rng.choice([0.03, 0.2, 0.6]), 'gap': rng.choice([0.0, 1e-6, -1e-6]), 'mat': rng.choice([0, 0, 1])}
        d['u0'] = rng.choice(['default', 'default', 'default', round(rng.uniform(-1, 1), 3) * us]
                             + [[round(rng.uniform(-1, 1), 3) * us for _ in range(n)] for n in (1, 2, 3)])
    p['fs'] = fs if not k.startswith('rough') else 1e-6
    d['p'] = p
    if rng.random() < 0.25:
        d['mat'] = 'sel'
    if k in ('dry2', 'dry3', 'jjenkins', 'jvjenkins'):
        n = {'dry2': 2, 'dry3': 3}.get(k, 1) * d.get('m', 1)
        d['u0'] = rng.choice(['default', 'default', None, round(rng.uniform(-1, 1), 3) * us,
                              [round(rng.uniform(-1, 1), 3) * us for _ in range(n)]])
    return d


# ---------------------------------------------------------------- reference equations of motion

def sibling(rng, h, need=(), top=6):
    """Another harmonic set that agrees with h in size, highest harmonic or number of components: state kept from one may fit the other."""
    sets = [s for s in _subsets(top) if list(s) != list(h) and all(k in s for k in need)]
    same = [s for s in sets if len(s) == len(h) and (s[0] == 0) == (h[0] == 0)]
    close = [s for s in same if s[-1] == h[-1]]
    other = [s for s in sets if s[-1] == h[-1] or len(s) == len(h)]
    r = rng.random()
    pick = close if close and r < 0.4 else same if same and r < 0.8 else other
    return list(rng.choice(pick or sets))


def _subsets(top):
    import itertools
    return [c for m in (1, 2, 3, 4) for c in itertools.combinations(range(top + 1), m) if c != (0,)]


class RefSystem:
    """Independent statement of the equations that the residual methods of VibrationSystem document."""

    def __init__(self, M, K, C):
        self.M, self.K, self.C = np.array(M), np.array(K), np.array(C)
        self.els, self.u0 = [], {}
        self.n = len(self.M)

    def fnl(self, U, w, h, Nt):
        out = np.zeros(len(U))
        for j, e in enumerate(self.els):
            live = None if j not in self.u0 else e.Q @ np.array(self.u0[j])
            out = out + e.ref_aft(U, w, h, Nt, live)
        return out

    def lin(self, U, w, h, C=None):
        C = self.C if C is None else C
        out, i, n = np.zeros(len(U)), 0, self.n
        for k in h:
            if k == 0:
                out[:n] = self.K @ U[:n]
                i = n
                continue
            c, s = U[i:i + n], U[i + n:i + 2 * n]
            D = self.K - (k * w) ** 2 * self.M
            out[i:i + n] = D @ c + k * w * (C @ s)
            out[i + n:i + 2 * n] = D @ s - k * w * (C @ c)
            i += 2 * n
        return out

    def hbm(self, U, w, Fl, h, Nt, C=None):
        return self.lin(U, w, h, C) + self.fnl(U, w, h, Nt) - Fl

    def n0(self, h):
        return self.n if h[0] == 0 else 0

    def static(self, U, F):
        f = self.K @ U - F
        for e in self.els:
            f = f + e.T @ e.ref.f(e.Q @ U)
        return f

    def epmc(self, x, Fl, h, Nt):
        n0, n = self.n0(h), self.n
        U, w, xi, A = x[:-3], x[-3], x[-2], 10.0 ** x[-1]
        Us = U.copy()
        Us[n0:] *= A
        Fs = Fl.copy()
        Fs[n0:] = 0
        R = self.hbm(Us, w, Fs, h, Nt, C=self.C - xi * self.M)
        c, s = U[n0:n0 + n], U[n0 + n:n0 + 2 * n]
        return np.hstack((R, c @ self.M @ c + s @ self.M @ s - 1.0, Fl[n0:] @ U[n0:]))

    def split(self, Fl, h):
        n0 = self.n0(h)
        st, dy = Fl.copy(), Fl.copy()
        st[n0:] = 0
        dy[:n0] = 0
        return st, dy

    def dfl(self, x, w, Fl, h, Nt):
        st, dy = self.split(Fl, h)
        return self.hbm(x[:-1], w, st + x[-1] * dy, h, Nt)

    def amp(self, x, Fl, h, Nt, recov, amp, order):
        st, dy = self.split(Fl, h)
        U, f, w = x[:-2], x[-2], x[-1]
        n0, n = self.n0(h), self.n
        a2 = (recov @ U[n0:n0 + n]) ** 2 + (recov @ U[n0 + n:n0 + 2 * n]) ** 2
        return np.hstack((self.hbm(U, w, st + f * dy, h, Nt), w ** (2 * order) * a2 - amp ** 2))

    def phase(self, x, Fl, h, Nt, recov, amp, order):
        U, fc, fs, w = x[:-3], x[-3], x[-2], x[-1]
        n0, n = self.n0(h), self.n
        F = np.zeros(len(U))
        F[:n0] = Fl[:n0]
        F[n0:n0 + n] = fc * Fl[n0:n0 + n]
        F[n0 + n:n0 + 2 * n] = fs * Fl[n0:n0 + n]
        return np.hstack((self.hbm(U, w, F, h, Nt), w ** order * (recov @ U[n0:n0 + n]) - amp,
                          w ** order * (recov @ U[n0 + n:n0 + 2 * n])))

    def vprnm1(self, U, w, h, rhi, Nt, filt=None):
        """Cosine of the angle between the internal superharmonic forcing and the superharmonic response."""
        n, i = self.n, 0
        for k in h:
            if k == rhi:
                break
            i += n * (1 if k == 0 else 2)
        low = U.copy()
        low[i:] = 0
        F = -self.fnl(low, w, h, Nt)[i:i + 2 * n]
        X = U[i:i + 2 * n]
        if filt is not None:
            F = np.array([filt @ F[:n], filt @ F[n:]]).reshape(-1)
            X = np.array([filt @ self.M @ X[:n], filt @ self.M @ X[n:]]).reshape(-1)
        self.angle_terms = np.sqrt(F @ F)
        with np.errstate(invalid='ignore', divide='ignore'):
            return F @ X / np.sqrt((F @ F) * (X @ X))

    def vprnm(self, x, h, rhi, Fl, Nt, filt=None, scale=1.0):
        st, dy = self.split(Fl, h)
        U, w, f = x[:-2], x[-2], x[-1]
        return np.hstack((self.hbm(U, w, st + f * dy, h, Nt), scale * self.vprnm1(U, w, h, rhi, Nt, filt)))

    def vphase(self, x, Fl, h, rhi, recov, order, Nt, filt=None, scale=1.0):
        U, w, amp = x[:-4], x[-2], x[-1]
        R = self.phase(x[:-1], Fl, h, Nt, recov, amp, order)
        return np.hstack((R, scale * self.vprnm1(U, w, h, rhi, Nt, filt)))

    def base(self, x, Ub, flag, h, Nt):
        nh = sum(1 if k == 0 else 2 for k in h)
        flag = np.array(flag)
        U = np.zeros((nh, self.n))
        U[:, flag] = np.asarray(Ub).reshape(nh, -1)
        U[:, ~flag] = x[:-1].reshape(nh, -1)
        R = self.hbm(U.reshape(-1), x[-1], np.zeros(nh * self.n), h, Nt)
        return R.reshape(nh, self.n)[:, ~flag].reshape(-1)
