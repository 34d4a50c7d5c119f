"""Whole analyses on the real stack: VibrationSystem + nonlinear forces + Continuation + nonlinear solver.

``Analysis(sc)`` builds one analysis from its scenario: residual function, start, range, conditioning and the independent
equations (forcelib.RefSystem) that its points must satisfy.  ``Campaign`` runs it under a plan of evaluation faults,
interruptions, foreign activity and restarts.
"""
import contextlib
import io
import random

import numpy as np

from .core import Violation, BudgetExceeded, Hang, lib
from .forcelib import sibling, Element, gen_element, Plan, LineInterrupt, RefSystem

GRADFREE = ('dry2', 'dry3', 'cubic', 'quintic', 'cdamp', 'uni', 'iwanbb', 'poly')
NUMPY_KINDS = ['jenkins', 'vjenkins', 'iwan', 'viwan', 'cubic', 'quintic', 'cdamp', 'uni', 'iwanbb', 'poly']
JAX_KINDS = ['dry2', 'dry3', 'jjenkins']
SHOOT = ['cubic', 'quintic', 'uni', 'iwanbb', 'poly']
RHI = 3


def gen_analysis(rng, types, jax=0.25, steps=(6, 12, 20)):
    t = rng.choice(types)
    n = rng.choice([1, 1, 2, 2, 3])
    if t == 'base':
        n = rng.choice([2, 3])
    if t == 'shoot':
        n, steps = rng.choice([1, 1, 1, 2]), (3, 5)
    us = 10.0 ** rng.uniform(-4, 1)
    fs = 10.0 ** rng.uniform(-1, 3)
    use_jax = t != 'shoot' and rng.random() < jax
    kinds = SHOOT if t == 'shoot' else NUMPY_KINDS
    nel = rng.choice([0, 1, 1, 1, 2, 2])
    if t in ('vprnm', 'vphase'):
        kinds, nel = ['cubic', 'jenkins', 'vjenkins', 'viwan'], rng.choice([1, 1, 2])
        use_jax = False
    wref = 10.0 ** rng.uniform(0, 2)
    els = [gen_element(rng, kinds, us, fs, True) for _ in range(nel)]
    if use_jax and els:
        els[0] = gen_element(rng, JAX_KINDS, us, fs, True)
        els[0]['m'] = 1
        if isinstance(els[0].get('u0'), list):
            els[0]['u0'] = els[0]['u0'][:{'dry2': 2, 'dry3': 3}.get(els[0]['kind'], 1)]
    for e in els:
        if e['kind'] in ('dry2', 'dry3'):     # mostly in contact
            e['p']['gap'] = rng.choice([-1.0, -0.5, 0.0]) * us
        if e['kind'] in ('iwan', 'viwan'):
            e['p']['n'] = 4
        if e['kind'] == 'cdamp':
            e['p']['k'] = 0.2 * fs / (us * wref) ** 3
        if e['kind'] == 'quintic':
            e['p']['k'] *= 0.2
    if t in ('vprnm', 'vphase'):
        h = rng.choice([[0, 1, 2, 3], [1, 3], [1, 3], [1, 3, 5]])
    else:
        h = [0, 1, 2, 3] if use_jax else rng.choice([[0, 1, 2, 3], [1, 3], [0, 1], [1, 2, 3]])
    return {'t': t, 'n': n, 'us': us, 'fs': fs, 'kf': round(rng.uniform(2, 8), 3), 'wref': wref,
            'mat': rng.randrange(10 ** 6), 'els': els, 'h': h, 'Nt': 64 if use_jax else 16 if t == 'shoot' else rng.choice([32, 64]),
            'zeta': round(10 ** rng.uniform(-2.2, -1), 4), 'amp': round(rng.uniform(0.3, 2), 3), 'dir': rng.random() < 0.5,
            'order': rng.choice([0, 1, 2]), 'filt': rng.random() < 0.5, 'cscale': rng.choice([1.0, 5.0]),
            'corr': rng.choice(['Ortho', 'Pseudo']), 'dyn': rng.random() < 0.6, 'ds': rng.choice([0.03, 0.06, 0.1]),
            'steps': rng.choice(steps), 'b': rng.choice([0.5, 0.5, 0.3, 0.8]), 'reform': rng.choice([1, 1, 2]),
            'dsmin_ratio': rng.choice([4.0, 20.0]), 'sine': rng.choice([0, round(rng.uniform(-3.1, 3.1), 3)]), 'blist': rng.random() < 0.3, 'hwc': rng.random() < 0.3}


class Analysis:
    def __init__(self, d, plan=None, vs=None):
        """vs: reuse the objects of another Analysis of the same system."""
        from tmdsimpy.vibration_system import VibrationSystem
        self.d = d
        n = self.n = d['n']
        rng = random.Random(d['mat'])
        ks = d['kf'] * d['fs'] / d['us']
        chain = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
        chain[-1, -1] = 1.2
        m = np.diag([rng.uniform(0.7, 1.4) for _ in range(n)])
        self.K = ks * chain
        lamb = np.linalg.eigvals(np.linalg.solve(m, chain)).real.min()
        self.M = m * ks * lamb / d['wref'] ** 2
        self.els = []
        self.Krng = rng
        els = [Element(e, n, plan) for e in d['els']]
        # tangent stiffness at rest of the independent models, by differences (used for damping and start values only)
        Kt = self.K.copy()
        e0 = 1e-6 * d['us']
        for e in els:
            if e.kind == 'cdamp':
                continue
            e.ref.reset() if e.ref.static else None
            f0 = self.static_ref(e, np.zeros(n))
            for j in range(n):
                x = np.zeros(n)
                x[j] = e0
                Kt[:, j] += (self.static_ref(e, x) - f0) / e0
        self.Kt = 0.5 * (Kt + Kt.T)
        w2, V = np.linalg.eig(np.linalg.solve(self.M, self.Kt))
        order = np.argsort(w2.real)
        self.w1 = float(np.sqrt(abs(w2.real[order[0]])))
        phi = V[:, order[0]].real
        self.phi = phi / np.sqrt(phi @ self.M @ phi)
        z = d['zeta']
        self.C = z * self.w1 * self.M + z / self.w1 * self.K
        self.rs = RefSystem(self.M, self.K, self.C)
        self.plan = plan
        if vs is None:
            self.vs = VibrationSystem(self.M.copy(), self.K.copy(), C=self.C.copy())
            for e in els:
                if e.kind in ('jenkins', 'vjenkins'):
                    e.obj.init_history()
                self.vs.add_nl_force(e.obj)
        else:
            self.vs = vs
        self.rs.els = els
        self.gradfree = all(e.kind in GRADFREE for e in els)
        self.build()

    @staticmethod
    def static_ref(e, x):
        u = e.Q @ x
        r = e.ref
        if not r.static:      # slider started at rest
            ut = np.linspace(0, 1, 3)[:, None] * u
            f = r.loop(np.vstack((ut, ut[::-1])), np.zeros((6, len(u))), np.zeros(len(u)))[2]
        else:
            f = r.f(u)
        return e.T @ np.asarray(f)

    # pieces -----------------------------------------------------------------------------------------------
    def linear(self, w, Fc, Fs):
        """cos, sin response of the tangent system."""
        H = np.linalg.inv(self.Kt - w ** 2 * self.M + 1j * w * self.C)
        z = H @ (Fc - 1j * Fs)
        return z.real, -z.imag

    def pack(self, c, s, static=None):
        h, n = self.d['h'], self.n
        nh = sum(1 if k == 0 else 2 for k in h)
        U = np.zeros(nh * n)
        i = n if h[0] == 0 else 0
        U[i:i + n], U[i + n:i + 2 * n] = c, s
        if static is not None and i:
            U[:n] = static
        return U

    def build(self):
        d, n, h, Nt, us = self.d, self.n, self.d['h'], self.d['Nt'], self.d['us']
        rng = self.Krng
        vs, rs, t = self.vs, self.rs, d['t']
        ha = np.array(h)
        self.ha = ha
        n0 = n if h[0] == 0 else 0
        lo, hi = self.w1 * rng.uniform(0.6, 0.85), self.w1 * rng.uniform(1.1, 1.4)
        w0, w1 = (lo, hi) if d['dir'] else (hi, lo)
        f = np.array([rng.choice([1.0, 0.5, 0.0]) for _ in range(n)])
        f[rng.randrange(n)] = 1.0
        c, s = self.linear(self.w1, f, 0 * f)
        f *= d['amp'] * us / max(np.max(np.hypot(c, s)), 1e-300)
        static = np.array([rng.uniform(-1, 1) for _ in range(n)]) * 0.2 * np.max(np.abs(f)) if n0 and rng.random() < 0.5 else None
        self.f = f
        fc, fs = f, 0 * f
        if t in ('hbm', 'dfl', 'amp', 'shoot') and d.get('sine'):
            th = np.array([d['sine'] + rng.choice([0.0, 0.0, 0.5]) for _ in range(n)])
            fc, fs = f * np.cos(th), f * np.sin(th)
        Fl = self.pack(fc, fs, static)
        recov = np.zeros(n)
        recov[rng.randrange(n)] = 1.0
        if rng.random() < 0.5:        # a combination of degrees of freedom, not near a node of the mode
            r2 = np.where(recov == 0, [rng.choice([0.0, 0.5, -0.5]) for _ in range(n)], recov)
            if abs(r2 @ self.phi) > 0.4 * np.max(np.abs(self.phi)):
                recov = r2
        self.recov = recov
        order = d['order']
        U1 = us * np.ones(len(Fl))
        W = self.w1
        mag = max(np.max(np.abs(self.K)) * us * d['amp'], np.max(np.abs(f)))
        k = 0
        if t == 'hbm':
            self.fun = lambda x, calc_grad=True: vs.hbm_res(x, Fl, ha, Nt=Nt, **self.cg(calc_grad))
            self.ref = lambda x: rs.hbm(x[:-1], x[-1], Fl, h, Nt)
            self.lams = (w0, w1)
            self.x0 = self.pack(*self.linear(w0, fc, fs))
            self.scale = np.append(U1, W)
        elif t == 'base':
            flag = np.arange(n) == 0
            nh = len(Fl) // n
            Ub = np.zeros(nh)
            Ub[n0 // n] = us * d['amp'] * d['zeta'] * 4
            fb = -self.Kt[~flag][:, flag] @ np.array([Ub[n0 // n]])
            self.fun = lambda x, calc_grad=True: vs.hbm_base_res(x, Ub, flag, ha, Nt=Nt)
            self.ref = lambda x: rs.base(x, Ub, flag, h, Nt)
            self.lams = (w0, w1)
            H = np.linalg.inv(self.Kt[1:, 1:] - w0 ** 2 * self.M[1:, 1:] + 1j * w0 * self.C[1:, 1:])
            z = H @ fb
            X = np.zeros((nh, n - 1))
            X[n0 // n], X[n0 // n + 1] = z.real, -z.imag
            self.x0 = X.reshape(-1)
            self.scale = np.append(us * np.ones(nh * (n - 1)), W)
        elif t == 'dfl':
            w = lo + (hi - lo) * rng.random()
            self.fun = lambda x, calc_grad=True: vs.hbm_res_dFl(x, w, Fl, ha, Nt=Nt, **self.cg(calc_grad))
            self.ref = lambda x: rs.dfl(x, w, Fl, h, Nt)
            self.lams = (0.2, 1.2) if d['dir'] else (1.2, 0.2)
            self.x0 = self.pack(*self.linear(w, fc, fs)) * self.lams[0]
            self.scale = np.append(U1, 1.0)
        elif t == 'epmc':
            Fe = self.pack(f / np.max(np.abs(f)) * 0, 0 * f)
            Fe[n0 + int(np.argmax(np.abs(self.phi)))] = 1.0
            if static is not None:
                Fe[:n] = static
            a = np.log10(us * d['amp'] / np.max(np.abs(self.phi)))
            self.fun = lambda x, calc_grad=True: vs.epmc_res(x, Fe, ha, Nt=Nt, **self.cg(calc_grad))
            self.ref = lambda x: rs.epmc(x, Fe, h, Nt)
            self.lams = (a - 0.8, a + 0.5) if d['dir'] else (a + 0.5, a - 0.8)
            xi = float(self.phi @ self.C @ self.phi)
            self.x0 = np.hstack((self.pack(0 * f, self.phi), self.w1, xi))
            sc = np.max(np.abs(self.phi)) * np.ones(len(Fe))
            if n0:
                sc[:n] = us
            self.scale = np.hstack((sc, W, max(xi, 1e-3 * W), 1.0))
            k = 2
            self.ctol = np.array([1.0, np.max(np.abs(self.phi))])
        elif t == 'amp':
            self.amp = d['amp'] * us * W ** order
            c, s = self.linear(w0, fc, fs)
            f0 = self.amp / (w0 ** order * np.hypot(recov @ c, recov @ s))
            self.fun = lambda x, calc_grad=True: vs.hbm_amp_control_res(x, Fl, ha, recov, self.amp, order, Nt=Nt, **self.cg(calc_grad))
            self.ref = lambda x: rs.amp(x, Fl, h, Nt, recov, self.amp, order)
            self.lams = (w0, w1)
            self.x0 = np.append(self.pack(c, s) * f0, f0)
            self.scale = np.hstack((U1, 1.0, W))
            k = 1
            self.ctol = np.array([self.amp ** 2])
        elif t in ('phase', 'phasedA'):
            self.amp = d['amp'] * us * W ** order
            wf = w0 if t == 'phase' else lo + (hi - lo) * rng.random()
            amp0 = self.amp
            if t == 'phasedA':
                self.lams = (0.2 * self.amp, 1.3 * self.amp) if d['dir'] else (1.3 * self.amp, 0.2 * self.amp)
                amp0 = self.lams[0]
            else:
                self.lams = (w0, w1)
            self.x0 = self.phase_start(f, wf, amp0, order)
            if t == 'phase':
                self.fun = lambda x, calc_grad=True: vs.hbm_amp_phase_control_res(x, Fl, ha, recov, self.amp, order, Nt=Nt, **self.cg(calc_grad))
                self.ref = lambda x: rs.phase(x, Fl, h, Nt, recov, self.amp, order)
                self.scale = np.hstack((U1, 1.0, 1.0, W))
            else:
                self.fun = lambda x, calc_grad=True: vs.hbm_amp_phase_control_dA_res(x, Fl, ha, recov, wf, order, Nt=Nt, **self.cg(calc_grad))
                self.ref = lambda x: rs.phase(np.append(x[:-1], wf), Fl, h, Nt, recov, x[-1], order)
                self.scale = np.hstack((U1, 1.0, 1.0, self.amp))
            k = 2
            self.ctol = np.array([self.amp, self.amp])
        elif t in ('vprnm', 'vphase'):
            filt = self.phi if d['filt'] else None
            cs = d['cscale']
            self.kw = {'superharmonic_filter': filt, 'constraint_scale': cs}
            self.amp = d['amp'] * us * (W / 3) ** order
            if t == 'vprnm':
                self.fun = lambda x, calc_grad=True: vs.vprnm_res(x, ha, RHI, Fl, Nt=Nt, **self.kw, **self.cg(calc_grad))
                self.ref = lambda x: rs.vprnm(x, h, RHI, Fl, Nt, filt, cs)
                k = 1
            else:
                self.fun = lambda x, calc_grad=True: vs.vprnm_amp_phase_res(x, Fl, ha, RHI, recov, order, Nt=Nt, **self.kw, **self.cg(calc_grad))
                self.ref = lambda x: rs.vphase(x, Fl, h, RHI, recov, order, Nt, filt, cs)
                k = 3
            self.vprnm_start(Fl, f, order, filt)
            self.ctol = np.array([cs]) if k == 1 else np.array([self.amp, self.amp, cs])
        elif t == 'shoot':
            Fv = np.hstack((fc, fs))
            self.fun = lambda x, calc_grad=True: vs.shooting_res(x, Fv, Nt=Nt)
            self.ref = lambda x: self.shoot_ref(x, Fv)
            self.lams = (w0, w1)
            c, s = self.linear(w0, fc, fs)
            self.x0 = np.hstack((c, w0 * s))
            self.scale = np.hstack((us * np.ones(n), us * W * np.ones(n), W))
        self.k = k
        self.mag = mag
        arr = {'base': lambda: Ub, 'epmc': lambda: None, 'shoot': lambda: Fv}.get(t, lambda: Fl)()
        self.load, self.load0 = arr, None if arr is None else arr.copy()
        self.f0, self.C0, self.case = f.copy(), self.C, [1.0, 1.0]
        self.nstat = n if n0 and t not in ('base', 'shoot') else 0

    def set_case(self, case):
        """Load case: excitation (changed in place, as a user would) and damping scaled."""
        if case == self.case:
            return
        if self.load is not None and case[0] != self.case[0]:
            self.load[self.nstat:] = self.load0[self.nstat:] * case[0]
            self.f = self.f0 * case[0]
        if case[1] != self.case[1]:
            self.C = self.C0 * case[1]
            lib(self.vs.set_new_C, C=self.C.copy(), what='set_new_C')
            self.rs.C = self.C
        self.case = list(case)

    def cg(self, calc_grad):
        return {'calc_grad': calc_grad} if self.gradfree else {}

    def phase_start(self, f, w, amp, order):
        a = amp / w ** order
        r = self.recov
        # response to cos and to sin forcing of unit scale
        c1, s1 = self.linear(w, f, 0 * f)
        c2, s2 = self.linear(w, 0 * f, f)
        A = np.array([[r @ c1, r @ c2], [r @ s1, r @ s2]])
        fc, fs = np.linalg.solve(A, np.array([a, 0.0]))
        return np.hstack((self.pack(c1 * fc + c2 * fs, s1 * fc + s2 * fs), fc, fs))

    def vprnm_start(self, Fl, f, order, filt):
        """Start near a superharmonic resonance: the phase condition changes sign along a frequency sweep of plain HBM."""
        d, h, Nt, us, rs = self.d, self.d['h'], self.d['Nt'], self.d['us'], self.rs
        w1 = self.w1
        wg = np.linspace(1.25, 0.8, 19) * w1 / RHI
        U1 = us * np.ones(len(Fl))
        c, s = self.linear(wg[0], f, 0 * f)
        unit = d['amp'] * us / max(np.hypot(self.recov @ c, self.recov @ s), 1e-300)
        self.x0 = None
        ph = d['t'] == 'vphase'
        for mult in (1.0, 0.4, 2.5, 6.0):
            X, prev = self.pack(c, s) * unit * mult, None
            force, amp0 = unit * mult, self.amp * mult
            for w in wg:
                if ph:
                    Y = X if prev is not None else self.phase_start(f, w, amp0, order)
                    fun = lambda y: self.vs.hbm_amp_phase_control_res(np.append(y, w), Fl, self.ha, self.recov, amp0, order, Nt=Nt)[:2]
                else:
                    Y = X
                    fun = lambda y: self.vs.hbm_res(np.append(y, w), force * self.dyn(Fl) + self.stat(Fl), self.ha, Nt=Nt)[:2]
                ok = False
                for _ in range(15):
                    R, J = fun(Y)
                    J = J[:, :len(Y)]
                    if not np.all(np.isfinite(J)):
                        break
                    dY = np.linalg.lstsq(J, -R, rcond=None)[0]
                    Y = Y + dY
                    if np.linalg.norm(dY) < 1e-9 * np.linalg.norm(Y):
                        ok = True
                        break
                if not ok:
                    prev = None
                    continue
                X = Y
                q = rs.vprnm1(Y[:len(Fl)], w, h, RHI, Nt, filt)
                if not np.isfinite(q) or rs.angle_terms < 1e-5 * np.max(np.abs(f)):
                    prev = None
                    continue
                if prev is not None and prev * q < 0 and abs(q - prev) < 1.5:
                    self.x0 = np.hstack((Y, w))
                    if ph:
                        self.lams = (amp0, amp0 * (1.5 if d['dir'] else 0.6))
                        self.scale = np.hstack((U1, np.max(np.abs(Y[-2:])) * np.ones(2), w1, amp0))
                        self.amp = amp0
                    else:
                        self.lams = (force, force * (1.6 if d['dir'] else 0.6))
                        self.scale = np.hstack((U1, w1, force))
                    return
                prev = q

    def dyn(self, Fl):
        F = Fl.copy()
        if self.d['h'][0] == 0:
            F[:self.n] = 0
        return F

    def stat(self, Fl):
        return Fl - self.dyn(Fl)

    def flow(self, x, Fv, frac):
        """State after a fraction of the period from the independent equations of motion."""
        from scipy.integrate import solve_ivp
        n, w = self.n, x[-1]
        Mi = np.linalg.inv(self.M)

        def g(t, y):
            fn = sum((e.T @ np.asarray(e.ref.f(e.Q @ y[:n])) for e in self.rs.els), np.zeros(n))
            F = Fv[:n] * np.cos(w * t) + Fv[n:] * np.sin(w * t)
            return np.hstack((y[n:], Mi @ (F - self.C @ y[n:] - self.K @ y[:n] - fn)))
        T = 2 * np.pi / w
        s = solve_ivp(g, (0, frac * T), x[:-1], method='DOP853', rtol=1e-8, atol=1e-10 * self.d['us'], max_step=T / 32)
        return s.y[:, -1]

    def reach(self, x):
        return max(np.max(np.abs(x[:self.n])), np.max(np.abs(x[self.n:-1])) / x[-1])

    def shoot_ref(self, x, Fv):
        return self.flow(x, Fv, 1.0) - x[:-1]

    # judgement ----------------------------------------------------------------------------------------------
    def judge(self, x, what):
        """The point satisfies the independent equations."""
        x = np.asarray(x, dtype=float)
        if not np.all(np.isfinite(x)):
            raise Violation('non-finite-point', '%s: %s' % (what, x))
        R = self.ref(x)
        if self.d['t'] == 'shoot':
            r = self.reach(x)
            err = np.abs(R) / np.hstack((r * np.ones(self.n), r * x[-1] * np.ones(self.n)))
            tol = 4e-3 if all(e['kind'] not in ('uni', 'iwanbb') for e in self.d['els']) else 1.5e-2
        else:
            m = self.mag + np.max(np.abs(self.K)) * self.response(x)
            m = max(m, max([e.peak for e in self.rs.els], default=0.0))
            den = m * np.ones(len(R))
            if self.k:
                den[-self.k:] = self.ctol
            err = np.abs(R) / den
            tol = 1e-6
        bad = ~(err <= tol)
        if np.any(bad):
            k = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
            raise Violation('equation-not-satisfied', '%s: %s equation %d of %d is off by %.3g of its terms at %s=%.8g'
                            % (what, self.d['t'], k, len(R), err[k], 'last unknown', x[-1]))

    def response(self, x):
        n = len(x) - len(self.lams) + 1
        if self.d['t'] == 'epmc':
            return np.max(np.abs(x[:-3])) * 10 ** x[-1]
        return np.max(np.abs(x[:-max(1, {'hbm': 1, 'base': 1, 'dfl': 1, 'amp': 2, 'phase': 3, 'phasedA': 3, 'vprnm': 2,
                                         'vphase': 4}.get(self.d['t'], 1))]))

    # continuation ---------------------------------------------------------------------------------------------
    def config(self):
        d = self.d
        cfg = {'ds0': d['ds'], 'dsmin': d['ds'] / d['dsmin_ratio'], 'dsmax': d['ds'] * 2, 'MaxSteps': d['steps'],
               'FracLam': d['b'], 'corrector': d['corr'], 'DynamicCtoP': d['dyn'], 'verbose': -1, 'xtol': 1e-9,
               'TargetNfev': 8, 'nsolve_verbose': False}
        if d['blist']:
            cfg['FracLamList'] = [d['b'], 0.9, 0.2]
        return cfg

    def ctop(self):
        if self.d['hwc'] and self.d['t'] == 'hbm':
            from tmdsimpy.utils.harmonic import harmonic_wise_conditioning
            x = np.append(self.x0, self.lams[0])
            return np.append(harmonic_wise_conditioning(x[:-1], self.n, self.ha, delta=self.d['us'] * 0.3), self.scale[-1])
        return self.scale.copy()

    def solver(self):
        from tmdsimpy.jax.solvers import NonlinearSolverOMP
        return NonlinearSolverOMP(config={'max_steps': 12, 'reform_freq': self.d['reform'] if self.gradfree else 1,
                                          'verbose': False})


# ---------------------------------------------------------------- faults and foreign activity

FOREIGN = ['hbm', 'static', 'prestress', 'local', 'small', 'frf', 'otherh', 'reuse', 'kind', 'kind', 'kind']


def foreign(an, op, seed):
    """Other legitimate use of the same objects; must not matter to the analysis that is running."""
    rng = random.Random(seed)
    vs, n, us, d = an.vs, an.n, an.d['us'], an.d
    h = {'otherh': [1, 2]}.get(op, d['h'])
    nh = sum(1 if k == 0 else 2 for k in h)
    U = us * np.array([rng.uniform(-2, 2) for _ in range(nh * n)])
    ha = np.array(h)
    if op in ('hbm', 'otherh') or (op == 'local' and len(an.els_kinds & {'jjenkins', 'jvjenkins'})):
        if op == 'otherh' and an.els_kinds & {'dry2', 'dry3', 'jjenkins'}:
            ha, U = an.ha, U[:0]
            U = us * np.array([rng.uniform(-2, 2) for _ in range(sum(1 if k == 0 else 2 for k in d['h']) * n)])
        out = lib(vs.hbm_res, np.append(U, an.w1 * rng.uniform(0.3, 2)), np.zeros(len(U)), ha, Nt=d['Nt'], what='hbm_res')
        for a in out:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a *= 0
    elif op == 'static':
        if all(e.ref.static for e in an.rs.els):
            x = us * np.array([rng.uniform(-2, 2) for _ in range(n)])
            lib(vs.static_res, x, np.zeros(n), what='static_res')
            lib(vs.update_force_history, x, what='update_force_history')
            if rng.random() < 0.5:
                lib(vs.init_force_history, what='init_force_history')
    elif op == 'prestress':
        if not an.els_kinds & {'iwan', 'viwan'}:
            lib(vs.set_prestress_mu, what='set_prestress_mu')
            lib(vs.hbm_res, np.append(U, an.w1), np.zeros(len(U)), ha, Nt=d['Nt'], what='hbm_res')
            lib(vs.reset_real_mu, what='reset_real_mu')
    elif op == 'local':
        from tmdsimpy.postprocess.harmonic import local_harmonic_forces
        lib(local_harmonic_forces, vs, U, an.w1, ha, Nt=d['Nt'], what='local_harmonic_forces')
    elif op == 'small':
        lib(vs.total_aft, U * 1e-9, an.w1, ha, Nt=d['Nt'], what='total_aft')
    elif op == 'frf':
        from tmdsimpy.vibration_system import VibrationSystem
        from tmdsimpy.solvers import NonlinearSolver
        v2 = VibrationSystem(vs.M, vs.K, ab=[0.1, 1e-4])
        for e in an.rs.els[:1]:
            v2.add_nl_force(e.obj)
        lib(v2.linear_frf, np.array([an.w1]), np.ones(n), NonlinearSolver(), neigs=rng.choice([1, n]), what='linear_frf')
        v2.set_new_C(np.eye(n))
    elif op == 'kind':
        # the same (or another) residual of the system with arguments of its own
        from .checks_system import V01, TYPES
        t = d['t'] if d['t'] != 'shoot' and rng.random() < 0.8 else rng.choice([t for t in TYPES if t not in ('static', 'total')])
        v = t in ('vprnm', 'vphase')
        if an.els_kinds & {'dry2', 'dry3', 'jjenkins'}:
            h = d['h']
        else:
            h = sibling(rng, d['h'], ((1,) if t == 'vphase' or not v else ()) + ((3,) if v else ()))
        if v and not any(k > 1 for k in h):
            return
        x, args, meth, kw, _ = V01.arguments(t, h, d['Nt'], seed, n, us, an.M, an.K)
        with np.errstate(all='ignore'):
            lib(getattr(vs, meth), *args, what=meth, **kw)
    elif op == 'reuse':
        s = an.live_solver
        if s is not None:
            A = np.eye(2) * 3.0
            lib(s.nsolve, lambda x, calc_grad=True: (A @ x - 1.0 + x ** 3, A + np.diag(3 * x ** 2)), np.array([rng.random(), 5.0]),
                verbose=False, what='nsolve')


def corrupt(out, act):
    out = [np.array(o, dtype=float) for o in out]
    if act[0] == 'nan':
        out = [o * np.nan for o in out]
    elif act[0] == 'nanR':
        out[0] = out[0] * np.nan
    elif act[0] == 'nan1':
        out[0].flat[act[1] % out[0].size] = np.nan
    elif act[0] == 'nanJ':
        if len(out) > 1:
            out[1].flat[act[1] % out[1].size] = np.nan
    elif act[0] == 'inf':
        out[0] = out[0] + np.inf
    elif act[0] == 'jac':
        out[1:] = [o * act[1] for o in out[1:]]
    return tuple(out)


class Campaign:
    """Runs one analysis under a fault plan, restarting after every abort as the plan says."""

    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.plan = sc['plan']
        self.evals = self.cbs = 0
        self.rows = []           # (life, row, direction)
        self.lives = []
        self.armed = None
        self.matmul = Plan()

    def fun(self, x, calc_grad=True):
        self.evals += 1
        if self.evals > 20000:
            raise BudgetExceeded('evaluations')
        act = self.plan['eval'].get(str(self.evals)) if self.faulty else None
        if self.sc['an']['t'] == 'shoot' and not (x[-1] > 0.2 * self.an.w1 and np.max(np.abs(x / self.an.scale)) < 20):
            m = len(x) - 1         # a diverged iterate cannot be integrated in bounded time: a failed evaluation
            return np.full(m, np.nan), np.full((m, m), np.nan), np.full(m, np.nan)
        if act is None:
            return self.an.fun(x, calc_grad)
        self.run.hit('fault.' + act[0])
        if act[0] == 'foreign':
            foreign(self.an, act[1], act[2])
            self.run.hit('foreign.' + act[1])
            return self.an.fun(x, calc_grad)
        if act[0] == 'raise':
            raise make(act[1])
        if act[0] == 'matmul':
            self.matmul.arm(act[1])
            try:
                return self.an.fun(x, calc_grad)
            finally:
                self.matmul.disarm()
        if act[0] == 'line':
            if self.evals > 3 and self.armed is None:
                self.armed = LineInterrupt(int(act[1] * 400), act[2])
                self.armed.__enter__()
            return self.an.fun(x, calc_grad)
        return corrupt(self.an.fun(x, calc_grad), act)

    def callback(self, x, d):
        self.cbs += 1
        act = self.plan['cb'].get(str(self.cbs)) if self.faulty else None
        if act and act[0] == 'raise' and act[2] == 'before':
            self.run.hit('fault.cb-raise')
            raise make(act[1])
        self.rows.append((len(self.lives), np.array(x, dtype=float), np.array(d, dtype=float)))
        self.run.log('cb', self.rows[-1][1])
        if act:
            self.run.hit('fault.cb-' + act[0])
            if act[0] == 'foreign':
                foreign(self.an, act[1], act[2])
            else:
                raise make(act[1])

    def build(self):
        self.an = Analysis(self.sc['an'], self.matmul)
        self.an.els_kinds = {e['kind'] for e in self.sc['an']['els']}
        self.an.live_solver = None
        for op, seed in self.plan.get('before', []):      # earlier use of the system
            foreign(self.an, op, seed)
            self.run.hit('before.' + op)
        self.solver = self.an.solver() if self.an.x0 is not None else None
        self.cont = None

    def go(self):
        from tmdsimpy.continuation import Continuation
        sc, run = self.sc, self.run
        self.build()
        if self.an.x0 is None:
            run.hit('no-start')
            return False
        self.start = (self.an.x0.copy(), self.an.lams)
        restarts = sc['plan']['restarts']
        self.cases = [[1.0, 1.0]]
        x0, lam0 = self.an.x0, self.an.lams[0]
        for life in range(len(restarts) + 1):
            self.faulty = life < len(restarts)
            an = self.an
            self.an.live_solver = self.solver
            cfg = an.config()
            cfg['callback'] = self.callback
            if self.cont is None or life == 0 or x0 is not None:
                self.cont = lib(Continuation, self.solver, ds0=sc['an']['ds'], CtoP=an.ctop(), config=cfg, what='Continuation')
            exc, out = None, None
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    out = lib(self.cont.continuation, self.fun, np.append(x0, lam0), lam0, an.lams[1], allow=AssertionError,
                              what='continuation')
            except AssertionError as e:
                exc = 'initial'
            except Hang:
                raise
            except BudgetExceeded:
                raise Violation('no-end', 'a continuation run of at most %d steps made over 20000 evaluations' % sc['an']['steps'])
            except BaseException as e:
                if not getattr(e, 'dst_injected', False):
                    from .core import Injected
                    if not isinstance(e, Injected):
                        raise
                exc = type(e).__name__
            finally:
                if self.armed is not None:
                    self.armed.__exit__()
                    if self.armed.fired:
                        run.log('line', self.armed.where)
                    self.armed = None
            run.log('life', life, exc, self.evals, len(self.rows))
            run.hit('end.%s' % exc)
            self.lives.append((exc, out, lam0))
            mine = [r for r in self.rows if r[0] == life and np.all(np.isfinite(r[1]))]
            if exc is None:
                # a run that came to its end but short of the target is continued like an aborted one
                done = (out[-1, -1] - an.lams[1]) * (an.lams[1] - self.start[1][0]) >= 0
                if done or life == len(restarts):
                    break
            elif exc == 'initial' and not mine and life == len(restarts):
                break
            if life == len(restarts):
                break
            mode = restarts[life]
            run.hit('restart.' + mode)
            if mode in ('process', 'begin'):
                self.build()
            case = self.plan.get('cases', {}).get(str(life + 1), self.cases[-1])
            if case != self.cases[-1]:
                run.hit('restart.new-case')
            self.an.set_case(case)
            self.cases.append(case)
            if mode in ('begin', 'retry') or not self.rows:
                x0, lam0 = self.start[0], self.start[1][0]
            else:
                good = [r for r in self.rows if np.all(np.isfinite(r[1]))]
                if good:
                    x0, lam0 = good[-1][1][:-1].copy(), float(good[-1][1][-1])
        return True


def make(name):
    from .contsim import make_exc
    return make_exc(name)


def gen_plan(rng, nel, interrupts=True, corruptions=True, foreigns=True, n=120):
    p = {'eval': {}, 'cb': {}, 'restarts': []}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        p['restarts'].append(rng.choice(['process', 'process', 'same', 'retry', 'begin']))
    p['cases'] = {}
    for k in range(len(p['restarts'])):
        if rng.random() < 0.35:
            p['cases'][str(k + 1)] = [rng.choice([1.0, 0.6, 1.4]), rng.choice([1.0, 0.7, 1.5])]
    if corruptions:
        kinds = rng.sample(['nan', 'nanR', 'nan1', 'nanJ', 'inf', 'jac', 'jac'], rng.randint(1, 3))
        rate = rng.choice([0.01, 0.03, 0.08])
        for k in range(1, n):
            if rng.random() < rate:
                kd = rng.choice(kinds)
                p['eval'][str(k)] = [kd] + {'jac': [rng.choice([0.5, 2.0, -1.0])],
                                            'nan1': [rng.randrange(99)], 'nanJ': [rng.randrange(99)]}.get(kd, [])
    if foreigns:
        p['before'] = [[rng.choice(FOREIGN + ['kind'] * 6), rng.randrange(10 ** 6)] for _ in range(rng.choice([0, 1, 1, 2]))]
        for _ in range(rng.choice([0, 2, 6])):
            p['eval'][str(rng.randrange(1, n))] = ['foreign', rng.choice(FOREIGN), rng.randrange(10 ** 6)]
        for _ in range(rng.choice([0, 1, 4])):
            p['cb'][str(rng.randrange(1, 20))] = ['foreign', rng.choice(FOREIGN), rng.randrange(10 ** 6)]
    if interrupts:
        for _ in range(len(p['restarts'])):
            r = rng.random()
            k = str(rng.randrange(1, n))
            exc = rng.choice(['KeyboardInterrupt', 'MemoryError', 'InjectedError', 'LinAlgError', 'SystemExit'])
            if r < 0.3:
                p['eval'][k] = ['raise', exc]
            elif r < 0.5 and nel:
                p['eval'][k] = ['matmul', rng.randrange(3 * nel)]
            elif r < 0.75:
                p['eval'][str(rng.randrange(4, n))] = ['line', rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
            else:
                p['cb'][str(rng.randrange(1, 14))] = ['raise', exc, rng.choice(['before', 'after'])]
    return p


def shrink_e2e(sc):
    import copy
    p = sc['plan']
    for site in ('eval', 'cb'):
        keys = sorted(p[site], key=int)
        for size in sorted({len(keys), max(1, len(keys) // 2), 1}, reverse=True):
            for i in range(0, len(keys), max(1, size)):
                if keys[i:i + size]:
                    c = copy.deepcopy(sc)
                    for k in keys[i:i + size]:
                        del c['plan'][site][k]
                    yield c
    for i in range(len(p['restarts'])):
        c = copy.deepcopy(sc)
        del c['plan']['restarts'][i]
        yield c
    for i in range(len(p.get('before', []))):
        c = copy.deepcopy(sc)
        del c['plan']['before'][i]
        yield c
    for k in sorted(p.get('cases', {})):
        c = copy.deepcopy(sc)
        del c['plan']['cases'][k]
        yield c
    for i in range(len(sc['an']['els'])):
        c = copy.deepcopy(sc)
        del c['an']['els'][i]
        yield c
    for s in (2, 4, 6):
        if s < sc['an']['steps']:
            c = copy.deepcopy(sc)
            c['an']['steps'] = s
            yield c
