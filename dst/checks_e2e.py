"""E01-E05: points delivered by whole analyses satisfy the equations of motion, whatever faults and restarts happen."""
import numpy as np

from .core import Check, Violation, lib
from .e2e import Campaign, gen_analysis, gen_plan, shrink_e2e

SMOOTH = {'cubic', 'quintic', 'cdamp', 'poly'}


class EndToEnd(Check):
    types = ()
    jax = 0.25
    runs_quick = 420
    runs_thorough = 8000
    rule = 'a campaign that delivered at least five points and had at least one fault, restart or foreign activity take effect'
    real = 'VibrationSystem, nonlinear forces, harmonic utilities, Continuation, NonlinearSolverOMP'
    stub = 'none; faults wrap the residual function and the Q and T matrices and enter at interpreter line events'
    state_measure = 'distinct (analysis, element kinds, harmonic set, corrector, conditioning, fault kinds, end of each life) tuples'

    def gen(self, rng, i, tier):
        an = gen_analysis(rng, self.types, self.jax)
        return {'an': an, 'plan': gen_plan(rng, len(an['els']), n=rng.choice([30, 60, 120]))}

    def shrink(self, sc):
        return shrink_e2e(sc)

    def execute(self, sc, run):
        c = Campaign(sc, run)
        if not c.go():
            return
        an = c.an
        start = c.start[1][0]
        lives = {}
        for life, row, d in c.rows:
            lives.setdefault(life, []).append((row, d))
        n = 0
        for life, rows in sorted(lives.items()):
            exc, out, lam0 = c.lives[life]
            an.set_case(c.cases[life])
            pts = [(r, d) for r, d in rows if np.all(np.isfinite(r))]
            if pts and pts[0][0][-1] != lam0:
                raise Violation('start', 'run %d starts at %.17g instead of %.17g' % (life, pts[0][0][-1], lam0))
            for j, (r, d) in enumerate(pts):
                an.judge(r, 'run %d point %d' % (life, j))
                n += 1
            if exc is None:
                got = np.array([r for r, _ in pts])
                if got.shape != out.shape or not np.array_equal(got, out):
                    raise Violation('history', 'run %d returned rows that differ from those handed to the callback' % life)
            for j in range(1, len(pts)):
                if j in (1, 4) and all(e['kind'] in SMOOTH for e in sc['an']['els']) and sc['an']['t'] != 'shoot':
                    self.tangent(an, pts[j - 1][0], pts[j][1], 'run %d direction to point %d' % (life, j))
            self.extra(sc, an, pts, run)
        exc, out, lam0 = c.lives[-1]
        if not sc['an']['els'] and exc is None and sc['an']['reform'] == 1 and sc['an']['t'] in ('hbm', 'base', 'dfl', 'amp', 'phase', 'phasedA') \
                and len(c.lives) == len(sc['plan']['restarts']) + 1:
            done = any((r[-1] - an.lams[1]) * (an.lams[1] - start) >= 0 for _, r, _ in c.rows)     # of any run: a restart may begin there
            if not done and len(out) < sc['an']['steps']:
                raise Violation('no-progress', 'fault-free run on a linear system stopped after %d points at %.6g (target %.6g)'
                                % (len(out), out[-1, -1], an.lams[1]))
        eff = [k for k in run.stats if k.startswith(('fault.', 'restart.', 'foreign.'))]
        run.state(sc['an']['t'], tuple(sorted(e['kind'] for e in sc['an']['els'])), tuple(sc['an']['h']), sc['an']['corr'],
                  sc['an']['dyn'], tuple(sorted(eff)), tuple(x[0] for x in c.lives))
        run.hit('points', n)
        run.nontrivial = n >= 5 and bool(eff)

    def tangent(self, an, x, d, what):
        """The prediction direction of a step is tangent to the independent equations at the point it starts from."""
        if not np.all(np.isfinite(d)):
            raise Violation('direction', what + ': not finite')
        z = np.abs(d / an.scale)
        e = 1e-6 / np.max(z)
        with np.errstate(all='ignore'):
            g = (an.ref(x + e * d) - an.ref(x - e * d)) / (2 * e)
            G = np.zeros(len(g))
            for j in range(len(x)):
                v = np.zeros(len(x))
                v[j] = 1e-6 * max(an.scale[j], abs(x[j]))
                G += np.abs(an.ref(x + v) - an.ref(x - v)) / (2 * v[j]) * abs(d[j])
        m = len(g) - an.k
        bad = ~(np.abs(g[:m]) <= 2e-4 * max(np.max(G[:m]), 1e-2 * an.mag * np.max(z)))
        if an.k and not np.any(bad):
            bad = ~(np.abs(g[m:]) <= 2e-4 * np.maximum(G[m:], 0.1 * an.ctol * np.max(z)))
        if np.any(bad):
            raise Violation('direction', '%s: not tangent to the solution set (row %d of %s)' % (what, int(np.argmax(bad)), an.d['t']))

    def extra(self, sc, an, pts, run):
        pass


class E01(EndToEnd):
    pid = 'E01'
    types = ('hbm', 'hbm', 'base', 'dfl')


class E02(EndToEnd):
    pid = 'E02'
    types = ('epmc',)


class E04(EndToEnd):
    pid = 'E04'
    types = ('amp', 'phase', 'phasedA')


class E05(EndToEnd):
    pid = 'E05'
    types = ('vprnm', 'vphase')


class E03(EndToEnd):
    pid = 'E03'
    types = ('shoot',)
    runs_quick = 320
    runs_thorough = 2500

    def extra(self, sc, an, pts, run):
        """Post-processing of the delivered points: time series and Floquet multipliers against the independent flow."""
        from scipy.integrate import solve_ivp
        from tmdsimpy.postprocess.shooting import time_stability
        if not pts:
            return
        other = pts[0][0].copy()       # any initial state is a valid input
        other[-1] *= 0.5 + 2.5 * ((sc['an']['mat'] % 97) / 97)
        X = np.array([pts[-1][0], other])
        Fv = an.load
        keep = X.copy()
        y, yd, stable, rho = lib(time_stability, an.vs, X, Fv, Nt=16, what='time_stability')
        if not np.array_equal(X, keep):
            raise Violation('argument-changed', 'time_stability changed the solution points')
        n = an.n
        for i, x in enumerate(X):
            wants = {t: an.flow(x, Fv, t / 16) for t in (4, 8, 11)}
            reach = max([an.reach(x)] + [an.reach(np.append(v, x[-1])) for v in wants.values()])
            for t, want in wants.items():
                got = np.hstack((y[:, t, i], yd[:, t, i]))
                lim = 1.5e-2 * reach * np.hstack((np.ones(n), x[-1] * np.ones(n)))
                if not np.all(np.abs(got - want) <= lim):
                    raise Violation('time-series', 'time_stability sample %d of point %d is %s, the equations of motion give %s' % (t, i, got, want))
            if all(e['kind'] in SMOOTH for e in sc['an']['els']):
                A = np.zeros((2 * n, 2 * n))
                for j in range(2 * n):
                    v = np.zeros(2 * n + 1)
                    v[j] = 1e-5 * reach * (x[-1] if j >= n else 1)
                    A[:, j] = (an.flow(x + v, Fv, 1.0) - an.flow(x - v, Fv, 1.0)) / (2 * v[j])
                want = np.max(np.abs(np.linalg.eigvals(A)))
                if not abs(rho[i] - want) <= 2e-2 * max(1.0, want) or (abs(want - 1) > 5e-2 and bool(stable[i]) != (want < 1)):
                    raise Violation('stability', 'largest multiplier of point %d is given as %.6g (stable=%s), the flow has %.6g'
                                    % (i, rho[i], stable[i], want))
