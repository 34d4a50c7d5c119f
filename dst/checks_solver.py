"""S01-S03: the Newton/BFGS solver under faulted evaluations and linear solves."""
import contextlib
import copy
import io
import math
import random

import numpy as np

from .core import Check, Violation
from .contsim import make_exc

TOLS = ['xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel']


class Problem:
    """Square system with a known root; R(X*) = 0."""

    def __init__(self, p):
        rng = random.Random(p['seed'])
        n = self.n = p['n']
        A = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        self.kind = p['kind']
        S = A @ A.T / n + np.eye(n)
        self.A = S if self.kind != 'nonsym' else S + 0.4 * (A - A.T)
        self.x = np.array([rng.uniform(-1, 1) for _ in range(n)])
        self.c = p['c']
        self.scale = p.get('rscale', 1.0)

    def R(self, X):
        d = X - self.x
        if self.kind == 'atan':
            r = self.A @ np.arctan(self.c * d)
        else:
            r = self.A @ d + self.c * d ** 3
        return self.scale * r

    def J(self, X):
        d = X - self.x
        if self.kind == 'atan':
            return self.scale * self.A * (self.c / (1 + (self.c * d) ** 2))
        return self.scale * (self.A + np.diag(3 * self.c * d ** 2))


class Rec:
    """Evaluation log of one nsolve call."""

    def __init__(self, prob, plan, run):
        self.prob, self.plan, self.run = prob, plan, run
        self.evals = []         # (in_line_search, X, gradient asked, R, J)
        self.n = 0
        self.in_ls = False
        self.ls = []            # finished line searches
        self.nlin = 0
        self.lin = []

    def fun(self, X, calc_grad=True):
        k = self.n
        self.n += 1
        X = np.array(X, dtype=float)
        if X.shape != (self.prob.n,):
            raise ValueError('residual called with shape %s' % (X.shape,))
        R, J = self.prob.R(X), self.prob.J(X)
        act = self.plan.get(str(k))
        if act:
            if self.run:
                self.run.hit('fault.eval-' + act[0])
            if act[0] == 'nanR':
                R = R * np.nan
            elif act[0] == 'nan1':
                R = R.copy()
                R[act[1] % self.prob.n] = np.nan
            elif act[0] == 'nanJ':
                J = J.copy()
                J[0, -1] = np.nan
            elif act[0] == 'infR':
                R = R.copy()
                R[0] = np.inf
            elif act[0] == 'noise':
                R = R * (1 + act[1])
            elif act[0] == 'flip':
                R = -R
            elif act[0] == 'scaleJ':
                J = J * act[1]
            elif act[0] == 'raise':
                raise make_exc(act[1])
        self.evals.append((self.in_ls, X, bool(calc_grad), np.array(R), np.array(J) if calc_grad else None))
        if self.run:
            self.run.log('eval', self.in_ls, bool(calc_grad), X)
        if len(self.evals) > 3000:
            raise make_exc('InjectedError')
        return (R, J) if calc_grad else (R,)


def omp_class():
    from tmdsimpy.jax.solvers import NonlinearSolverOMP

    class SimOMP(NonlinearSolverOMP):
        rec = None

        def line_search(self, fun, X, Rx, deltaX):
            r = self.rec
            start = len(r.evals)
            r.in_ls = True
            try:
                alpha, sol = super().line_search(fun, X, Rx, deltaX)
            finally:
                r.in_ls = False
            r.ls.append({'main': len([e for e in r.evals if not e[0]]) - 1, 'X': np.array(X), 'Rx': np.array(Rx),
                         'dX': np.array(deltaX), 'alpha': float(alpha), 'evals': r.evals[start:], 'sol': sol})
            return alpha, sol

        def lin_factored_solve(self, f, b):
            r = self.rec
            k = r.nlin
            r.nlin += 1
            act = r.plan.get('lin%d' % k)
            if act and act[0] == 'raise':
                if r.run:
                    r.run.hit('fault.linsolve-raise')
                raise make_exc(act[1])
            x = super().lin_factored_solve(f, b)
            if act and act[0] == 'nan':
                if r.run:
                    r.run.hit('fault.linsolve-nan')
                x = np.array(x) * np.nan
            return x

    return SimOMP


def gen_cfg(rng):
    cfg = {'max_steps': rng.choice([1, 2, 3, 5, 8, 12, 20, 30]), 'reform_freq': rng.choice([1, 1, 2, 3, 4, 6, 10])}
    stop = rng.sample(TOLS, rng.choice([1, 1, 1, 2, 3, 6]))
    acc = rng.sample(TOLS, rng.choice([0, 0, 1, 1, 2]))
    vals = {}
    for t in TOLS:
        lo = {'xtol': -10, 'rtol': -10, 'etol': -16, 'xtol_rel': -9, 'rtol_rel': -9, 'etol_rel': -14}[t]
        vals[t] = 10.0 ** rng.randint(lo, lo + 8)
    if rng.random() < 0.25 and 'xtol' in stop:
        vals['xtol'] = None
    for t in set(stop) | set(acc) | set(rng.sample(TOLS, 2)):
        cfg[t] = vals[t]
    cfg['stopping_tol'] = stop
    cfg['accepting_tol'] = acc
    if rng.random() < 0.4:
        cfg['line_search_iters'] = rng.choice([1, 2, 3, 5, 8])
        if rng.random() < 0.5:
            cfg['line_search_tol'] = rng.choice([0.1, 0.5, 0.9])
        if rng.random() < 0.5:
            cfg['line_search_same_sign'] = rng.random() < 0.5
    cfg['verbose'] = rng.random() < 0.2
    return cfg


class SolverCheck(Check):
    runs_quick = 20000
    runs_thorough = 1000000
    ls = None
    real = ('tmdsimpy.jax.solvers.NonlinearSolverOMP (nsolve, line_search, edit_config, lin_factor, lin_factored_solve on '
            'JAX), tmdsimpy.solvers.NonlinearSolver.nsolve')
    stub = 'residual functions with a known root; evaluation and linear-solve faults scripted by the simulator'
    rule = ('one seed draws 1-4 consecutive solves on one solver object (problem, start, tolerances, reform_freq, line '
            'search, edit_config, xtol argument) and a fault plan per solve (NaN/Inf/perturbed residuals or Jacobians, '
            'failing linear solves, exceptions); non-trivial = a fault fired or a solve used more than one BFGS cycle, '
            'line search or accepting tolerance; distinct by event-log digest')
    state_measure = ('distinct (reform_freq, iterations, which tolerance stopped, line search used, outcome) signatures')
    assumptions = ['line_search and lin_factored_solve are the documented public methods nsolve uses (overridden to observe)']

    def gen(self, rng, i, tier):
        cfg = gen_cfg(rng)
        if self.ls and 'line_search_iters' not in cfg and rng.random() < 0.9:
            cfg['line_search_iters'] = rng.choice([1, 2, 3, 5, 8])
            cfg['line_search_same_sign'] = rng.random() < 0.5
        solves = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            n = rng.choice([1, 2, 3, 5])
            kind = rng.choice(['cubic', 'cubic', 'nonsym', 'atan'] if not self.ls else ['cubic', 'nonsym', 'atan', 'atan'])
            pr = {'seed': rng.randrange(10 ** 6), 'n': n, 'kind': kind, 'c': rng.choice([0.0, 0.1, 1.0, 3.0]) if kind != 'atan'
                  else rng.choice([0.7, 1.0, 2.0]), 'rscale': rng.choice([1.0, 1.0, 1e3, 1e-4])}
            s = {'prob': pr, 'x0': [round(rng.uniform(-3, 3) * rng.choice([0.01, 0.3, 1]), 4) for _ in range(n)],
                 'near': rng.random() < 0.5, 'plan': {}}
            if rng.random() < 0.08:
                s['x0'] = 'root'
            r = rng.random()
            if r < 0.35:
                s['xtol'] = 10.0 ** rng.randint(-10, -2)
            if rng.random() < 0.2:
                s['edit'] = {k: v for k, v in gen_cfg(rng).items() if k in ('max_steps', 'reform_freq', 'line_search_iters')}
            if rng.random() < 0.6:
                kinds = rng.sample(['nanR', 'nan1', 'nanJ', 'infR', 'noise', 'flip', 'scaleJ'], 2)
                for _ in range(rng.choice([1, 1, 2, 4])):
                    k = str(rng.randint(0, rng.choice([3, 8, 20])))
                    a = rng.choice(kinds)
                    s['plan'][k] = [a, rng.choice([0.3, -0.5, 1e-3, 2.0]) if a in ('noise', 'scaleJ') else rng.randrange(5)]
                if rng.random() < 0.15:
                    s['plan']['lin%d' % rng.randint(0, 4)] = rng.choice([['nan'], ['raise', 'LinAlgError']])
                if rng.random() < 0.25:
                    s['plan'][str(rng.randint(0, 6))] = ['raise', rng.choice(['InjectedError', 'KeyboardInterrupt', 'MemoryError'])]
            solves.append(s)
        return {'cfg': cfg, 'solves': solves, 'hybr': rng.random() < 0.1, 'ext': rng.randrange(4)}

    def shrink(self, sc):
        for i in range(len(sc['solves'])):
            if len(sc['solves']) > 1:
                c = copy.deepcopy(sc)
                del c['solves'][i]
                yield c
        for i, s in enumerate(sc['solves']):
            for k in s['plan']:
                c = copy.deepcopy(sc)
                del c['solves'][i]['plan'][k]
                yield c
            for k in ('xtol', 'edit'):
                if k in s:
                    c = copy.deepcopy(sc)
                    del c['solves'][i][k]
                    yield c
            if s['prob']['n'] > 1 and s['x0'] != 'root':
                c = copy.deepcopy(sc)
                c['solves'][i]['prob']['n'] -= 1
                c['solves'][i]['x0'] = s['x0'][:-1]
                yield c
        for k in list(sc['cfg']):
            if k in TOLS:
                continue
            c = copy.deepcopy(sc)
            del c['cfg'][k]
            if k in ('stopping_tol',) and 'xtol' not in c['cfg']:
                c['cfg']['xtol'] = 1e-8
            yield c
        for m in (1, 2, 3, 4, 6):
            if m < sc['cfg'].get('max_steps', 0):
                c = copy.deepcopy(sc)
                c['cfg']['max_steps'] = m
                yield c

    def one(self, solver, cls, s, run):
        prob = Problem(s['prob'])
        rec = Rec(prob, s['plan'], run)
        X0 = prob.x.copy() if s['x0'] == 'root' else np.array(s['x0']) + (prob.x if s['near'] else 0)
        keep = X0.copy()
        solver.rec = rec
        kw = {}
        if 'xtol' in s:
            kw['xtol'] = s['xtol']
        out = exc = None
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            try:
                out = solver.nsolve(rec.fun, X0, **kw)
            except BaseException as e:      # noqa
                exc = e
        if exc is not None and not getattr(exc, 'dst_injected', False):
            import traceback
            tb = traceback.extract_tb(exc.__traceback__)
            raise Violation('unexpected-exception', '%s: %s at %s' % (type(exc).__name__, str(exc)[:150], ' > '.join(
                '%s:%s' % (f.filename.split('/')[-1], f.name) for f in tb[-3:])))
        if run:
            if out is not None:
                run.log('ret', np.array(out[0]), bool(out[3]['success']), out[3]['nfev'], out[3]['njev'])
            else:
                run.log('exc', type(exc).__name__)
        return rec, X0, keep, out, exc

    def execute(self, sc, run):
        cls = omp_class()
        cfg_obj = copy.deepcopy(sc['cfg'])
        solver = cls(config=cfg_obj)
        eff = {'max_steps': 20, 'reform_freq': 1, 'xtol': None, 'rtol': None, 'etol': None, 'xtol_rel': None, 'rtol_rel': None,
               'etol_rel': None, 'stopping_tol': ['xtol'], 'accepting_tol': [], 'line_search_iters': 0, 'line_search_tol': 0.5,
               'line_search_same_sign': True}
        eff.update(copy.deepcopy(sc['cfg']))
        for si, s in enumerate(sc['solves']):
            if 'edit' in s:
                solver.edit_config(dict(s['edit']))
                eff.update(s['edit'])
            before = copy.deepcopy(solver.config) if hasattr(solver, 'config') else None
            res = self.one(solver, cls, s, run)
            rec, X0, keep, out, exc = res
            main = [e for e in rec.evals if not e[0]]
            if run.stats and any(k.startswith('fault') for k in run.stats):
                run.nontrivial = True
            if len(main) > eff['reform_freq'] > 1 or rec.ls:
                run.nontrivial = True
            run.hit('solves')
            run.state(eff['reform_freq'], len(main), bool(rec.ls), None if out is None else bool(out[3]['success']),
                      tuple(sorted(eff['stopping_tol'])), tuple(sorted(eff['accepting_tol'])))
            self.oracle(sc, s, eff, solver, before, rec, X0, keep, out, exc, main, run, si)
        if sc['hybr']:
            self.hybr(sc, run)

    def hybr(self, sc, run):
        pass

    def oracle(self, *a):
        raise NotImplementedError


def steps_of(rec, main, out, eff):
    """Full step of every completed iteration: from the line-search argument or from consecutive iterates."""
    pts = [e[1] for e in main]
    X = None if out is None else np.array(out[0], dtype=float)
    ls = {l['main']: l for l in rec.ls}
    full, taken = [], []
    for i in range(len(main)):
        nxt = pts[i + 1] if i + 1 < len(main) else X
        if nxt is None or not np.all(np.isfinite(main[i][3])) and i == len(main) - 1 and np.array_equal(nxt, pts[i]):
            taken.append(None)
        else:
            taken.append(nxt - pts[i])
        full.append(ls[i]['dX'] if i in ls else taken[-1])
    return full, taken, ls


class S01(SolverCheck):
    pid = 'S01'

    def oracle(self, sc, s, eff, solver, before, rec, X0, keep, out, exc, main, run, si):
        if out is None:
            return
        X, R, J, sol = out
        X = np.array(X, dtype=float)
        n = rec.prob.n
        if X.shape != (n,) or np.shape(R) != (n,):
            raise Violation('malformed-return', 'shapes %s %s' % (X.shape, np.shape(R)))
        ok = bool(sol['success'])
        if not main:
            raise Violation('no-evaluation', 'returned without evaluating the residual')
        if ok and not np.all(np.isfinite(X)):
            raise Violation('success-not-finite', 'success reported with X=%s' % X)
        if ok and (np.any(np.isnan(main[-1][3])) or (main[-1][4] is not None and np.any(np.isnan(main[-1][4])))):
            raise Violation('success-after-nan', 'success reported although the last evaluation was NaN')
        if not np.array_equal(np.asarray(R, float), main[-1][3], equal_nan=True):
            raise Violation('residual-return', 'returned residual is not the one of the last iteration')
        tol = {t: eff[t] for t in TOLS}
        tol['xtol'] = s.get('xtol', eff['xtol'])
        if tol['xtol'] is None:
            tol['xtol'] = 1e-6 * n
        full, taken, ls = steps_of(rec, main, out, eff)
        r0 = u0 = e0 = None
        last = len(main) - 1
        for i, ev in enumerate(main):
            Ri = ev[3]
            bad = np.any(np.isnan(Ri)) or (ev[4] is not None and np.any(np.isnan(ev[4])))
            if bad or full[i] is None or not np.all(np.isfinite(full[i])) or 'lin' in ''.join(s['plan']):
                # a NaN ends the solve unsuccessfully
                if ok and i == last and (bad or full[i] is None):
                    raise Violation('success-after-nan', 'iteration %d was not finite' % i)
                if i < last and (bad):
                    raise Violation('continued-after-nan', 'iteration %d evaluated NaN and the solve went on' % i)
                return
            if i == last and not ok and np.array_equal(X, ev[1]) and np.linalg.norm(full[i]) == 0:
                return      # ended without a step (failed linear solve, or BFGS update 0/0 after a zero step)
            u, r = float(np.linalg.norm(full[i])), float(np.linalg.norm(Ri))
            e = np.inf if i == 0 else float(Ri @ taken[i - 1])
            if i == 0:
                r0, u0, e0 = r, u, np.inf
            if i == 1:
                e0 = abs(e)
            val = {'xtol': u, 'rtol': r, 'etol': abs(e), 'xtol_rel': u / u0 if u0 else np.nan,
                   'rtol_rel': r / r0 if r0 else np.nan,
                   'etol_rel': np.nan if i == 0 else (abs(e) / e0 if e0 else np.nan)}

            # a step recovered as X_{i+1}-X_i and the energy product carry rounding of this size; closer calls are undecidable
            floor_u = 1e-12 * (1 + float(np.linalg.norm(ev[1])))
            floor_e = floor_u * r if i else 0.0
            slack = {'xtol': floor_u, 'rtol': 0.0, 'etol': floor_e, 'xtol_rel': floor_u / u0 if u0 else np.inf,
                     'rtol_rel': 0.0, 'etol_rel': floor_e / e0 if (i and e0) else np.inf}

            def met(names, strict):
                # strict: certainly met; not strict: possibly met (rounding band)
                for t in names:
                    v = val[t]
                    if tol[t] is None or np.isnan(v):
                        if not strict and np.isnan(v) and i > 0:
                            return t
                        continue
                    if (v * (1 + 1e-6) + slack[t] if strict else v * (1 - 1e-6) - slack[t]) < tol[t]:
                        return t
                return None
            stop_sure, stop_may = met(eff['stopping_tol'], True), met(eff['stopping_tol'], False)
            if i < last:
                if stop_sure:
                    raise Violation('overran-tolerance', 'iteration %d met %s (%.3g < %.3g) and the solve went on' % (
                        i, stop_sure, val[stop_sure], tol[stop_sure]))
                continue
            if ok:
                acc_may = met(eff['accepting_tol'], False) if len(main) == eff['max_steps'] else None
                if not stop_may and not acc_may:
                    raise Violation('false-success', 'success after %d iterations (max %d) but %s with tolerances %s' % (
                        len(main), eff['max_steps'],
                        {t: '%.3g' % val[t] for t in set(eff['stopping_tol']) | set(eff['accepting_tol'])},
                        {t: tol[t] for t in set(eff['stopping_tol']) | set(eff['accepting_tol'])}))
                run.hit('success')
                if not stop_may:
                    run.hit('accepted-at-max-steps')
            else:
                if stop_sure:
                    raise Violation('missed-success', 'failure reported although %s was met' % stop_sure)
                if len(main) == eff['max_steps']:
                    a = met(eff['accepting_tol'], True)
                    if a:
                        raise Violation('missed-accepting', 'failure reported although accepting tolerance %s was met' % a)
                    run.hit('failed-at-max-steps')
                elif len(main) < eff['max_steps']:
                    raise Violation('gave-up', 'failure after %d of %d iterations without NaN' % (len(main), eff['max_steps']))

    def hybr(self, sc, run):
        from tmdsimpy.solvers import NonlinearSolver
        s = sc['solves'][0]
        prob = Problem(s['prob'])
        rec = Rec(prob, {k: v for k, v in s['plan'].items() if v[0] in ('nanR', 'noise')}, run)
        X0 = prob.x + 0.1 if s['x0'] == 'root' else np.array(s['x0']) + (prob.x if s['near'] else 0)
        kw = {'xtol': s['xtol']} if 'xtol' in s else {}
        X, R, J, sol = NonlinearSolver().nsolve(rec.fun, X0, verbose=False, **kw)
        same = [e for e in rec.evals if np.array_equal(e[1], X)]
        if not same or not any(np.array_equal(np.asarray(R), e[3], equal_nan=True) for e in same):
            raise Violation('residual-not-at-solution', 'returned residual was not evaluated at the returned X')
        if not any(e[4] is not None and np.array_equal(np.asarray(J), e[4], equal_nan=True) for e in same):
            raise Violation('jacobian-not-at-solution', 'returned Jacobian was not evaluated at the returned X')
        run.hit('hybr-solves')


class S02(SolverCheck):
    pid = 'S02'

    def oracle(self, sc, s, eff, solver, before, rec, X0, keep, out, exc, main, run, si):
        if not np.array_equal(X0, keep):
            raise Violation('argument-changed', 'the initial guess passed in was modified')
        if before is not None and solver.config != before:
            diff = {k: (before.get(k), solver.config.get(k)) for k in set(before) | set(solver.config)
                    if before.get(k) != solver.config.get(k)}
            raise Violation('config-changed', 'solve %d left the solver settings changed: %s' % (si, diff))
        if len(main) > eff['max_steps']:
            raise Violation('too-many-iterations', '%d iterations, max_steps %d' % (len(main), eff['max_steps']))
        f = eff['reform_freq']
        for i, e in enumerate(main):
            want = (i % f == 0)
            if e[2] != want:
                raise Violation('jacobian-cadence', 'iteration %d %s the Jacobian with reform_freq %d' % (
                    i, 'evaluated' if e[2] else 'did not evaluate', f))
        if any(e[2] for e in rec.evals if e[0]):
            raise Violation('line-search-gradient', 'line search asked for a Jacobian')
        if out is not None:
            sol = out[3]
            nj = sum(e[2] for e in main)
            if sol['nfev'] != len(main) or sol['njev'] != nj:
                raise Violation('evaluation-count', 'reported nfev=%s njev=%s, evaluated %d and %d (line search apart)' % (
                    sol['nfev'], sol['njev'], len(main), nj))
        if main and not np.array_equal(main[0][1], keep):
            raise Violation('start-point', 'first evaluation is not at the initial guess')
        self.steps(s, eff, rec, main, out, run)
        # the same solve on a new object with the same settings gives the same result: nothing is left over
        fresh = omp_class()(config=copy.deepcopy(solver.config if before is None else before))
        if si > 0:
            rec2, _, _, out2, exc2 = self.one(fresh, None, s, None)
            same = (out is None) == (out2 is None) and len(rec2.evals) == len(rec.evals)
            if same and out is not None:
                same = np.array_equal(np.asarray(out[0]), np.asarray(out2[0]), equal_nan=True) \
                    and bool(out[3]['success']) == bool(out2[3]['success'])
            if not same:
                raise Violation('history-dependent-solve', 'solve %d on a used solver differs from a new solver' % si)
            run.hit('reuse-compared')

    def steps(self, s, eff, rec, main, out, run):
        """Independent Newton / dense BFGS (inverse update from the last factored Jacobian) recomputation of each step."""
        if any(k.startswith('lin') for k in s['plan']):
            return
        full, taken, ls = steps_of(rec, main, out, eff)
        H = None
        for i, ev in enumerate(main):
            if full[i] is None or not np.all(np.isfinite(ev[3])):
                return
            if ev[4] is not None:
                if not np.all(np.isfinite(ev[4])) or np.linalg.cond(ev[4]) > 1e8:
                    return
                H = np.linalg.inv(ev[4])
                base = np.linalg.cond(ev[4])
            else:
                if H is None or taken[i - 1] is None:
                    return
                sv, y = taken[i - 1], ev[3] - main[i - 1][3]
                sy = float(sv @ y)
                if abs(sy) < 1e-6 * np.linalg.norm(sv) * np.linalg.norm(y) or np.linalg.norm(y) < 1e-9 * np.linalg.norm(ev[3]) \
                        or np.linalg.norm(sv) < 1e-7 * (1 + np.linalg.norm(ev[1])):
                    return
                rho = 1 / sy
                n = len(sv)
                H = (np.eye(n) - rho * np.outer(sv, y)) @ H @ (np.eye(n) - rho * np.outer(y, sv)) + rho * np.outer(sv, sv)
                base = max(base, np.linalg.cond(H))
                if base > 1e7:
                    return
            ref = -H @ ev[3]
            if i == len(main) - 1 and out is not None and np.array_equal(np.array(out[0]), ev[1]) and np.linalg.norm(ref) > 0:
                return
            scale = np.linalg.norm(ref) + 1e-9 * (1 + np.linalg.norm(ev[1])) + 1e-300
            if not np.linalg.norm(full[i] - ref) <= 1e-4 * scale:
                raise Violation('wrong-step', 'iteration %d (%s): step %s, %s step from the evaluations is %s' % (
                    i, 'Newton' if ev[4] is not None else 'BFGS', full[i], 'Newton' if ev[4] is not None else 'BFGS', ref))
            run.hit('newton-steps-checked' if ev[4] is not None else 'bfgs-steps-checked')


class S03(SolverCheck):
    pid = 'S03'
    ls = True

    def oracle(self, sc, s, eff, solver, before, rec, X0, keep, out, exc, main, run, si):
        iters, tol, same = eff['line_search_iters'], eff['line_search_tol'], eff['line_search_same_sign']
        if iters > 0 and len(main) >= 2 and len(rec.ls) < len(main) - 1:
            raise Violation('line-search-skipped', '%d iterations, %d line searches' % (len(main), len(rec.ls)))
        if iters == 0 and rec.ls:
            raise Violation('line-search-unwanted', 'line search ran although it is switched off')
        for j, l in enumerate(rec.ls):
            a = l['alpha']
            if not (np.all(np.isfinite(l['dX'])) and np.all(np.isfinite(l['Rx']))
                    and all(np.all(np.isfinite(e[3])) for e in l['evals'])):
                continue        # no line to search along
            if not (0 < a <= 1):
                raise Violation('alpha-range', 'line search %d returned alpha=%r' % (j, a))
            if len(l['evals']) > iters + 1:
                raise Violation('line-search-evaluations', '%d evaluations with line_search_iters=%d' % (len(l['evals']), iters))
            dn = float(l['dX'] @ l['dX'])
            if not 1e-200 < dn < 1e200:
                continue
            ttol = 1e-9 + 1e-15 * (1 + float(np.linalg.norm(l['X']))) / math.sqrt(dn)
            if ttol > 1e-5:
                continue
            G = []
            for e in l['evals']:
                if dn > 0:
                    t = float((e[1] - l['X']) @ l['dX']) / dn
                    if not (-ttol <= t <= 1 + ttol):
                        raise Violation('line-search-outside', 'evaluated at alpha=%g' % t)
                    G.append((t, float(l['dX'] @ e[3])))
            if l['main'] + 1 < len(main):
                nxt = main[l['main'] + 1][1]
            elif out is not None:
                nxt = np.array(out[0], dtype=float)
            else:
                nxt = None
            if nxt is not None:
                err = np.linalg.norm(nxt - (l['X'] + a * l['dX']))
                if err > 1e-9 * (1 + np.linalg.norm(nxt) + np.linalg.norm(l['dX'])):
                    raise Violation('alpha-not-applied', 'iteration moved to %s, expected X + %g*step' % (nxt, a))
            if dn <= 0 or not G or not np.all(np.isfinite([g for _, g in G])) or np.linalg.norm(l['dX']) < 1e-9:
                continue
            G0 = float(l['dX'] @ l['Rx'])
            full = [g for t, g in G if abs(t - 1) < ttol]
            if not full:
                raise Violation('full-step-untested', 'line search never evaluated the full step')
            G1 = full[0]
            run.hit('line-searches')
            if G0 * G1 > 0:
                if a != 1.0:
                    raise Violation('needless-shortening', 'R.dX keeps its sign over the full step but alpha=%g' % a)
                continue
            if not same and abs(G1) < tol * abs(G0) * (1 - 1e-9):
                if a != 1.0:
                    raise Violation('needless-shortening', 'full step meets the line-search tolerance but alpha=%g' % a)
                continue
            run.hit('bisections')
            at = [g for t, g in G if abs(t - a) < ttol]
            if not at:
                raise Violation('alpha-untested', 'alpha=%g was never evaluated (evaluated: %s)' % (a, [t for t, _ in G]))
            ga = at[-1]
            pos = sorted(t for t, g in G if t > 0)
            keeps = [(t, g) for t, g in G if g * G0 > 0]
            if same and ga * G0 < 0 and abs(ga) > 1e-14:
                # allowed only when every tried fraction changed the sign: then the shortest tried step
                if keeps:
                    raise Violation('sign-changed', 'alpha=%g changes the sign of R.dX although alpha=%g keeps it' % (
                        a, keeps[0][0]))
                if a > pos[0] + 2 * ttol:
                    raise Violation('not-shortest', 'alpha=%g although %g was tried' % (a, pos[0]))
                run.hit('sign-forced')
            if same and ga * G0 > 0 and keeps:
                if a < max(t for t, g in keeps) - 2 * ttol and abs(ga) > min(abs(g) for t, g in keeps) * (1 + 1e-9):
                    raise Violation('not-best-bracket', 'alpha=%g is worse than another same-sign fraction' % a)
            # the search ends early only when its tolerance is met
            if len(l['evals']) < iters + 1:
                best = [abs(g) for t, g in (keeps if same else G)]
                if not best or min(best) >= tol * abs(G0) * (1 + 1e-9):
                    raise Violation('stopped-before-tolerance', 'after %d of %d bisections' % (len(l['evals']) - 1, iters))
