"""Simulated environment for tmdsimpy.Continuation: the corrector (solver), the residual and the callback are the
nodes; a scripted fault plan decides every corrector outcome, evaluation fault and exception."""
import contextlib
import io

import numpy as np

from .core import Violation, InjectedError, BudgetExceeded, Hang, Injected
from .families import Branch, gen_branch

EXC = {'InjectedError': InjectedError, 'LinAlgError': np.linalg.LinAlgError, 'KeyboardInterrupt': KeyboardInterrupt,
       'MemoryError': MemoryError, 'FloatingPointError': FloatingPointError, 'OSError': OSError,
       'AssertionError': AssertionError, 'SystemExit': SystemExit}


def make_exc(name):
    e = EXC[name]('injected by the simulator')
    e.dst_injected = True
    return e


class Sol(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def newton(fun, X0, tol=1e-11, maxit=12):
    """Trusted corrector: success only after a step below tol with a residual that did not blow up."""
    X = np.array(X0, dtype=float)
    nfev = 0
    R, J = fun(X)[:2]
    nfev += 1
    ok = False
    for _ in range(maxit):
        if not (np.all(np.isfinite(R)) and np.all(np.isfinite(J))):
            break
        try:
            dX = -np.linalg.solve(J, R)
        except np.linalg.LinAlgError:
            break
        if np.linalg.norm(dX) > 1e3 * (1 + np.linalg.norm(X)):
            break
        X = X + dX
        R, J = fun(X)[:2]
        nfev += 1
        if np.linalg.norm(dX) < tol * (1 + np.linalg.norm(X)):
            ok = bool(np.all(np.isfinite(R)))
            break
    return X, R, J, Sol(success=ok, nfev=nfev, njev=nfev, message='newton' if ok else 'newton failed', status=int(ok))


def sim_solver_class():
    from tmdsimpy.solvers import NonlinearSolver

    class SimSolver(NonlinearSolver):
        """Corrector under simulator control. ``plan`` maps the call number to an action."""

        def __init__(self, sim, inner):
            super().__init__()
            self.sim = sim
            self.inner = inner

        def lin_solve(self, A, b):
            if self.inner is not None:
                return self.inner.lin_solve(A, b)
            return np.linalg.solve(A, b)

        def nsolve(self, fun, X0, *a, **kw):
            return self.sim.on_nsolve(self, fun, X0, a, kw)

    return SimSolver


class ContSim:
    """One continuation run under a fault plan; leaves self.events, self.rows, self.exc."""

    def __init__(self, sc, run=None, residual=None, hook=None):
        self.sc = sc
        self.runlog = run
        self.branch = Branch(sc['branch']) if residual is None else residual
        self.events = []
        self.nsolves = 0
        self.in_solve = False
        self.solve_evals = 0
        self.total_evals = 0
        self.rows = None
        self.exc = None
        self.exc_obj = None
        self.cb_refs = []
        self.stdout = ''
        self.hook = hook
        self.budget = sc.get('budget', 4000)
        self.cbs = 0
        self.over_budget = False
        self.last_row = None

    # seams -------------------------------------------------------------------
    def fun(self, XL, calc_grad=True):
        self.total_evals += 1
        plan = self.sc['plan'].get('eval', {})
        act = None
        if self.in_solve:
            self.solve_evals += 1
            act = plan.get(str(self.solve_evals))
        else:
            self.events.append(('fun', np.array(XL, dtype=float)))
        act = act or self.sc['plan'].get('anyeval', {}).get(str(self.total_evals))
        if self.total_evals > 60 * self.budget:
            raise BudgetExceeded('residual evaluations')
        out = self.branch.fun(XL, calc_grad)
        if self.sc.get('tuple3', True) is False and calc_grad:
            out = out + ('extra',) if False else out
        if act:
            if self.runlog:
                self.runlog.hit('fault.eval-' + act[0])
            if act[0] == 'nan':
                out = tuple(np.asarray(o) * np.nan for o in out)
            elif act[0] == 'nanR':
                out = (out[0] * np.nan,) + tuple(out[1:])
            elif act[0] == 'inf':
                out = (out[0] + np.inf,) + tuple(out[1:])
            elif act[0] == 'raise':
                raise make_exc(act[1])
        return out

    def on_nsolve(self, solver, fun, X0, a, kw):
        k = self.nsolves
        self.nsolves += 1
        if self.nsolves > self.budget:
            self.over_budget = True
            raise BudgetExceeded('corrector calls')
        act = self.sc['plan'].get('solve', {}).get(str(k), ['ok'])
        rec = {'k': k, 'X0': np.array(X0, dtype=float), 'act': act[0], 'success': None, 'X': None, 'nfev': None,
               'kw': {x: kw[x] for x in kw if x in ('xtol', 'verbose')}}
        self.events.append(('solve', rec))
        self.in_solve = True
        try:
            if act[0] == 'raise' and act[2] == 'before':
                if self.runlog:
                    self.runlog.hit('fault.solver-raise-' + act[1])
                raise make_exc(act[1])
            if solver.inner is None:
                X, R, J, sol = newton(fun, X0)
            else:
                X, R, J, sol = solver.inner.nsolve(fun, X0, *a, **kw)
                sol = Sol(sol)
            if k > 0 and sol['success'] and self.last_row is not None and not self.sc.get('live'):
                # honest caution: a correction that is large against the step may sit on another part of the branch
                step = np.asarray(X0) - self.last_row / self.ctop_at(self.last_row)
                if not np.linalg.norm(X - X0) <= 0.5 * np.linalg.norm(step):
                    sol['success'] = False
                    sol['message'] = 'correction too large'
            if act[0] == 'raise':
                if self.runlog:
                    self.runlog.hit('fault.solver-raise-' + act[1])
                raise make_exc(act[1])
        finally:
            self.in_solve = False
        sol['success'] = bool(sol['success'])
        if act[0] == 'fail':
            mode = act[1]
            if self.runlog:
                self.runlog.hit('fault.nonconvergence-' + mode)
            if mode == 'predictor':
                X = np.array(X0, dtype=float)
            elif mode == 'nan':
                X = np.array(X0, dtype=float) * np.nan
            elif mode == 'garbage':
                X = np.array(X0, dtype=float) * 1.7 + 0.3
            elif mode == 'near':
                X = np.asarray(X) * (1 + 1e-3)
            # 'converged': the right point but reported as a failure
            sol['success'] = False
            sol['message'] = 'simulated non-convergence'
        elif not sol['success']:
            if self.runlog:
                self.runlog.hit('honest-nonconvergence')
        if len(act) > 1 and act[0] == 'ok':
            sol['nfev'] = int(act[1])
            if self.runlog:
                self.runlog.hit('fault.cost-override')
        if self.sc['plan'].get('npbool'):
            sol['success'] = np.bool_(sol['success'])
        if sol['success']:
            if k == 0:
                self.last_row = np.hstack((np.asarray(X, dtype=float) * self.ctop_at(None)[:-1], self.lam0))
            elif self.last_row is not None:
                self.last_row = np.asarray(X, dtype=float) * self.ctop_at(self.last_row)
        rec.update(success=bool(sol['success']), X=np.array(X, dtype=float), nfev=int(sol['nfev']))
        if self.runlog:
            self.runlog.log('solve', k, rec['X0'], rec['success'], rec['X'], rec['nfev'])
        return X, R, J, sol

    def callback(self, XlamP, dirP):
        n = self.cbs
        self.cbs += 1
        if self.cbs > self.budget:
            self.over_budget = True
            raise BudgetExceeded('callback calls')
        self.cb_refs.append((XlamP, dirP))
        X, d = np.array(XlamP, dtype=float), np.array(dirP, dtype=float)
        if self.runlog:
            self.runlog.log('cb', X, d)
        act = self.sc['plan'].get('cb', {}).get(str(n))
        if act and act[1] == 'before':
            if self.runlog:
                self.runlog.hit('fault.callback-raise-' + act[0])
            raise make_exc(act[0])
        self.events.append(('cb', X, d))
        if self.hook:
            self.hook(XlamP, dirP)
        if act:
            if self.runlog:
                self.runlog.hit('fault.callback-raise-' + act[0])
            raise make_exc(act[0])

    # run ------------------------------------------------------------------------
    def make_inner(self):
        kind = self.sc['solver']
        if kind == 'newton':
            return None
        if kind == 'hybr':
            from tmdsimpy.solvers import NonlinearSolver
            return NonlinearSolver()
        from tmdsimpy.jax.solvers import NonlinearSolverOMP
        return NonlinearSolverOMP(config=dict(self.sc.get('omp') or {}, verbose=False))

    def inputs(self):
        sc, br = self.sc, self.branch
        s0, s1 = br.s0, br.s1
        self.lam0, self.lam1 = br.lam(s0), br.lam(s1)
        X0 = br.point(s0)
        pert = np.array(sc.get('guess') or [0.0] * br.N)
        X0 = np.hstack((X0[:-1] + br.scale * pert, sc.get('guess_last', 0.0)))
        CtoP = None if sc['CtoP'] is None else np.array(sc['CtoP'], dtype=float)
        RPtoC = sc.get('RPtoC')
        if isinstance(RPtoC, list):
            RPtoC = np.array(RPtoC, dtype=float)
        return X0, CtoP, RPtoC

    def run(self, cont_cls=None, shared_cfg=None, solver=None):
        from tmdsimpy.continuation import Continuation
        sc = self.sc
        X0, CtoP, RPtoC = self.inputs()
        cfg = {k: v for k, v in sc['config'].items()}
        if sc.get('use_cb', True):
            if sc.get('combine'):
                from tmdsimpy.utils.continuation import combine_callback_funs
                self.second = []
                fl = [self.callback, lambda X, d: self.second.append((np.array(X), np.array(d)))]
                cfg['callback'] = lambda X, d: combine_callback_funs(fl, X, d)
            else:
                cfg['callback'] = self.callback
        self.cfg_obj = cfg
        self.cfg_snapshot = {k: (list(v) if isinstance(v, list) else v) for k, v in cfg.items()}
        self.X0 = X0
        self.X0_snapshot = X0.copy()
        self.CtoP = CtoP
        self.CtoP_snapshot = None if CtoP is None else CtoP.copy()
        self.RPtoC_snapshot = RPtoC.copy() if isinstance(RPtoC, np.ndarray) else RPtoC
        self.RPtoC = RPtoC
        self.inner = self.make_inner()
        solver = solver or sim_solver_class()(self, self.inner)
        self.solver_obj = solver
        args = dict(ds0=sc['ds0_arg'], CtoP=CtoP, RPtoC=RPtoC, config=cfg)
        if sc.get('bare'):
            args = {k: v for k, v in args.items() if k != 'config' or cfg}
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                self.cont = Continuation(solver, **args)
                self.rows = self.cont.continuation(self.fun, X0, self.lam0, self.lam1)
        except BaseException as e:      # noqa
            if isinstance(e, Hang):
                raise
            if isinstance(e, BudgetExceeded):
                self.over_budget = True
            self.exc = type(e).__name__
            self.exc_obj = e
        self.stdout = buf.getvalue()
        if self.rows is not None and self.runlog:
            self.runlog.log('rows', self.rows if isinstance(self.rows, np.ndarray) else repr(self.rows))
        if self.runlog:
            self.runlog.log('end', self.exc, self.nsolves, self.cbs)
        return self

    # history --------------------------------------------------------------------
    def parse(self):
        """Groups the event log into the initial solve and the attempts of each step."""
        self.solves = [e[1] for e in self.events if e[0] == 'solve']
        self.cbl = [(e[1], e[2]) for e in self.events if e[0] == 'cb']
        self.init = self.solves[0] if self.solves else None
        self.steps = []
        cur = []
        for r in self.solves[1:]:
            cur.append(r)
            if r['success']:
                self.steps.append(cur)
                cur = []
        self.pending = cur       # attempts after the last success
        return self

    def ctop_at(self, prev_row):
        base = np.ones(self.branch.N + 1) if self.CtoP_snapshot is None else np.abs(self.CtoP_snapshot)
        if self.sc['config'].get('DynamicCtoP') and prev_row is not None:
            return np.maximum(np.abs(prev_row), base)
        return base

    def delivered(self):
        """Accepted points in physical coordinates, reconstructed from what the corrector returned."""
        base = self.ctop_at(None)
        out = []
        if self.init is not None and self.init['success']:
            out.append(np.hstack((self.init['X'] * base[:-1], self.lam0)))
            for st in self.steps:
                out.append(st[-1]['X'] * self.ctop_at(out[-1]))
        return out

    def norm2(self, dXC, XC0, b):
        c = (1 - b) / np.linalg.norm(XC0[:-1]) ** 2
        return c * np.linalg.norm(dXC[:-1]) ** 2 + b * dXC[-1] ** 2

    def dot(self, u, v, XC0, b):
        c = (1 - b) / np.linalg.norm(XC0[:-1]) ** 2
        return c * (u[:-1] @ v[:-1]) + b * u[-1] * v[-1]


def speed_length(br, sc, b):
    """Length of the branch in the conditioned norm of the run (conditioning may follow the solution)."""
    base = np.ones(br.N + 1) if sc['CtoP'] is None else np.abs(np.array(sc['CtoP']))
    ss = np.linspace(br.s0, br.s1, 300)
    tot = 0.0
    P = [br.point(s) for s in ss]
    for i in range(len(ss) - 1):
        C = np.maximum(np.abs(P[i]), base) if sc['config'].get('DynamicCtoP') else base
        d = (P[i + 1] - P[i]) / C
        x0 = P[i] / C
        tot += np.sqrt((1 - b) * np.sum(d[:-1] ** 2) / np.sum(x0[:-1] ** 2) + b * d[-1] ** 2)
    return tot


def max_curvature(br, sc, b, m=300):
    """Largest curvature of the branch in the conditioned norm of the run."""
    base = np.ones(br.N + 1) if sc['CtoP'] is None else np.abs(np.array(sc['CtoP']))
    ss = np.linspace(br.s0, br.s1, m)
    P = [br.point(s) for s in ss]
    T, speed = [], []
    for s, x in zip(ss, P):
        C = np.maximum(np.abs(x), base) if sc['config'].get('DynamicCtoP') else base
        t = br.tangent(s) / C
        w = np.hstack((np.sqrt(1 - b) * t[:-1] / np.linalg.norm((x / C)[:-1]), np.sqrt(b) * t[-1]))
        v = np.linalg.norm(w)
        T.append(w / v)
        speed.append(v)
    k = 0.0
    for i in range(m - 1):
        ang = np.linalg.norm(T[i + 1] - T[i])
        k = max(k, ang / (abs(ss[1] - ss[0]) * 0.5 * (speed[i] + speed[i + 1])))
    return k


def gen_scenario(rng, emphasis='mixed', small=False):
    br = gen_branch(rng)
    B = Branch(br)
    sc = {'branch': br, 'plan': {}, 'solver': rng.choice(['newton', 'newton', 'newton', 'hybr', 'omp'])}
    cfg = {}
    p0 = np.abs(B.point(br['s0']))
    if 'scale' in br or rng.random() < 0.4:
        c = np.maximum(p0, 1e-3 * np.hstack((B.scale, B.lscale)))
        sc['CtoP'] = [float('%.4g' % (v * 10 ** rng.uniform(-0.3, 0.3))) * (1 if rng.random() < .9 else -1) for v in c]
    else:
        sc['CtoP'] = None
    r = rng.random()
    if r < 0.15:
        sc['RPtoC'] = [float('%.3g' % (10 ** rng.uniform(-1, 1)))] * (B.N + 1)
    elif r < 0.25:
        sc['RPtoC'] = float('%.3g' % (10 ** rng.uniform(-1, 1)))
    else:
        sc['RPtoC'] = None
    if rng.random() < 0.4:
        cfg['DynamicCtoP'] = True
    cfg['corrector'] = rng.choice(['Ortho', 'Pseudo', 'ortho', 'PSEUDO'])
    if rng.random() < 0.15:
        del cfg['corrector']
    b = rng.choice([0.5, 0.5, 0.2, 0.8, 0.9, 1.0 if br['kind'] == 'mono' else 0.7])
    if rng.random() < 0.85:
        cfg['FracLam'] = b
    else:
        b = 0.5
    alts = [x for x in (0.1, 0.3, 0.6, 0.95, 0.5) if x != b]
    r = rng.random()
    if r < 0.35:
        k = rng.randint(1, 3)
        lst = rng.sample(alts, k)
        if rng.random() < 0.4:
            lst = [b] + lst
        cfg['FracLamList'] = lst
    elif r < 0.45:
        cfg['FracLamList'] = [b]
    blist = cfg.get('FracLamList', [])
    L = min(speed_length(B, dict(sc, config=cfg), x) for x in set([b] + list(blist)))
    n = rng.choice([15, 25, 40]) if br['kind'] == 'mono' else rng.choice([60, 90, 120])
    if small:
        n = min(n, 20) if br['kind'] == 'mono' else 50
    kap = max(max_curvature(B, dict(sc, config=cfg), x) for x in set([b] + list(blist)))
    n = max(n, int(np.ceil(L * kap / 0.45)))
    if n > 220:
        return gen_scenario(rng, emphasis, small)
    ds = float('%.4g' % (L / n))
    r = rng.random()
    if r < 0.3:
        sc['ds0_arg'] = ds
        if br['kind'] != 'mono':
            cfg['dsmax'] = float('%.4g' % (ds * 1.6))
    else:
        sc['ds0_arg'] = ds if rng.random() < 0.5 else float('%.4g' % (ds * rng.uniform(0.7, 1.5)))
        cfg['ds0'] = ds
        cfg['dsmin'] = float('%.4g' % (ds / rng.choice([1.0, 1.5, 4, 7, 20])))
        cfg['dsmax'] = float('%.4g' % (ds * rng.choice([1.0, 1.5, 2.0 if br['kind'] == 'mono' else 1.6])))
    cfg['MaxSteps'] = rng.choice([1, 2, 3, 5, 12]) if rng.random() < 0.15 else rng.choice([40, 80, 200, 300])
    if rng.random() < 0.6:
        cfg['TargetNfev'] = rng.choice([2, 4, 8, 20, 50])
    if rng.random() < 0.5:
        cfg['MaxIncrease'] = rng.choice([1.0, 1.1, 1.5, 2.0, 3.0])
    cfg['verbose'] = rng.choice([-1, -1, 0, 1, 5, 100])
    if rng.random() < 0.15:
        del cfg['verbose']
    if sc['solver'] == 'hybr':
        cfg['xtol'] = 1e-10
    elif sc['solver'] == 'omp':
        cfg['xtol'] = rng.choice([1e-9, 1e-10])
        sc['omp'] = {'reform_freq': rng.choice([1, 1, 2, 4]), 'max_steps': rng.choice([15, 25])}
    elif rng.random() < 0.3:
        cfg['xtol'] = 1e-8
    if rng.random() < 0.3:
        cfg['nsolve_verbose'] = rng.choice([False, 0])
    if rng.random() < 0.15 and br['kind'] != 'mono':
        # finite backtracking limit: fraction of the lam range
        cfg['backtrackStop'] = float('%.4g' % (abs(B.lam(br['s1']) - B.lam(br['s0'])) * rng.choice([0.02, 0.3, 2.0])))
    sc['config'] = cfg
    sc['guess'] = [round(rng.uniform(-0.02, 0.02), 4) for _ in range(B.N)]
    sc['guess_last'] = rng.choice([0.0, 1.0, 123.0])
    if (sc['solver'] == 'newton' or sc.get('omp', {}).get('reform_freq') == 1) and rng.random() < 0.4:
        br['rscale'] = 10.0 ** rng.choice([-10, -8, -6, -3, 2, 4])
    if rng.random() < 0.25:
        sc['guess'] = None
    sc['combine'] = rng.random() < 0.2
    sc['use_cb'] = rng.random() < 0.93
    sc['plan'] = gen_plan(rng, emphasis, n)
    sc['plan']['npbool'] = rng.random() < 0.3
    return sc


def gen_plan(rng, emphasis, n):
    """Fault plan. Swarm style: every run enables a random subset of the fault kinds."""
    plan = {'solve': {}, 'eval': {}, 'cb': {}}
    modes = rng.sample(['predictor', 'nan', 'garbage', 'near', 'converged'], rng.randint(1, 3))
    r = rng.random()
    calls = int(n * 2.5) + 10
    if r < 0.12:
        pass                               # fault free
    elif r < 0.55:                         # independent failures
        rate = rng.choice([0.03, 0.1, 0.25])
        for k in range(1, calls):
            if rng.random() < rate:
                plan['solve'][str(k)] = ['fail', rng.choice(modes)]
    elif r < 0.9:                          # bursts: consecutive failures in one step
        k = rng.randint(1, 6)
        while k < calls:
            for j in range(rng.choice([1, 2, 3, 4, 5, 8, 12])):
                plan['solve'][str(k + j)] = ['fail', rng.choice(modes)]
            k += rng.randint(8, 40)
    else:                                  # permanent failure from some point on
        k0 = rng.randint(1, max(2, n))
        for k in range(k0, k0 + 120):
            plan['solve'][str(k)] = ['fail', rng.choice(modes)]
        if rng.random() < 0.3:
            plan['solve'][str(rng.randint(0, 3))] = ['fail', rng.choice(modes)]
    if rng.random() < 0.1:
        plan['solve']['0'] = ['fail', rng.choice(modes)]
    if rng.random() < (0.8 if emphasis == 'cost' else 0.3):
        hi = rng.choice([3, 10, 40, 200])
        for k in range(calls):
            if str(k) not in plan['solve'] and rng.random() < 0.7:
                plan['solve'][str(k)] = ['ok', rng.randint(1, hi)]
    if rng.random() < 0.2:
        for _ in range(rng.randint(1, 6)):
            plan['eval'][str(rng.randint(3, n * 6))] = [rng.choice(['nan', 'nanR', 'inf'])]
    if rng.random() < (0.6 if emphasis == 'raise' else 0.12):
        exc = rng.choice(['InjectedError', 'KeyboardInterrupt', 'LinAlgError', 'MemoryError', 'OSError', 'SystemExit'])
        site = rng.choice(['solve', 'eval', 'cb'])
        if site == 'solve':
            plan['solve'][str(rng.randint(0, n))] = ['raise', exc, rng.choice(['before', 'after'])]
        elif site == 'eval':
            plan['eval'][str(rng.randint(1, n * 4))] = ['raise', exc]
        else:
            plan['cb'][str(rng.randint(0, n))] = [exc, rng.choice(['before', 'after'])]
    return plan


def shrink_scenario(sc):
    """Candidates, simplest first."""
    import copy
    plan = sc['plan']
    for site in ('solve', 'eval', 'cb'):
        keys = sorted(plan.get(site, {}), key=int)
        for size in (len(keys), len(keys) // 2, len(keys) // 4, 1):
            if size < 1:
                continue
            for i in range(0, len(keys), size):
                c = copy.deepcopy(sc)
                for k in keys[i:i + size]:
                    del c['plan'][site][k]
                yield c
            if size == 1:
                break
    for k in list(sc['config']):
        if k in ('ds0', 'dsmin', 'dsmax') or (sc.get('live') and k == 'MaxSteps'):
            continue
        c = copy.deepcopy(sc)
        del c['config'][k]
        yield c
    for k, v in (('solver', 'newton'), ('combine', False), ('RPtoC', None)):
        if sc.get(k) != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c
    if sc['branch']['N'] > 1 and sc['CtoP'] is None and 'scale' not in sc['branch']:
        c = copy.deepcopy(sc)
        c['branch']['N'] -= 1
        c['guess'] = c['guess'] and c['guess'][:-1]
        yield c
    if sc['config'].get('MaxSteps', 500) > 2 and not sc.get('live'):
        for m in (2, 3, 4, 6, 10, 20):
            if m < sc['config'].get('MaxSteps', 500):
                c = copy.deepcopy(sc)
                c['config']['MaxSteps'] = m
                yield c
