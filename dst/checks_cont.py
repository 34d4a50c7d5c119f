"""C01-C05: oracles over the history of a simulated continuation run."""
import numpy as np

from .core import Check, Violation, lib, Injected
from .contsim import ContSim, gen_scenario, shrink_scenario, Sol

REAL = ('tmdsimpy.continuation.Continuation, tmdsimpy.solvers.NonlinearSolver (conditioning_wrapper, lin_solve; nsolve '
        'in runs with solver=hybr), tmdsimpy.jax.solvers.NonlinearSolverOMP (runs with solver=omp), '
        'tmdsimpy.utils.continuation.combine_callback_funs')
STUB = ('residual: closed-form branch with known parametrisation; corrector outcomes, costs, exceptions and residual '
        'evaluation faults are scripted by the simulator around the real or a trusted Newton corrector; callbacks record')


def rel(a, b):
    return float(np.max(np.abs(a - b)) / (1e-300 + np.max(np.abs(b))))


class ContCheck(Check):
    emphasis = 'mixed'
    runs_quick = 1600
    runs_thorough = 40000
    real, stub = REAL, STUB
    state_measure = ('distinct signatures (corrector type, dynamic conditioning, solver kind, branch kind, pattern of '
                     'failed attempts per step, ending reason)')
    rule = ('one seed draws a branch family, conditioning, step policy and a fault plan (scripted corrector failures, '
            'costs, evaluation faults, exceptions); non-trivial = at least one fault fired and at least 2 points '
            'were delivered, or the run ended abnormally after a fault; distinct by event-log digest')
    assumptions = ['the scripted corrector reports success only for points it really solved (1e-11) unless the '
                   'real solver in use reported success itself',
                   'steps are small against the curvature of the generated branch (>= 60 steps on folded branches)']

    def gen(self, rng, i, tier):
        return gen_scenario(rng, self.emphasis, small=(tier == 'quick'))

    def shrink(self, sc):
        return shrink_scenario(sc)

    def execute(self, sc, run):
        sim = ContSim(sc, run)
        sim.run()
        sim.parse()
        nf = sum(v for k, v in run.stats.items() if k.startswith('fault.') and 'cost' not in k)
        run.nontrivial = nf > 0 and (len(sim.cbl) >= 2 or sim.exc is not None)
        pat = tuple(min(len(s), 9) for s in sim.steps)
        run.state(sc['config'].get('corrector', '-').upper(), bool(sc['config'].get('DynamicCtoP')), sc['solver'],
                  sc['branch']['kind'], pat, len(sim.pending), sim.exc)
        if nf:
            run.hit('runs-with-faults')
        if any(len(s) > 1 for s in sim.steps):
            run.hit('recovered-after-failed-attempts')
        if sim.pending:
            run.hit('ended-by-exhausted-retries')
        run.hit('ended-exc-%s' % sim.exc if sim.exc else 'returned')
        self.common(sc, sim)
        self.oracle(sc, sim, run)

    # -- shared: what must be there at all for the history to be readable ------------------------------
    def common(self, sc, sim):
        if sim.over_budget:
            return
        if sim.exc is not None:
            e = sim.exc_obj
            if getattr(e, 'dst_injected', False):
                return
            if isinstance(e, AssertionError) and sim.init is not None and not sim.init['success']:
                return
            if isinstance(e, np.linalg.LinAlgError) and self.nan_predict(sc):
                return
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            raise Violation('unexpected-exception', '%s: %s at %s' % (
                sim.exc, str(e)[:200], ' > '.join('%s:%s' % (f.filename.split('/')[-1], f.name) for f in tb[-3:])))
        if not (isinstance(sim.rows, np.ndarray) and sim.rows.ndim == 2
                and sim.rows.shape[1] == sim.branch.N + 1 and sim.rows.shape[0] >= 1):
            raise Violation('malformed-return', repr(sim.rows)[:200])

    def nan_predict(self, sc):
        return bool(sc['plan'].get('anyeval'))

    def oracle(self, sc, sim, run):
        raise NotImplementedError


class C01(ContCheck):
    pid = 'C01'

    def oracle(self, sc, sim, run):
        br = sim.branch
        exp = sim.delivered()
        # every point handed to the callback or returned stems from a corrector run that reported success
        got = [X for X, d in sim.cbl if np.all(np.isfinite(X))]
        partial = [X for X, d in sim.cbl if not np.all(np.isfinite(X)) and not np.all(np.isnan(X))]
        if partial:
            raise Violation('non-finite-point', 'callback got a partly non-finite point %s' % partial[0])
        if sim.init is None or not sim.init['success']:
            if got or sim.rows is not None:
                raise Violation('unconverged-initial-point-delivered',
                                'initial corrector failed, yet %d points were delivered' % len(got))
            if sim.exc is None:
                raise Violation('initial-failure-swallowed', 'no exception although the initial point failed')
            return
        lists = []
        if sc.get('use_cb', True):
            lists.append(('callback', got))
        if sim.rows is not None:
            lists.append(('returned history', list(sim.rows)))
        for name, pts in lists:
            if len(pts) > len(exp):
                raise Violation('unconverged-point-delivered',
                                '%s holds %d points but only %d corrector runs succeeded' % (name, len(pts), len(exp)))
            if sim.rows is not None and len(pts) < len(exp):
                raise Violation('converged-point-lost',
                                '%s holds %d points but %d corrector runs succeeded' % (name, len(pts), len(exp)))
            for i, X in enumerate(pts):
                if rel(X, exp[i]) > 1e-9:
                    raise Violation('delivered-point-differs',
                                    '%s point %d is not the point the corrector converged to: %s vs %s' % (
                                        name, i, X, exp[i]))
                off = br.off_branch(X)
                if not off < 1e-4 and sc['solver'] != 'hybr':   # hybr may stall and still report success
                    raise Violation('off-branch-point', '%s point %d misses the equations by %.3g' % (name, i, off))
                if i == 0 and X[-1] != sim.lam0:
                    raise Violation('initial-lam', 'first point has lam=%r instead of lam0=%r' % (X[-1], sim.lam0))


class C02(ContCheck):
    pid = 'C02'
    emphasis = 'raise'

    def oracle(self, sc, sim, run):
        exp = sim.delivered()
        silent = sc['config'].get('verbose', 100) < 0
        if silent and sim.stdout:
            raise Violation('output-not-suppressed', repr(sim.stdout[:120]))
        if not sc.get('use_cb', True):
            return
        n = sim.branch.N + 1
        for i, (X, d) in enumerate(sim.cbl):
            if X.shape != (n,) or d.shape != (n,):
                raise Violation('callback-shape', 'call %d got shapes %s %s' % (i, X.shape, d.shape))
        finals = [i for i, (X, d) in enumerate(sim.cbl) if np.all(np.isnan(X))]
        # order: each accepted point is handed over before the next corrector run starts, exactly once
        nsucc, ncb = 0, 0
        for e in sim.events:
            if e[0] == 'solve':
                if ncb != nsucc:
                    raise Violation('callback-late', 'corrector run %d started with %d accepted points but %d callbacks'
                                    % (e[1]['k'], nsucc, ncb))
                if e[1]['success']:
                    nsucc += 1
            elif e[0] == 'cb' and not np.all(np.isnan(e[1])):
                ncb += 1
                if ncb > nsucc:
                    raise Violation('callback-without-point', 'callback %d has no accepted point' % ncb)
        if sim.cbl:
            X, d = sim.cbl[0]
            if not np.all(np.isnan(d)):
                raise Violation('first-direction', 'first callback direction is %s, not NaN' % d)
            if np.any(np.isnan(X)):
                raise Violation('first-point', 'first callback point %s' % X)
        for i, (X, d) in enumerate(sim.cbl[1:], 1):
            if i not in finals and not np.all(np.isfinite(d)):
                raise Violation('direction-missing', 'callback %d carries direction %s' % (i, d))
        if sim.exc is None and not sim.over_budget:
            if finals != [len(sim.cbl) - 1]:
                raise Violation('final-callback', '%d callbacks, NaN-point callbacks at %s' % (len(sim.cbl), finals))
            if np.all(np.isnan(sim.cbl[-1][1])):
                raise Violation('final-direction', 'final callback carries no direction')
            pts = np.array([X for X, d in sim.cbl[:-1]])
            if pts.shape != sim.rows.shape or not np.array_equal(pts, sim.rows):
                raise Violation('history-mismatch', 'callback history %s differs from returned history %s' % (
                    pts.shape, sim.rows.shape))
        else:
            if finals and not (finals == [len(sim.cbl) - 1] and str(sim.cbs - 1) in sc['plan'].get('cb', {})):
                raise Violation('final-callback-on-abort', 'aborted run announced a final callback')
            npts = len(sim.cbl) - len(finals)
            at_cb = bool(sc['plan'].get('cb')) and getattr(sim.exc_obj, 'dst_injected', False)
            if not (len(exp) - (1 if at_cb else 0) <= npts <= len(exp)):
                raise Violation('abort-loses-points', '%d accepted, %d delivered before the abort' % (len(exp), npts))
        if getattr(sim.exc_obj, 'dst_injected', False) is False and sim.exc is None:
            pass
        # what was handed out earlier must not change afterwards
        for i, ((Xr, dr), (X, d)) in enumerate(zip(sim.cb_refs, sim.cbl)):
            if not (np.array_equal(np.asarray(Xr), X, equal_nan=True) and np.array_equal(np.asarray(dr), d, equal_nan=True)):
                raise Violation('delivered-array-changed', 'arrays of callback %d changed after delivery' % i)
        if sc.get('combine') and sim.exc is None:
            if len(sim.second) != len(sim.cbl) or any(
                    not np.array_equal(a[0], b[0], equal_nan=True) or not np.array_equal(a[1], b[1], equal_nan=True)
                    for a, b in zip(sim.second, sim.cbl)):
                raise Violation('combined-callback', 'second combined callback saw another history')
        # an injected exception reaches the caller
        raised = self.injected_fired(sc, sim)
        if raised and not getattr(sim.exc_obj, 'dst_injected', False):
            raise Violation('exception-swallowed', '%s was raised at a seam and did not reach the caller' % raised)

    def injected_fired(self, sc, sim):
        for k, a in sc['plan'].get('solve', {}).items():
            if a[0] == 'raise' and int(k) < sim.nsolves:
                return a[1]
        for k, a in sc['plan'].get('cb', {}).items():
            if int(k) < sim.cbs:
                return a[0]
        for k, a in sc['plan'].get('eval', {}).items():
            if a[0] == 'raise' and int(k) <= sim.solve_evals:
                return a[1]
        return None


def params(sc):
    cfg = sc['config']
    ds0p = sc['ds0_arg']
    p = {'ds0': cfg.get('ds0', ds0p), 'dsmin': cfg.get('dsmin', ds0p / 5), 'dsmax': cfg.get('dsmax', 5 * ds0p),
         'T': cfg.get('TargetNfev', 20), 'inc': cfg.get('MaxIncrease', 1.2), 'b': cfg.get('FracLam', 0.5),
         'max': cfg.get('MaxSteps', 500), 'back': cfg.get('backtrackStop', np.inf)}
    lst = list(cfg.get('FracLamList', []))
    if not lst or lst[0] != p['b']:
        lst = [p['b']] + lst
    p['list'] = lst
    return p


TOL = 2e-6


class C03(ContCheck):
    pid = 'C03'
    emphasis = 'cost'

    def oracle(self, sc, sim, run):
        if sim.init is None or not sim.init['success']:
            return
        p = params(sc)
        pts = sim.delivered()
        ds = p['ds0']
        ortho = sc['config'].get('corrector', 'Ortho').upper() == 'ORTHO'
        groups = sim.steps + ([sim.pending] if sim.pending else [])
        for k, att in enumerate(groups):
            prev = pts[k]
            C = sim.ctop_at(prev)
            XC0 = prev / C
            bi = 0
            for j, a in enumerate(att):
                if bi >= len(p['list']):
                    raise Violation('too-many-attempts', 'step %d attempt %d: all FracLam values had already failed at '
                                    'the minimum step' % (k + 1, j))
                b = p['list'][bi]
                d = a['X0'] - XC0
                if not np.all(np.isfinite(d)):
                    raise Violation('attempt-not-finite', 'step %d attempt %d starts from %s' % (k + 1, j, a['X0']))
                got = float(np.sqrt(sim.norm2(d, XC0, b)))
                eps = TOL + 1e-12 * np.linalg.norm(XC0) / max(ds, 1e-300) * 100
                if abs(got - ds) > eps * ds:
                    if got < p['dsmin'] * (1 - 1e-5):
                        raise Violation('below-dsmin', 'step %d attempt %d tried ds=%.8g < dsmin=%.8g' % (
                            k + 1, j, got, p['dsmin']))
                    if got > p['dsmax'] * (1 + 1e-5) and k > 0:
                        raise Violation('above-dsmax', 'step %d attempt %d tried ds=%.8g > dsmax=%.8g' % (
                            k + 1, j, got, p['dsmax']))
                    raise Violation('step-size', 'step %d attempt %d (FracLam %g): step size %.10g, expected %.10g '
                                    '(dsmin %.4g dsmax %.4g)' % (k + 1, j, b, got, ds, p['dsmin'], p['dsmax']))
                run.hit('attempts-checked')
                if not a['success']:
                    if ds > p['dsmin']:
                        ds = max(ds / 2, p['dsmin'])
                        run.hit('halvings')
                    else:
                        bi += 1
                        run.hit('fraclam-switches')
            if att[-1]['success']:
                new = pts[k + 1]
                d = new / C - XC0
                b = p['list'][min(bi, len(p['list']) - 1)]
                if ortho:
                    g = att[-1]['X0'] - XC0
                    got = sim.dot(d, g, XC0, b) / ds
                else:
                    got = float(np.sqrt(sim.norm2(d, XC0, b)))
                if sc['solver'] == 'newton':
                    if abs(got - ds) > 1e-5 * ds:
                        raise Violation('accepted-step-length', 'step %d covers %.8g of arclength, step size was %.8g'
                                        % (k + 1, got, ds))
                    run.hit('accepted-lengths-checked')
                ds = ds * min(p['T'] / att[-1]['nfev'], p['inc'])
                ds = min(max(ds, p['dsmin']), p['dsmax'])
        # giving up is only allowed after the smallest step has failed for every FracLam value
        if sim.exc is None and sim.pending and not sim.over_budget:
            att = sim.pending
            if not (ds <= p['dsmin'] * (1 + 1e-9) and bi == len(p['list'])):
                raise Violation('gave-up-early', 'ended at ds=%.6g (dsmin=%.6g) with %d of %d FracLam values tried' % (
                    ds, p['dsmin'], bi, len(p['list'])))


class C04(ContCheck):
    pid = 'C04'

    def gen(self, rng, i, tier):
        sc = super().gen(rng, i, tier)
        if rng.random() < 0.35 and sc['branch']['kind'] == 'mono':
            # liveness: failures stop after a while; afterwards the run has to reach the target
            stop = rng.randint(1, 25)
            sc['plan']['solve'] = {k: v for k, v in sc['plan']['solve'].items()
                                   if int(k) < stop and v[0] == 'fail' and int(k) > 0}
            # never long enough to exhaust the retries of one step
            p = params(sc)
            lim = int(np.ceil(np.log2(max(p['ds0'], p['dsmax']) / p['dsmin']) + 1e-9)) + len(p['list'])
            run_len = 0
            for k in range(stop + 1):
                if str(k) in sc['plan']['solve']:
                    run_len += 1
                    if run_len >= min(lim, 3) if p['dsmax'] > p['dsmin'] else True:
                        del sc['plan']['solve'][str(k)]
                        run_len = 0
                else:
                    run_len = 0
            sc['plan']['eval'] = {}
            sc['plan']['cb'] = {}
            sc['config']['MaxSteps'] = 3000
            sc['live'] = True
            sc['solver'] = 'newton'
            ds = p['ds0']
            sc['config'].update(ds0=ds, dsmax=ds, dsmin=float('%.4g' % (ds / 8)))
        return sc

    def oracle(self, sc, sim, run):
        p = params(sc)
        cfg = sc['config']
        if sim.over_budget:
            raise Violation('no-termination', 'more than %d corrector calls (MaxSteps %d)' % (sim.budget, p['max']))
        if sim.init is None or not sim.init['success'] or sim.exc is not None:
            return
        dirn = np.sign(sim.lam1 - sim.lam0)
        M = sim.rows.shape[0]
        lam = sim.rows[:, -1]
        if M > p['max']:
            raise Violation('max-steps', '%d points with MaxSteps=%d' % (M, p['max']))
        past = dirn * lam >= dirn * sim.lam1
        back = dirn * lam <= dirn * (sim.lam0 - dirn * p['back'])
        if np.any(past[:-1]):
            raise Violation('overrun', 'kept going after passing lam1 at point %d of %d' % (int(np.argmax(past)), M))
        if np.any(back[:-1]):
            raise Violation('backtrack-limit', 'kept going after backtracking past the limit at point %d of %d' % (
                int(np.argmax(back)), M))
        reasons = []
        if past[-1]:
            reasons.append('reached lam1')
        if M == p['max']:
            reasons.append('MaxSteps')
        if back[-1]:
            reasons.append('backtrackStop')
        if sim.pending:
            reasons.append('corrector failed')
        for r in reasons:
            run.hit('reason: ' + r)
        if not reasons:
            raise Violation('stopped-early', 'stopped at lam=%r (lam0=%r lam1=%r) after %d points, MaxSteps %d, last '
                            'corrector run succeeded' % (lam[-1], sim.lam0, sim.lam1, M, p['max']))
        if len(reasons) > 1 and sim.pending:
            raise Violation('superfluous-attempts', 'attempted another step although %s' % reasons[0])
        # bounded work per step
        lim = int(np.ceil(np.log2(max(p['dsmax'], p['ds0']) / p['dsmin']) + 1e-9)) + len(p['list']) + 1
        for k, att in enumerate(sim.steps + ([sim.pending] if sim.pending else [])):
            if len(att) > lim:
                raise Violation('too-many-attempts', 'step %d used %d corrector calls (limit %d)' % (k + 1, len(att), lim))
        if sc.get('live'):
            run.hit('liveness-runs')
            if not past[-1] and not sim.pending:
                raise Violation('no-progress', 'target not reached after failures stopped')
            if sim.pending and all(a['act'] != 'fail' for a in sim.pending):
                raise Violation('no-recovery', 'gave up at lam=%r although no failure was injected any more' % lam[-1])


class C05(ContCheck):
    pid = 'C05'

    def oracle(self, sc, sim, run):
        br = sim.branch
        if sim.init is None or not sim.init['success']:
            return
        sgn = np.sign(br.s1 - br.s0)
        pts = sim.delivered()
        ss = np.array([br.s_of(X) for X in pts])
        if sc['solver'] != 'newton':
            # a real corrector may stall off the branch and report success; nothing is claimed beyond that point
            bad = [i for i, X in enumerate(pts) if br.off_branch(X) > 1e-5]
            if bad:
                pts = pts[:bad[0]]
                ss = ss[:bad[0]]
        adv = np.diff(ss) * sgn
        if sim.rows is not None and len(sim.rows) == len(pts):
            ss2 = np.array([br.s_of(X) for X in sim.rows])
            adv = np.diff(ss2) * sgn
        if np.any(~(adv > 0)):
            k = int(np.argmax(~(adv > 0)))
            raise Violation('branch-reversed', 'point %d -> %d moves %.3g backwards along the branch' % (k, k + 1, adv[k]))
        if len(adv) and np.any(np.diff(np.sign(np.diff([X[-1] for X in pts]))) != 0):
            run.hit('folds-traversed')
        if not sc.get('use_cb', True):
            return
        for i in range(1, len(sim.cbl)):
            X, d = sim.cbl[i]
            base = pts[i - 1] if i - 1 < len(pts) else None
            if base is None:
                return
            if not np.all(np.isfinite(d)):
                raise Violation('direction-not-finite', 'callback %d direction %s' % (i, d))
            t = br.tangent(br.s_of(base))
            un = np.hstack((br.scale, br.lscale))
            dn, tn = d / un, t / un
            cosv = float(dn @ tn / np.linalg.norm(dn) / np.linalg.norm(tn))
            if abs(abs(cosv) - 1) > 1e-6:
                raise Violation('direction-not-tangent', 'callback %d: direction is %.3g off the tangent at the point '
                                'it starts from' % (i, 1 - abs(cosv)))
            if cosv * sgn <= 0:
                raise Violation('direction-reversed', 'callback %d: direction points backwards' % i)
            run.hit('directions-checked')
            if not np.all(np.isnan(X)):
                # ds=1 normalisation in the conditioned norm
                C = sim.ctop_at(base)
                p = params(sc)
                ok = any(abs(np.sqrt(sim.norm2(d / C, base / C, b)) - 1) < 1e-6 for b in p['list'])
                if not ok:
                    raise Violation('direction-length', 'callback %d: direction is not of unit step size' % i)
        if sim.exc is None and not sim.over_budget and len(sim.cbl) != len(pts) + 1:
            raise Violation('direction-missing', '%d directions for %d points' % (len(sim.cbl) - 1, len(pts)))
