"""C06: an aborted analysis leaves nothing behind.  C07: analyses in one process do not influence each other."""
import contextlib
import copy
import io
import os
import random
import shutil
import subprocess
import sys
import json

import numpy as np

from .core import Check, Violation, BudgetExceeded, Hang, Injected, lib
from .e2e import Analysis, Campaign, gen_analysis, gen_plan, foreign, shrink_e2e, FOREIGN
from .sched import Sched

TYPES = ('hbm', 'hbm', 'base', 'dfl', 'epmc', 'epmc', 'amp', 'phase', 'phasedA', 'vprnm', 'vphase', 'shoot')


def freeze(o):
    if isinstance(o, np.ndarray):
        return ('a', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ('d', tuple(sorted((str(k), freeze(v)) for k, v in o.items())))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v) for v in o))
    if callable(o):
        return ('f', id(o))
    return (type(o).__name__, repr(o))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


class C06(Check):
    pid = 'C06'
    runs_quick = 320
    runs_thorough = 10000
    rule = 'a run in which at least one abort took effect after the first delivered point and the repeat delivered at least three points'
    real = 'VibrationSystem, nonlinear forces, Continuation, NonlinearSolverOMP, harmonic utilities'
    stub = 'none; exceptions are raised from the residual function, the Q and T matrices, the callback and at interpreter line events'
    state_measure = 'distinct (analysis, element kinds, abort site, exception type, object reuse, foreign activity) tuples'

    def gen(self, rng, i, tier):
        an = gen_analysis(rng, TYPES, 0.2, steps=(4, 8))
        lives = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            exc = rng.choice(['KeyboardInterrupt', 'MemoryError', 'InjectedError', 'LinAlgError', 'SystemExit'])
            k = rng.randrange(1, 45)
            if r < 0.45:
                site = ['line', rng.randrange(1, 30), rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
            elif r < 0.6:
                site = ['raise', k, exc]
            elif r < 0.8:
                site = ['matmul', k, rng.randrange(6)]
            else:
                site = ['cb', rng.randrange(1, 8), exc, rng.choice(['before', 'after'])]
            lives.append({'abort': site, 'same': rng.random() < 0.5,
                          'foreign': [[rng.choice(FOREIGN), rng.randrange(10 ** 6)] for _ in range(rng.choice([0, 0, 1, 3]))]})
        return {'an': an, 'lives': lives}

    def shrink(self, sc):
        for i in range(len(sc['lives'])):
            if len(sc['lives']) > 1:
                yield dict(sc, lives=sc['lives'][:i] + sc['lives'][i + 1:])
            if sc['lives'][i]['foreign']:
                c = copy.deepcopy(sc)
                c['lives'][i]['foreign'] = []
                yield c
        for i in range(len(sc['an']['els'])):
            c = copy.deepcopy(sc)
            del c['an']['els'][i]
            yield c

    def life(self, an, solver, cont, cfg, ctop, abort, run, rows):
        """One continuation run on given objects; returns (exception name, rows)."""
        from tmdsimpy.continuation import Continuation
        from .e2e import make
        from .forcelib import LineInterrupt
        st = {'n': 0, 'cb': 0, 'arm': None}

        def fun(x, calc_grad=True):
            st['n'] += 1
            if st['n'] > 20000:
                raise BudgetExceeded('evaluations')
            if an.d['t'] == 'shoot' and not (x[-1] > 0.2 * an.w1 and np.max(np.abs(x / an.scale)) < 20):
                m = len(x) - 1
                return np.full(m, np.nan), np.full((m, m), np.nan), np.full(m, np.nan)
            if abort and abort[0] in ('raise', 'matmul', 'line') and st['n'] == abort[1]:
                if abort[0] == 'raise':
                    run.hit('abort.raise')
                    raise make(abort[2])
                if abort[0] == 'matmul':
                    an.plan.arm(abort[2])
                    try:
                        return an.fun(x, calc_grad)
                    finally:
                        if an.plan.disarm():
                            run.hit('abort.matmul')
                elif st['arm'] is None:
                    st['arm'] = LineInterrupt(int(abort[2] * 400), abort[3])
                    st['arm'].__enter__()
            return an.fun(x, calc_grad)

        def cb(x, d):
            st['cb'] += 1
            hit = abort and abort[0] == 'cb' and st['cb'] == abort[1]
            if hit and abort[3] == 'before':
                run.hit('abort.cb')
                raise make(abort[2])
            rows.append((np.array(x, dtype=float), np.array(d, dtype=float)))
            if hit:
                run.hit('abort.cb')
                raise make(abort[2])
        self.current = cb
        exc, out = None, None
        x0 = np.append(an.x0, an.lams[0])
        keep = freeze((x0, ctop, cfg, solver.config, an.vs.M, an.vs.K, an.vs.C))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if cont is None:
                    cont = lib(Continuation, solver, ds0=an.d['ds'], CtoP=ctop, config=cfg, what='Continuation')
                out = lib(cont.continuation, fun, x0, an.lams[0], an.lams[1], allow=AssertionError, what='continuation')
        except AssertionError:
            exc = 'initial'
        except Hang:
            raise
        except BudgetExceeded:
            raise Violation('no-end', 'more than 20000 evaluations')
        except BaseException as e:
            if not getattr(e, 'dst_injected', False) and not isinstance(e, Injected):
                raise
            exc = type(e).__name__
        finally:
            if st['arm'] is not None:
                st['arm'].__exit__()
                if st['arm'].fired:
                    run.hit('abort.line')
                    run.log('line', st['arm'].where)
        if freeze((x0, ctop, cfg, solver.config, an.vs.M, an.vs.K, an.vs.C)) != keep:
            raise Violation('argument-changed', 'a run ended by %s changed its start, CtoP, config, solver settings or matrices' % exc)
        run.log('life', exc, st['n'], st['cb'])
        return exc, out, cont

    def execute(self, sc, run):
        from .forcelib import Plan
        base = Analysis(sc['an'], Plan())
        if base.x0 is None:
            run.hit('no-start')
            return
        ref = []
        relay = lambda x, d: self.current(x, d)
        cfg = dict(base.config(), callback=relay)
        exc, want, _ = self.life(base, base.solver(), None, cfg, base.ctop(), None, run, ref)
        an = Analysis(sc['an'], Plan())
        an.els_kinds = {e['kind'] for e in sc['an']['els']}
        solver, cfg, ctop, cont = an.solver(), dict(an.config(), callback=relay), an.ctop(), None
        an.live_solver = solver
        eff = False
        for k, lf in enumerate(sc['lives'] + [None]):
            rows = []
            e, out, c = self.life(an, solver, cont, cfg, ctop, lf and lf['abort'], run, rows)
            hit = bool(lf) and e not in (None, 'initial')
            what = 'run %d on used objects' % k
            if len(rows) > len(ref):
                raise Violation('history', '%s delivered %d points, a first run delivers %d' % (what, len(rows), len(ref)))
            for j, (a, b) in enumerate(zip(rows, ref)):
                if not (same(a[0], b[0]) and same(a[1], b[1])):
                    raise Violation('history', '%s: delivery %d differs from that of a run on fresh objects (largest difference %.3g)'
                                    % (what, j, np.nanmax(np.abs(a[0] - b[0])) if np.any(np.isfinite(a[0] - b[0])) else np.nan))
            if not hit:
                if e != exc or len(rows) != len(ref) or (out is None) != (want is None) or (out is not None and not same(out, want)):
                    raise Violation('history', '%s ended with %s and %d points, a run on fresh objects with %s and %d'
                                    % (what, e, len(rows), exc, len(ref)))
            if hit and len(rows) > 0:
                eff = True
            if lf is None:
                break
            run.state(sc['an']['t'], tuple(sorted(x['kind'] for x in sc['an']['els'])), lf['abort'][0], e, lf['same'],
                      tuple(f[0] for f in lf['foreign']))
            for op, seed in lf['foreign']:
                foreign(an, op, seed)
                run.hit('foreign.' + op)
            cont = c if lf['same'] else None
        run.nontrivial = eff and len(ref) >= 3


# ---------------------------------------------------------------- C07

TASKS = ['cont', 'cont', 'cont', 'twin', 'frf', 'nsolve', 'post', 'rom', 'print', 'save', 'predict', 'eigs', 'static']


def make_task(spec, shared, scratch):
    """-> function without arguments that performs one user activity and returns a structure of arrays."""
    kind, seed = spec['kind'], spec['seed']
    rng = random.Random(seed)
    if kind in ('cont', 'twin'):
        d = spec['an']

        def cont():
            from tmdsimpy.continuation import Continuation
            an = Analysis(d)
            if an.x0 is None:
                return 'no start'
            rows = []
            cfg = an.config()
            if kind == 'twin':
                # one configuration dictionary, list and scaling vector for every run of this problem
                cfg = shared.setdefault('cfg%d' % spec['seed'], cfg)
                ctop = shared.setdefault('ctop%d' % spec['seed'], an.ctop())
            else:
                ctop = an.ctop()
            if spec.get('lists') and 'FracLamList' in cfg:
                cfg['FracLamList'] = shared.setdefault('lst%g' % d['b'], cfg['FracLamList'])
            solver = an.solver()
            c = Continuation(solver, ds0=d['ds'], CtoP=ctop, config=cfg)

            def fun(x, calc_grad=True):
                if d['t'] == 'shoot' and not (x[-1] > 0.2 * an.w1 and np.max(np.abs(x / an.scale)) < 20):
                    m = len(x) - 1
                    return np.full(m, np.nan), np.full((m, m), np.nan), np.full(m, np.nan)
                return an.fun(x, calc_grad)
            out = [c.continuation(fun, np.append(an.x0, an.lams[0]), an.lams[0], an.lams[1])]
            if spec.get('again'):
                out.append(c.continuation(fun, np.append(an.x0, an.lams[0]), an.lams[0], an.lams[1]))
            return out
        return cont
    n = rng.choice([2, 3, 4])
    A = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    K = A @ A.T + n * np.eye(n)
    M = np.diag([rng.uniform(0.5, 2) for _ in range(n)])
    v = np.array([rng.uniform(-1, 1) for _ in range(n)])
    if kind == 'frf':
        def frf():
            from tmdsimpy.vibration_system import VibrationSystem
            from tmdsimpy.solvers import NonlinearSolver
            vs = VibrationSystem(M, K, ab=[0.1, 0.02])
            w = np.linspace(0.5, 3, 5)
            out = [vs.linear_frf(w, v, NonlinearSolver(), neigs=m) for m in (1, n)]
            H = np.array([np.linalg.solve(K - x ** 2 * M + 1j * x * (0.1 * M + 0.02 * K), v) for x in w])
            want = np.hstack((H.real, -H.imag, w[:, None]))
            if not np.allclose(out[1], want, rtol=1e-7, atol=1e-9):
                raise Violation('frf', 'linear_frf with all modes differs from the direct solution')
            return out
        return frf
    if kind == 'eigs':
        def eigs():
            from tmdsimpy.solvers import NonlinearSolver
            from tmdsimpy.jax.solvers import NonlinearSolverOMP
            s = (NonlinearSolver if spec.get('hybr') else NonlinearSolverOMP)(**({} if spec.get('hybr') else {'config': {'verbose': False}}))
            idx = [0, 0]
            big = np.diag(np.arange(1.0, 7.0)) + 0.1 * np.ones((6, 6))
            out = [s.eigs(K, M, subset_by_index=idx), s.eigs(big), s.eigs(big, np.eye(6) * 2.0)]
            for (lam, V), a, b, k in ((out[0], K, M, 1), (out[1], big, np.eye(6), 3), (out[2], big, np.eye(6) * 2.0, 3)):
                w = np.sort(np.linalg.eigvals(np.linalg.solve(b, a)).real)[:k]
                if np.shape(lam) != (k,) or not np.allclose(lam, w, rtol=1e-8):
                    raise Violation('eigs', 'eigs returned %s, expected %s' % (np.asarray(lam), w))
            if idx != [0, 0]:
                raise Violation('argument-changed', 'eigs changed subset_by_index')
            return [[np.asarray(lam), np.abs(np.asarray(V))] for lam, V in out]
        return eigs
    if kind == 'nsolve':
        def nsolve():
            from tmdsimpy.solvers import NonlinearSolver
            from tmdsimpy.jax.solvers import NonlinearSolverOMP
            cfg = shared.setdefault('omp', {'verbose': False, 'max_steps': 15, 'stopping_tol': ['xtol'], 'accepting_tol': ['rtol'], 'rtol': 1e-6})
            fun = lambda x, calc_grad=True: (K @ x + x ** 3 - v, K + np.diag(3 * x ** 2))
            out = []
            for s in (NonlinearSolver(), NonlinearSolverOMP(config=cfg), NonlinearSolverOMP({'verbose': False})):
                for xt in (None, 1e-9):
                    x0 = np.ones(n)
                    X, R, J, sol = s.nsolve(fun, x0, verbose=False, xtol=xt)
                    if not np.array_equal(x0, np.ones(n)):
                        raise Violation('argument-changed', 'nsolve changed X0')
                    if sol['success'] and not np.linalg.norm(K @ X + X ** 3 - v) < 1e-4:
                        raise Violation('nsolve', 'success with a residual of %g' % np.linalg.norm(K @ X + X ** 3 - v))
                    out.append([np.asarray(X), bool(sol['success'])])
                if hasattr(s, 'edit_config'):
                    s.edit_config({'stopping_tol': ['rtol'], 'reform_freq': 2})
            return out
        return nsolve
    if kind == 'post':
        def post():
            from tmdsimpy.postprocess.continuation import hermite_upsample, hermite_interp, linear_interp
            lam = np.cumsum(np.abs([rng2 for rng2 in np.linspace(0.2, 1.1, 6)]))
            c = np.outer(np.ones(4), v)
            P = np.stack([1 + lam, lam ** 2, lam ** 3 - lam, lam], axis=1)
            G = np.stack([np.ones(6), 2 * lam, 3 * lam ** 2 - 1, np.ones(6)], axis=1) * 0.7
            kp = freeze((P, G))
            x = np.linspace(lam[0], lam[-1], 9)
            out = [hermite_upsample(P, G, 4), hermite_interp(P, G, x), linear_interp(P, x), hermite_upsample(P, G)]
            if freeze((P, G)) != kp:
                raise Violation('argument-changed', 'interpolation changed its input')
            if not np.allclose(out[1], np.stack([1 + x, x ** 2, x ** 3 - x, x], axis=1), rtol=1e-9, atol=1e-9):
                raise Violation('interpolation', 'cubic data are not reproduced by hermite_interp')
            return out
        return post
    if kind == 'rom':
        def rom():
            from tmdsimpy.roms.epmc import constant_force, constant_displacement
            h = np.array([0, 1])
            m = 12
            bb = np.zeros((m, 3 * n + 3))
            bb[:, :n] = 0.1
            bb[:, n:2 * n] = v + 1.5
            bb[:, 2 * n:3 * n] = 0.2 * v
            bb[:, -3] = 10 - np.linspace(0, 1, m)
            bb[:, -2] = 0.3 + np.linspace(0, .2, m)
            bb[:, -1] = np.linspace(-2, 0, m)
            kp = freeze((bb, h, v))
            out = list(constant_force(bb, n, h, Fl=np.hstack((0 * v, v, 0.3 * v))))
            out += list(constant_displacement(bb, h, v, np.array([9.0, 10.0]), np.ones(n), 0.3))
            if freeze((bb, h, v)) != kp:
                raise Violation('argument-changed', 'a reduced-order model changed its input')
            return out
        return rom
    if kind == 'print':
        def prt():
            from tmdsimpy.utils.continuation import print_epmc_stats, print_hbm_amp_stats
            f = os.path.join(scratch, 'p%d.txt' % spec['id'])
            g = os.path.join(scratch, 'q%d.txt' % spec['id'])
            for k in range(3):
                x = np.hstack((v, [5.0 + k, 0.1, -1.0]))
                print_epmc_stats(x, x, f)
                y = np.hstack((np.tile(v, 3), [0.7, 3.0 + k]))
                print_hbm_amp_stats(y, y, g, np.array([0, 1]), 1, np.eye(n)[0], 1)
            out = [open(f).read(), open(g).read()]
            os.unlink(f)
            os.unlink(g)
            return out
        return prt
    if kind == 'save':
        def save():
            from tmdsimpy.utils.continuation import continuation_save
            f = os.path.join(scratch, 's%d' % spec['id'])
            for k in range(3):
                continuation_save(v + k, v * k, f)
            with np.load(f + '.npz') as z:
                out = [z[k].copy() for k in sorted(z.files)]
            os.unlink(f + '.npz')
            return out
        return save
    if kind == 'predict':
        def predict():
            from tmdsimpy.vibration_system import VibrationSystem
            from tmdsimpy.solvers import NonlinearSolver
            from tmdsimpy.utils.harmonic import predict_harmonic_solution, harmonic_wise_conditioning
            vs = VibrationSystem(M, K, ab=[0.1, 0.02])
            h = np.array([0, 1, 2])
            Fl = np.hstack((np.zeros(n), v, np.zeros(3 * n)))
            kp = freeze((Fl, h, K, M))
            out = [predict_harmonic_solution(vs, 1.3, Fl, h, NonlinearSolver(), 'HBM', fmag=2.0, neigs=n)]
            out.append(harmonic_wise_conditioning(out[0][:-1], n, h))
            if freeze((Fl, h, K, M)) != kp:
                raise Violation('argument-changed', 'predict_harmonic_solution changed its input')
            return out
        return predict
    if kind == 'static':
        def static():
            from tmdsimpy.vibration_system import VibrationSystem
            from tmdsimpy import nlforces as nf
            vs = VibrationSystem(M, K)
            Q = np.eye(n)[:1]
            vs.add_nl_force(nf.VectorIwan4(Q, Q.T, 1.0, 0.5, 0.0, 0.1, Nsliders=4))
            vs.add_nl_force(nf.JenkinsForce(Q, Q.T, 1.0, 0.2))
            vs.nonlinear_forces[1].init_history()
            vs.init_force_history()
            out = []
            for k in range(6):
                x = v * (k - 2.5)
                R, J = vs.static_res(x, np.zeros(n))
                out.append([np.asarray(R), np.asarray(J)])
                vs.update_force_history(x)
            return out
        return static
    raise KeyError(kind)


def outcome(r):
    if r[0] == 'ok':
        return freeze(r[1])
    e = r[1]
    return ('exc', type(e).__name__, str(e)[:200])


class C07(Check):
    pid = 'C07'
    runs_quick = 240
    runs_thorough = 8000
    rule = 'a run with at least 20 thread switches between two or more activities, or at least two nested activities, and at least three delivered points'
    real = 'all of the package that is exercised; threads are real, one runs at a time'
    stub = 'the thread scheduler: a baton handed over at seeded line events'
    state_measure = 'distinct (task kinds, file:function pairs at which threads were switched) and (analysis, nested activities) tuples'
    assumptions = ['threads are not switched inside functions that JAX traces']

    def warmup(self):
        import tmdsimpy.continuation, tmdsimpy.solvers, tmdsimpy.jax.solvers, tmdsimpy.vibration_system, tmdsimpy.nlforces  # noqa
        import tmdsimpy.postprocess.continuation, tmdsimpy.postprocess.harmonic, tmdsimpy.roms.epmc, tmdsimpy.utils.continuation  # noqa
        import tmdsimpy.utils.harmonic, tmdsimpy.jax.nlforces  # noqa

    def gen(self, rng, i, tier):
        if rng.random() < 0.4:
            an = gen_analysis(rng, TYPES, 0.2, steps=(4, 8))
            plan = gen_plan(rng, len(an['els']), interrupts=False, corruptions=False, n=40)
            for _ in range(rng.randrange(2, 8)):
                plan['eval'][str(rng.randrange(1, 40))] = ['foreign', rng.choice(FOREIGN), rng.randrange(10 ** 6)]
            for _ in range(rng.randrange(0, 4)):
                plan['cb'][str(rng.randrange(1, 9))] = ['foreign', rng.choice(FOREIGN), rng.randrange(10 ** 6)]
            plan['restarts'] = ['same']        # the first life is the one with the plan
            return {'mode': 'nested', 'an': an, 'plan': plan}
        tasks = []
        for k in range(rng.choice([2, 2, 3, 4])):
            kind = rng.choice(TASKS)
            t = {'kind': kind, 'seed': rng.randrange(10 ** 8), 'id': k, 'hybr': rng.random() < 0.5}
            if kind in ('cont', 'twin'):
                t['an'] = gen_analysis(rng, TYPES[:-1], 0.1, steps=(3, 5))
                t['again'] = rng.random() < 0.3
                t['lists'] = True
                t['an']['blist'] = rng.random() < 0.6
            tasks.append(t)
            if kind == 'twin':
                tasks.append(dict(copy.deepcopy(t), id=k + 10))
        return {'mode': 'threads', 'tasks': tasks, 'sched': rng.randrange(10 ** 9), 'quantum': rng.choice([3, 20, 120, 1000]),
                'first': rng.random() < 0.5, 'fresh': rng.random() < 0.1}

    def shrink(self, sc):
        if sc['mode'] == 'nested':
            for c in shrink_e2e(sc):
                if c['plan']['restarts']:
                    yield c
            return
        for i in range(len(sc['tasks'])):
            if len(sc['tasks']) > 1:
                yield dict(sc, tasks=sc['tasks'][:i] + sc['tasks'][i + 1:])
        for q in (1000, 120):
            if q > sc['quantum']:
                yield dict(sc, quantum=q)

    def execute(self, sc, run):
        if sc['mode'] == 'nested':
            return self.nested(sc, run)
        scratch = os.path.join(os.environ.get('DST_SCRATCH', '/tmp'), 'c07-%d' % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        solo = None
        if not sc['first']:
            solo = self.solo(sc, scratch)
        shared = {}
        s = Sched(sc['sched'], sc['quantum'])
        for t in sc['tasks']:
            s.add(make_task(t, shared, scratch))
        res = s.run()
        for t, r in zip(sc['tasks'], res):
            self.raised(t, r)
        if solo is None:
            solo = self.solo(sc, scratch)
        npts = 0
        for t, r, w in zip(sc['tasks'], res, solo):
            run.hit('task.' + t['kind'])
            if r[0] == 'ok' and t['kind'] in ('cont', 'twin') and isinstance(r[1], list):
                npts += sum(len(o) for o in r[1])
            if outcome(r) != w:
                raise Violation('interference', 'activity %d (%s) gives another result when interleaved with %s than on its own%s'
                                % (t['id'], t['kind'], [x['kind'] for x in sc['tasks'] if x is not t], self.describe(r, w)))
        for t in sc['tasks']:
            k = 'cfg%d' % t['seed']
            if k in shared and freeze(shared[k]) != freeze(Analysis(t['an']).config()):
                raise Violation('argument-changed', 'a configuration dictionary shared by two analyses was changed')
        run.log('threads', s.steps, s.switches, [outcome(r)[0] for r in res])
        run.hit('switches', s.switches)
        run.hit('lines', s.steps)
        kinds = tuple(sorted(t['kind'] for t in sc['tasks']))
        for _, where, nxt in s.trail:
            run.state(kinds, where)
        if sc['fresh']:
            run.hit('fresh-process')
            self.fresh(sc, res)
        run.nontrivial = s.switches >= 20

    @staticmethod
    def raised(t, r):
        if r[0] == 'exc':
            e = r[1]
            if isinstance(e, Hang):
                raise e
            if isinstance(e, BudgetExceeded):
                raise Violation('no-end', 'interleaved activities do not end')
            if isinstance(e, Violation):
                raise e
            if not isinstance(e, AssertionError):
                raise Violation('unexpected-exception', '%s: %s: %s' % (t['kind'], type(e).__name__, str(e)[:200]))

    def solo(self, sc, scratch):
        out = []
        for t in sc['tasks']:
            shared = {}
            try:
                with np.errstate(all='ignore'):
                    r = ('ok', make_task(t, shared, scratch)())
            except Exception as e:     # noqa
                r = ('exc', e)
            self.raised(t, r)
            out.append(outcome(r))
        return out

    @staticmethod
    def describe(r, w):
        return '' if r[0] == 'ok' else ' (raises %s)' % type(r[1]).__name__

    def fresh(self, sc, res):
        """The same activities alone, each first thing in a new interpreter."""
        code = ('import json,sys,io\nimport numpy as np,hashlib\nnp.seterr(all="ignore")\nimport warnings\nwarnings.simplefilter("ignore")\n'
                'from dst.checks_iso import make_task,outcome,C07\nd=json.load(sys.stdin)\nold=sys.stdout\nsys.stdout=io.StringIO()\n'
                'try:\n    r=("ok",make_task(d["t"],{},d["scratch"])())\nexcept Exception as e:\n    r=("exc",e)\n'
                'sys.stdout=old\nprint(hashlib.md5(repr(outcome(r)).encode()).hexdigest())\n')
        import hashlib
        scratch = os.path.join(os.environ.get('DST_SCRATCH', '/tmp'), 'c07f-%d' % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ)
        for t, r in zip(sc['tasks'], res):
            p = subprocess.run([sys.executable, '-c', code], input=json.dumps({'t': t, 'scratch': scratch}), capture_output=True,
                               text=True, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), timeout=200)
            if p.returncode:
                raise RuntimeError(p.stderr[-2000:])
            if p.stdout.strip().splitlines()[-1] != hashlib.md5(repr(outcome(r)).encode()).hexdigest():
                raise Violation('interference', 'activity %d (%s) gives another result than in a new process' % (t['id'], t['kind']))
        shutil.rmtree(scratch, ignore_errors=True)

    def nested(self, sc, run):
        quiet = dict(sc, plan={'eval': {}, 'cb': {}, 'restarts': []})
        got = []
        order = [sc, quiet] if len(sc['plan']['eval']) % 2 else [quiet, sc]
        for s in order:
            c = Campaign(s, run)
            if not c.go():
                return
            got.append((s is sc, [(r[1], r[2]) for r in c.rows if r[0] == 0], c.lives[0][0], c.lives[0][1]))
        (_, r1, e1, o1), (_, r2, e2, o2) = got
        if e1 != e2 or len(r1) != len(r2) or not all(same(a[0], b[0]) and same(a[1], b[1]) for a, b in zip(r1, r2)):
            raise Violation('interference', '%s analysis gives other points when the same system, forces and solver are used in between '
                            '(%s and %s points)' % (sc['an']['t'], len(r1), len(r2)))
        fk = tuple(sorted({v[1] for v in list(sc['plan']['eval'].values()) + list(sc['plan']['cb'].values())}))
        run.state(sc['an']['t'], tuple(sorted(e['kind'] for e in sc['an']['els'])), fk)
        run.nontrivial = len(r1) >= 3 and sum(v for k, v in run.stats.items() if k.startswith('foreign.')) >= 2
