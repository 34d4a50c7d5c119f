"""H01: quasi-static history of hysteretic forces.  H02: alternating frequency-time forces."""
import copy
import random

import numpy as np

from .core import Check, Violation, InjectedError, lib
from .forcelib import sibling, Element, gen_element, Plan, LineInterrupt, basis, project, derivative_mismatch

STATIC_KINDS = ['jenkins', 'vjenkins', 'iwan', 'viwan', 'dry2', 'dry2', 'dry3', 'dry3']
AFT_KINDS = ['jenkins', 'vjenkins', 'iwan', 'viwan', 'dry2', 'dry3', 'jjenkins', 'jvjenkins', 'cubic', 'quintic', 'cdamp',
             'uni', 'iwanbb', 'poly']
INST_KINDS = ['cubic', 'quintic', 'cdamp', 'cdamp', 'uni', 'iwanbb', 'poly']
NX = 3      # global degrees of freedom


def close(a, b, scale, rtol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= rtol * scale)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def vec(rng, us, n=NX):
    return [round(rng.choice([1, 1, 1, 0.1, 3]) * rng.uniform(-1, 1), 4) * us for _ in range(n)]


class RoughTwin:
    """Committed history of a rough contact element, for replay on fresh objects."""

    def __init__(self, d, N, QT):
        self.d, self.N, self.QT = d, N, QT
        self.reset()

    def reset(self):
        self.hist = []

    def fresh(self, hist):
        e = Element(self.d, self.N, QT=self.QT)
        for X, real in hist:
            e.obj.reset_real_mu() if real else e.obj.set_prestress_mu()
            e.obj.force(np.array(X), update_hist=True)
        return e

    def force(self, X, real):
        e = self.fresh(self.hist)
        e.obj.reset_real_mu() if real else e.obj.set_prestress_mu()
        return np.array(e.obj.force(np.array(X))[0])

    def normal(self, X, Q):
        """Normal force as it must be from the largest committed normal displacement alone."""
        h = [x for x, _ in self.hist]
        top = max(h, key=lambda x: (Q @ np.array(x))[2], default=None)
        e = self.fresh([(top, True)] if top is not None and (Q @ np.array(top))[2] > 0 else [])
        return e.local(X)


class H01(Check):
    pid = 'H01'
    runs_quick = 700
    runs_thorough = 12000
    rule = 'a run with at least two committed load steps, one of them slipping, and a fault, peek or configuration change between'
    real = 'all static hysteretic forces (numpy and JAX), VibrationSystem history and static residual methods'
    stub = 'none (faults enter through the Q and T matrices handed to the constructors and at interpreter line events)'
    state_measure = 'distinct (element kind, stick/slip pattern per slider group, friction mode, last operation) tuples'
    assumptions = ['rough contact is judged against fresh twins of itself given only the committed steps, against the '
                   'Coulomb bound, a reduced load history and an independent asperity model with two material sets']

    def gen(self, rng, i, tier):
        rough = rng.random() < 0.2
        us = 4e-6 if rough else 10.0 ** rng.uniform(-5, 1)
        nf = rng.choice([1, 1, 2, 3])
        els = [gen_element(rng, STATIC_KINDS, us) for _ in range(nf)]
        if rough:
            els[rng.randrange(nf)] = gen_element(rng, ['roughTAN', 'roughTAN', 'roughMIF'], us)
        nx = rng.choice([1, 2, 3, 3])
        for e in els:
            e['us'] = us
        ops = []
        base = vec(rng, us, nx)
        nops = rng.randrange(4, 24)
        for _ in range(nops):
            r = rng.random()
            X = vec(rng, us, nx)
            if rng.random() < 0.4:     # cyclic loading along one line: partial unloading and reloading
                s = rng.choice([-1.5, -1, -0.5, 0, 0.4, 0.8, 1.0, 1.6])
                X = [s * b for b in base]
            if r < 0.36:
                ops.append(['commit', X, rng.random() < 0.5, rng.random() < 0.3])
            elif r < 0.54:
                ops.append(['peek', X, rng.random() < 0.5])
            elif r < 0.63:
                ops.append(['failcommit', X, rng.randrange(2 * nf)])
            elif r < 0.70:
                ops.append(['failpeek', X, rng.randrange(2 * nf)])
            elif r < 0.78:
                ops.append(['linepeek', X, rng.randrange(60), rng.choice(['KeyboardInterrupt', 'MemoryError'])])
            elif r < 0.83:
                ops.append(['prestress'])
            elif r < 0.89:
                ops.append(['real'])
            elif r < 0.93:
                ops.append(['init'])
            elif r < 0.965:
                ops.append(['aft', vec(rng, us, 3 * nx)])
            else:
                ops.append(['other', X])
        if any(e['kind'] in ('iwan', 'viwan') for e in els):
            ops = [o for o in ops if o[0] not in ('prestress', 'real')]
        return {'els': els, 'ops': ops, 'us': us, 'nx': nx, 'probe': vec(rng, us, nx), 'init0': rng.random() < 0.5}

    def shrink(self, sc):
        for k in range(len(sc['ops'])):
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])
        for k in range(len(sc['els'])):
            if len(sc['els']) > 1:
                yield dict(sc, els=sc['els'][:k] + sc['els'][k + 1:])

    # --- scene
    def execute(self, sc, run):
        from tmdsimpy.vibration_system import VibrationSystem
        plan, NX = Plan(), sc['nx']
        els = [lib(Element, d, NX, plan, what='constructor') for d in sc['els']]
        others = [lib(Element, d, NX, None, QT=(e.Q, e.T), what='constructor') for d, e in zip(sc['els'], els)]
        twins = [RoughTwin(e.d, NX, (e.Q, e.T)) if e.rough else None for e in els]
        K = np.diag([2.0, 1.0, 3.0][:NX]) * 0.7 / sc['us']
        vs = VibrationSystem(np.eye(NX), K)
        for e in els:
            vs.add_nl_force(e.obj)
        real = True
        commits = slips = disturbed = 0
        Fstat = np.array([0.3, -0.2, 0.1])[:NX]

        def init():
            lib(vs.init_force_history, what='init_force_history')
            for e, t in zip(els, twins):
                e.ref.reset()
                if t is not None:
                    t.reset()

        def ref_force(e, t, X):
            return e.T @ e.ref.f(e.Q @ np.array(X))

        def check_force(X, where):
            """Peek at every element and at the system residual."""
            Xa = np.array(X)
            tot = np.zeros(NX)
            scale = 1e-300
            J = K.copy()
            for e, t in zip(els, twins):
                F, dF = lib(e.obj.force, Xa.copy(), what='force')
                want = ref_force(e, t, X)
                s = np.max(np.abs(want)) + e.d['p']['fs']
                if t is not None:
                    if not close(F, want, s) and e.ref.tied:
                        w2 = e.T @ e.ref.f(e.Q @ Xa, tie=True)
                        want = w2 if close(F, w2, s) else want
                    w2 = t.force(X, real)
                    if e.ref.unclear:      # (the committed steps say which of two contact radii was remembered)
                        want = w2
                    elif not close(F, w2, s):
                        raise Violation('static-force', '%s %s: force %s, a fresh element with the same committed steps gives %s'
                                        % (e.kind, where, np.asarray(F), w2))
                if not close(F, want, s):
                    raise Violation('static-force', '%s %s: force %s, history gives %s' % (e.kind, where, np.asarray(F), want))
                if t is not None:
                    self.rough_invariants(e, t, Xa, real)
                tot = tot + want
                J = J + np.asarray(dF, dtype=float)
                self.stiffness(e, Xa, want, np.asarray(dF, dtype=float), s,
                               None if t is not None and (e.ref.unclear or e.ref.tied) else ref_force, where)
                scale = max(scale, s)
            R, dR = lib(vs.static_res, Xa.copy(), Fstat.copy(), what='static_res')
            want = K @ Xa + tot - Fstat
            if not close(R, want, scale + np.max(np.abs(K @ Xa)) + 1):
                raise Violation('static-residual', '%s: residual %s, expected %s' % (where, R, want))
            if not close(dR, J, np.max(np.abs(J)), 1e-9):
                raise Violation('static-residual', '%s: stiffness %s, expected %s' % (where, dR, J))

        def commit_ref(X):
            nonlocal slips
            pat = []
            for e, t in zip(els, twins):
                if t is not None:
                    t.hist.append((list(X), real))
                    e.ref.f(e.Q @ np.array(X), commit=True)
                    slips += 1
                    pat.append((e.kind, len(t.hist) > 1))
                else:
                    before = np.array(e.ref.q, dtype=float).copy()
                    e.ref.f(e.Q @ np.array(X), commit=True)
                    q = np.array(e.ref.q, dtype=float)
                    lim = {'RefSlider': lambda: e.ref.Fs, 'RefIwan': lambda: e.ref.phi, 'RefDry': lambda: 0}[type(e.ref).__name__]()
                    sl = np.abs(q) >= lim * (1 - 1e-12) if np.ndim(lim) or lim else np.array([True])
                    slips += bool(np.any(sl))
                    pat.append((e.kind, tuple(np.atleast_1d(sl).astype(int)[:4])))
            run.state(tuple(pat), real)

        if sc['init0'] or any(e.kind in ('jenkins', 'vjenkins') for e in els):
            init()       # the numpy sliders have no history before this call
        for op in sc['ops']:
            name = op[0]
            run.log(*[str(x)[:80] for x in op])
            run.hit('op.' + name)
            if name in ('commit', 'failcommit'):
                X = np.array(op[1])
                keep = X.copy()
                if name == 'failcommit':
                    plan.arm(op[2])
                    try:
                        vs.update_force_history(X)
                    except InjectedError:
                        pass
                    fired = plan.disarm()
                    if fired:
                        run.hit('fault.commit-product')
                        disturbed += 1
                    # the caller retries the same load step; elements committed before the failure get it twice
                outs = []
                if name == 'commit' and op[3]:        # each element on its own instead of through the system
                    for e in els:
                        outs += list(lib(e.obj.force, X, update_hist=True, what='force(update_hist=True)'))
                else:
                    lib(vs.update_force_history, X, what='update_force_history')
                if not same(X, keep):
                    raise Violation('argument-changed', 'update_force_history changed its argument')
                if name == 'commit' and op[2]:
                    for o in outs:
                        if isinstance(o, np.ndarray) and o.flags.writeable:
                            o += 1e5
                    X *= 7.3
                    X += 1e6 * sc['us']
                    run.hit('fault.scribble')
                commits += 1
                X = keep
                commit_ref(X)
                if name == 'failcommit':
                    for t in twins:      # a repeated commit is a repeated entry only if that changes nothing (checked below)
                        pass
                check_force(X, 'at the committed point')
            elif name == 'peek':
                X = np.array(op[1])
                check_force(X, 'peek')
                if op[2]:
                    for e in els:
                        F, dF = lib(e.obj.force, X, what='force')
                        for a in (F, dF):
                            if isinstance(a, np.ndarray) and a.flags.writeable:
                                a += 1e5
                    X += 1e5 * sc['us']
                    run.hit('fault.scribble')
                disturbed += 1
            elif name == 'failpeek':
                plan.arm(op[2])
                try:
                    vs.static_res(np.array(op[1]), Fstat)
                except InjectedError:
                    pass
                if plan.disarm():
                    run.hit('fault.peek-product')
                disturbed += 1
            elif name == 'linepeek':
                lib(vs.static_res, np.array(op[1]), Fstat, what='static_res')
                with LineInterrupt(op[2], op[3]) as li:
                    try:
                        vs.static_res(np.array(op[1]), Fstat)
                    except (KeyboardInterrupt, MemoryError) as e:
                        if not getattr(e, 'dst_injected', False):
                            raise
                if li.fired:
                    run.hit('fault.peek-line-' + op[3])
                    run.log('line', li.where)
                disturbed += 1
            elif name in ('prestress', 'real'):
                real = name == 'real'
                lib(vs.reset_real_mu if real else vs.set_prestress_mu, what=name)
                for e in els:
                    if e.ref is not None and e.ref.has_prestress:
                        e.ref.mu(real)
                disturbed += 1
            elif name == 'init':
                init()
            elif name == 'aft':
                U, h = np.array(op[1]), np.array([0, 1])
                for e in els:
                    if e.static_kept_by_aft:
                        lib(e.obj.aft, U, 1.3, h, 16, what='aft')
                        run.hit('fault.interleaved-aft')
            elif name == 'other':
                for o in others:
                    if hasattr(o.obj, 'init_history'):
                        lib(o.obj.init_history, what='init_history')
                    lib(o.obj.force, np.array(op[1]), update_hist=True, what='force')
                    if hasattr(o.obj, 'set_prestress_mu') and o.kind not in ('iwan', 'viwan'):
                        o.obj.set_prestress_mu()
                    if hasattr(o.obj, 'set_aft_initialize'):
                        o.obj.set_aft_initialize(np.array(op[1]))
                run.hit('fault.second-instance')
            check_force(sc['probe'], 'after ' + name)
        run.nontrivial = commits >= 2 and slips > 0 and disturbed > 0

    def stiffness(self, e, X, want, dF, s, ref_force, where):
        """The returned stiffness against differences of the independent force."""
        N = len(X)
        if dF.shape != (N, N) or not np.all(np.isfinite(dF)):
            raise Violation('static-stiffness', '%s %s: stiffness %s' % (e.kind, where, dF))
        if ref_force is None:
            return
        us = e.d['us']
        u = e.Q @ X
        if type(e.ref).__name__ == 'RefDry':
            u, un = e.ref._split(u)
            if np.any(np.abs(un - e.ref.gap) < 1e-3 * us):
                return
            lim = e.ref.mu_ * np.maximum((un - e.ref.gap) * e.ref.kn, 0.0)[:, None]
        elif type(e.ref).__name__ == 'RefSlider':
            lim = e.ref.Fs
        elif e.rough:
            un = u[2] - e.ref.gaps
            if np.any(np.abs(np.concatenate((un, un - 1.9 * e.ref.dy, [u[2] - e.ref.top]))) < 1e-3 * us):
                return
        if type(e.ref).__name__ in ('RefDry', 'RefSlider') and np.any(np.abs(np.abs(e.ref.q + e.ref.kt * (u - e.ref.u)) - lim) < 1e-3 * e.ref.kt * us):
            return
        if np.any(np.abs(u - e.ref.u) < 1e-3 * us):      # where a slider was left the law has a kink
            return
        for j in range(N):
            if not (e.Q[:, j].any()):
                if dF[:, j].any():
                    raise Violation('static-stiffness', '%s %s: stiffness on an unconnected degree of freedom' % (e.kind, where))
                continue
            fp, fm = {}, {}
            for eps in (1e-5, 1e-6):
                d = np.zeros(N)
                d[j] = eps * us
                fp[eps], fm[eps] = ref_force(e, None, X + d), ref_force(e, None, X - d)
            k, c = derivative_mismatch(dF[:, j] * us, want, fp, fm, 1e-13 * (s + 30 * self.slope(e) * us))
            if k is not None:
                raise Violation('static-stiffness', '%s %s: column %d of the stiffness %s, differences of the law give %s'
                                % (e.kind, where, j, dF[:, j], c / us))

    @staticmethod
    def slope(e):
        return max(e.d['p'].get('kt', 0), e.d['p'].get('kn', 0))

    def rough_invariants(self, e, t, X, real):
        obj = e.obj
        TI = np.linalg.pinv(e.T)
        F, dF = obj.force(X)[:2]
        if np.linalg.matrix_rank(e.T) < 3:
            return
        f = TI @ np.asarray(F)
        if f[2] < -1e-9 * (1 + np.max(np.abs(F))):
            raise Violation('rough-normal', 'negative normal force %s' % f[2])
        mu = e.d['p']['mu'] if real else 0.0
        if np.any(np.abs(f[:2]) > mu * f[2] + 1e-8 * np.max(np.abs(F)) + 1e-12):
            raise Violation('coulomb', '%s: tangential %s exceeds mu*N = %s' % (e.kind, f[:2], mu * f[2]))
        top = max((x for x, _ in t.hist), key=lambda x: (e.Q @ np.array(x))[2], default=None)
        hist = [(top, True)] if top is not None and (e.Q @ np.array(top))[2] > 0 else []
        ref = TI @ np.asarray(t.fresh(hist).obj.force(X)[0])
        if abs(ref[2] - f[2]) > 1e-8 * (abs(ref[2]) + np.max(np.abs(F)) + 1e-9):
            raise Violation('normal-memory', '%s: normal force %.12g, from the largest normal load alone %.12g' % (e.kind, f[2], ref[2]))


class H02(Check):
    pid = 'H02'
    runs_quick = 400
    runs_thorough = 10000
    rule = 'a run whose AFT calls include a slipping or strongly nonlinear one and at least one fault or foreign call before it'
    real = 'aft of every nonlinear force (numpy and JAX), VibrationSystem.total_aft, postprocess.local_harmonic_forces, harmonic utilities'
    stub = 'none (faults enter through the Q and T matrices and at interpreter line events)'
    state_measure = 'distinct (element kind, harmonic set, loop shape class, preceding operation) tuples'
    H = [[0, 1, 2, 3], [1, 3], [0, 1], [1, 2], [0, 1, 3], [0, 1, 2], [2, 3], [0, 2]]

    def gen(self, rng, i, tier):
        rough = rng.random() < 0.08
        us = 4e-6 if rough else 10.0 ** rng.uniform(-5, 1)
        nf = rng.choice([1, 2, 2, 3])
        nx = rng.choice([1, 2, 3, 3])
        kinds = INST_KINDS if rng.random() < 0.3 else AFT_KINDS
        els = [gen_element(rng, kinds, us) for _ in range(nf)]
        if rough:
            els[0] = gen_element(rng, ['roughTAN', 'roughMIF'], us)
        jax = any(e['kind'] in ('dry2', 'dry3', 'jjenkins', 'jvjenkins') for e in els)
        if rough:
            hs, nts = [[0, 1]], [16]
        elif jax:
            hs, nts = self.H[:2], [64]
        else:
            hs, nts = rng.sample(self.H, 2), [32, 64] if rng.random() < 0.5 else [64]
            hs.append(sibling(rng, hs[0]))

        def harm():
            h = rng.choice(hs)
            n = sum(1 if k == 0 else 2 for k in h)
            U = []
            for k in h:
                for _ in range(1 if k == 0 else 2):
                    U += [x * (1.0 if k < 2 else 0.3) for x in vec(rng, us, nx)]
            return [h, U, round(rng.uniform(0.5, 3), 3), rng.choice(nts)]
        ops = []
        for _ in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < 0.5:
                ops.append(['aft'] + harm() + [rng.random() < 0.3])
            elif r < 0.60:
                ops.append(['failaft'] + harm() + [rng.randrange(3 * nf)])
            elif r < 0.70:
                ops.append(['lineaft'] + harm() + [rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError'])])
            elif r < 0.78:
                ops.append(['static', vec(rng, us, nx), rng.random() < 0.7])
            elif r < 0.85:
                ops.append(['prestress', rng.random() < 0.6])
            elif r < 0.92:
                ops.append(['aftinit', vec(rng, us, nx)])
            else:
                ops.append(['loops'] + harm())
        ops.append(['aft'] + harm() + [False])
        ops.append(['loops'] + harm())
        if any(e['kind'] in ('iwan', 'viwan') for e in els):
            ops = [o for o in ops if o[0] != 'prestress']
        return {'els': els, 'ops': ops, 'us': us, 'nx': nx}

    def shrink(self, sc):
        for k in range(len(sc['ops'])):
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])
        for k in range(len(sc['els'])):
            if len(sc['els']) > 1:
                yield dict(sc, els=sc['els'][:k] + sc['els'][k + 1:])

    def execute(self, sc, run):
        from tmdsimpy.vibration_system import VibrationSystem
        from tmdsimpy.postprocess.harmonic import local_harmonic_forces
        plan, NX = Plan(), sc['nx']
        els = [lib(Element, d, NX, plan, what='constructor') for d in sc['els']]
        vs = VibrationSystem(np.eye(NX), np.eye(NX))
        for e in els:
            vs.add_nl_force(e.obj)
        u0, us = {}, sc['us']
        real = True
        last = 'new'
        disturbed = strong = 0

        def expect(e, j, U, w, h, Nt):
            live = None if j not in u0 else e.Q @ np.array(u0[j])
            return e.ref_aft(U, w, list(h), Nt, live)

        def scale(e, F):
            return np.max(np.abs(F)) + e.peak + e.d['p']['fs']

        def derivative(e, j, out, U, w, h, Nt, want, s):
            if (e.ref.hysteretic and not e.rough and random.Random(int(1e6 * w)).random() < 0.5):
                return
            J, Jw = np.asarray(out[1], dtype=float), np.asarray(out[2], dtype=float).reshape(-1) if len(out) > 2 else None
            if J.shape != (len(U), len(U)) or not np.all(np.isfinite(J)):
                raise Violation('aft-derivative', '%s: derivative of shape %s' % (e.kind, J.shape))
            r = random.Random(int(1e6 * w) + 1)
            d = np.array([r.uniform(-1, 1) for _ in U]) * us
            dw = r.uniform(-1, 1) if Jw is not None else 0.0
            fp, fm = {}, {}
            for eps in (1e-5, 1e-6):
                fp[eps] = expect(e, j, U + eps * d, w + eps * dw, h, Nt)
                fm[eps] = expect(e, j, U - eps * d, w - eps * dw, h, Nt)
            an = J @ d + (Jw * dw if Jw is not None else 0.0)
            k, c = derivative_mismatch(an, want, fp, fm, 1e-13 * s)
            run.hit('derivative')
            if k is not None:
                raise Violation('aft-derivative', '%s after %s: h=%s Nt=%d directional derivative %d is %.9g, the steady state '
                                'gives %.9g' % (e.kind, last, list(h), Nt, k, an[k], c[k]))

        def aft(op, scribble):
            nonlocal strong
            h, U, w, Nt = np.array(op[1]), np.array(op[2]), op[3], op[4]
            tot, stot, ktot = 0, 0, 0
            for j, e in enumerate(els):
                Uc, hc = U.copy(), h.copy()
                want = expect(e, j, U, w, h, Nt)
                out = lib(e.obj.aft, Uc, w, hc, Nt, what='aft')
                s = scale(e, want)
                if not close(out[0], want, s, 1e-8):
                    raise Violation('aft-force', '%s after %s: h=%s Nt=%d coefficients %s, steady state gives %s' % (
                        e.kind, last, op[1], Nt, np.asarray(out[0]), want))
                derivative(e, j, out, U, w, h, Nt, want, s)
                if not (same(Uc, U) and same(hc, h)):
                    raise Violation('argument-changed', '%s.aft changed its arguments' % e.kind)
                tot, stot = tot + want, stot + s
                ut = basis(op[1], Nt) @ (U.reshape(-1, NX) @ e.Q.T)
                lin = np.max(np.abs(want)) / (np.max(np.abs(ut)) + 1e-300)
                strong += 1
                run.state(e.kind, tuple(op[1]), last, int(np.log10(lin + 1e-300)))
                if scribble:
                    for a in out:
                        if isinstance(a, np.ndarray) and a.flags.writeable:
                            a *= -3.0
                    run.hit('fault.scribble')
            out = lib(vs.total_aft, U.copy(), w, h.copy(), Nt, what='total_aft')
            if not close(out[0], tot, stot, 1e-8):
                raise Violation('total-aft', 'sum of forces %s, expected %s' % (out[0], tot))
            if all(e.kind in ('dry2', 'dry3', 'roughTAN', 'roughMIF', 'cubic', 'quintic', 'cdamp', 'uni', 'iwanbb', 'poly') for e in els):
                o2 = lib(vs.total_aft, U.copy(), w, h.copy(), Nt, calc_grad=False, what='total_aft(calc_grad=False)')
                if not close(o2[0], tot, stot, 1e-8):
                    raise Violation('total-aft', 'without gradient %s, expected %s' % (o2[0], tot))
                run.hit('nograd')

        def loops(op):
            h, U, w, Nt = np.array(op[1]), np.array(op[2]), op[3], op[4]
            use = [(j, e) for j, e in enumerate(els) if e.kind not in ('jjenkins', 'jvjenkins')]
            v2 = VibrationSystem(np.eye(NX), np.eye(NX))
            for j, e in use:
                v2.add_nl_force(e.obj)
            res = lib(local_harmonic_forces, v2, U.copy(), w, h.copy(), Nt=Nt, what='local_harmonic_forces')
            for (j, e), (Uh, ut, Fh, ft) in zip(use, res):
                live = None if j not in u0 else e.Q @ np.array(u0[j])
                u_, f_ = e.ref_loop(U, w, list(h), Nt, live)
                s = scale(e, f_)
                if not close(ut, u_, np.max(np.abs(u_)) + 1e-300, 1e-9):
                    raise Violation('local-loop', '%s: displacement series differs' % e.kind)
                if not close(ft, f_, s, 1e-8):
                    k = int(np.argmax(np.max(np.abs(np.asarray(ft) - f_), axis=1)))
                    raise Violation('local-loop', '%s: force %s at instant %d, steady state gives %s' % (
                        e.kind, np.asarray(ft)[k], k, f_[k]))
                if not close(Fh, project(list(h), f_), s, 1e-8):
                    raise Violation('local-loop', '%s: harmonics of the local loop differ' % e.kind)
                run.hit('loop')

        for op in sc['ops']:
            name = op[0]
            run.log(*[str(x)[:60] for x in op])
            run.hit('op.' + name)
            if name == 'aft':
                aft(op, op[5])
            elif name == 'loops':
                loops(op)
            elif name == 'failaft':
                plan.arm(op[5])
                try:
                    vs.total_aft(np.array(op[2]), op[3], np.array(op[1]), op[4])
                except InjectedError:
                    pass
                if plan.disarm():
                    run.hit('fault.product')
                    disturbed += 1
            elif name == 'lineaft':
                h, U, w, Nt = np.array(op[1]), np.array(op[2]), op[3], op[4]
                lib(vs.total_aft, U.copy(), w, h, Nt, what='total_aft')      # compiles outside the counted part
                with LineInterrupt() as li:
                    lib(vs.total_aft, U.copy(), w, h, Nt, what='total_aft')
                n = int(op[5] * li.count)
                with LineInterrupt(n, op[6]) as li:
                    try:
                        vs.total_aft(U.copy(), w, h, Nt)
                    except (KeyboardInterrupt, MemoryError) as e:
                        if not getattr(e, 'dst_injected', False):
                            raise
                if li.fired:
                    run.hit('fault.line-' + op[6])
                    run.log('line', li.where)
                    disturbed += 1
            elif name == 'static':
                for e in els:
                    if (e.ref is None or e.ref.static) and e.kind != 'cdamp':
                        if hasattr(e.obj, 'init_history'):
                            lib(e.obj.init_history, what='init_history')
                        if op[2] and e.obj.nl_force_type() == 1:
                            lib(e.obj.force, np.array(op[1]), update_hist=True, what='force')
                        else:
                            lib(e.obj.force, np.array(op[1]), what='force')
                disturbed += 1
            elif name == 'prestress':
                real = not op[1]
                lib(vs.reset_real_mu if real else vs.set_prestress_mu, what=name)
                for e in els:
                    if e.ref is not None and e.ref.has_prestress:
                        e.ref.mu(real)
                disturbed += 1
            elif name == 'aftinit':
                X = np.array(op[1])
                lib(vs.set_aft_initialize, X, what=name)
                for j, e in enumerate(els):
                    if hasattr(e.obj, 'set_aft_initialize'):
                        u0[j] = op[1]
                X += 1e3
                disturbed += 1
            last = name
        run.nontrivial = strong > 0 and disturbed > 0
