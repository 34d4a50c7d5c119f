"""V01: residual evaluations of one VibrationSystem under arbitrary histories of configuration changes and failures."""
import random

import numpy as np

from .core import Check, Violation, InjectedError, lib
from .forcelib import sibling, Element, gen_element, Plan, LineInterrupt, RefSystem

JAXED = ('dry2', 'dry3', 'jjenkins')
GRADFREE = ('dry2', 'dry3', 'cubic', 'quintic', 'cdamp', 'uni', 'iwanbb', 'poly')     # aft accepts calc_grad
SYS_KINDS = ['jenkins', 'vjenkins', 'iwan', 'viwan', 'dry2', 'dry3', 'jjenkins', 'cubic', 'cubic', 'quintic', 'cdamp',
             'uni', 'iwanbb', 'poly']
TYPES = ['hbm', 'dfl', 'epmc', 'amp', 'phase', 'phasedA', 'vprnm', 'vphase', 'base', 'static', 'total']


def spd(rng, n, scale=1.0, floor=0.5):
    A = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    return scale * (A @ A.T / n + floor * np.eye(n))


def matrices(seed, n):
    rng = random.Random(seed)
    return spd(rng, n), spd(rng, n, 3.0), spd(rng, n, 0.1, 0.05)


class V01(Check):
    pid = 'V01'
    runs_quick = 320
    runs_thorough = 12000
    rule = 'a run with at least three evaluations of at least two kinds, a configuration change and a failed or interrupted evaluation'
    real = 'VibrationSystem (every residual and configuration method), all nonlinear forces except rough contact, harmonic utilities'
    stub = 'none (faults enter through the Q and T matrices and at interpreter line events)'
    state_measure = 'distinct (evaluation kind, element kinds, harmonic set, friction mode, preceding operation, gradient flag) tuples'
    assumptions = ['the time integration behind shooting_res is not evaluated here']

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2, 3])
        us = 10.0 ** rng.uniform(-2, 1)
        gf = rng.random() < 0.5

        def el():
            return gen_element(rng, [k for k in SYS_KINDS if (not gf or k in GRADFREE) and not (nojax and k in JAXED)], us)
        nojax = gf and rng.random() < 0.3 or rng.random() < 0.4       # JAX elements compile for each harmonic set
        els = [el() for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        pool = [self.gen_eval(rng, n, us, nojax) for _ in range(2)]
        if nojax:
            pool[1] = self.gen_eval(rng, n, us, True, pool[0])
        damp = [[rng.randrange(10 ** 6), [round(rng.uniform(0, 0.2), 4), round(rng.uniform(0, 0.1), 4)]] for _ in range(2)]

        def ev():
            e = self.gen_eval(rng, n, us, nojax)
            r = rng.random()
            if r < 0.55:        # the same residual again, at the same or at another point
                e[:3] = rng.choice(pool)[:3]
                if r < 0.15:
                    e[4] = pool[0][4]
            return e
        ops = []
        for _ in range(rng.randrange(3, 12)):
            r = rng.random()
            if r < 0.52:
                ops.append(['eval'] + ev())
            elif r < 0.62:
                ops.append(['failev'] + ev() + [rng.randrange(6)])
            elif r < 0.70:
                ops.append(['lineev'] + ev() + [rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError'])])
            else:
                twin = ev() if rng.random() < 0.5 else None        # the same evaluation before and after the change
                if twin:
                    ops.append(['eval'] + twin)
                if r < 0.78:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        ops.append(['setC', rng.choice(['C', 'ab', 'ab', 'both', 'none'])] + rng.choice(damp))
                elif r < 0.84:
                    ops.append(['prestress', rng.random() < 0.6])
                elif r < 0.90:
                    ops.append(['aftinit', [round(rng.uniform(-1, 1), 3) * us for _ in range(n)]])
                elif r < 0.95:
                    ops.append(['add', el()])
                else:
                    ops.append(['other', rng.randrange(10 ** 6)])
                if twin:
                    ops.append(['eval'] + twin)
        if any(e['kind'] in ('dry2', 'dry3') for e in els) and rng.random() < 0.6:
            twin = ev()
            for _ in range(rng.choice([1, 2])):
                ops.append(['aftinit', [round(rng.uniform(-1, 1), 3) * us for _ in range(n)]])
                ops.append(['eval'] + twin)
        ops.append(['eval'] + ev())
        alle = els + [o[1] for o in ops if o[0] == 'add']
        if any(e['kind'] in ('iwan', 'viwan') for e in alle):
            ops = [o for o in ops if o[0] != 'prestress']
        return {'n': n, 'us': us, 'els': els, 'ops': ops, 'mat': rng.randrange(10 ** 6), 'gf': gf,
                'buf': rng.random() < 0.4,
                'init': rng.choice(['C', 'ab', 'none', 'both']), 'ab': damp[0][1]}

    def gen_eval(self, rng, n, us, nojax=False, like=None):
        t = like[0] if like else rng.choice(TYPES)
        h = rng.choice([[0, 1, 2, 3], [1, 3], [1, 3, 5]] if t in ('vprnm', 'vphase') else [[0, 1, 2, 3], [1, 3], [0, 1]])
        if like:
            h = sibling(rng, like[1], (1,))
            if t in ('vprnm', 'vphase') and h[-1] < 2:
                h = [1, 2]
        elif nojax and rng.random() < 0.3:
            h = sibling(rng, h, (1, 3))
        return [t, h, rng.choice([32, 64]), rng.random() < 0.6, rng.randrange(10 ** 8)]

    def shrink(self, sc):
        for k in range(len(sc['ops'])):
            yield dict(sc, ops=sc['ops'][:k] + sc['ops'][k + 1:])
        for k in range(len(sc['els'])):
            if len(sc['els']) > 1:
                yield dict(sc, els=sc['els'][:k] + sc['els'][k + 1:])

    @staticmethod
    def arguments(t, h, Nt, seed, n, us, M, K):
        """Everything one evaluation needs, from its seed: (call(vs, calc_grad), reference(rs, x), x)."""
        rng = random.Random(seed)
        nh = sum(1 if k == 0 else 2 for k in h)
        h0 = h[0] == 0
        s = max(1.0, np.max(np.abs(K))) * us
        U = np.array([rng.uniform(-1.5, 1.5) for _ in range(n * nh)]) * us
        U[n * (2 + h0):] *= 0.4
        if rng.random() < 0.2:        # sliders that stick: the start of the loop matters
            U[n * h0:] *= 0.03
        w = rng.choice([rng.uniform(0.4, 3), 1.3 + rng.uniform(-0.05, 0.05)])
        Fl = np.array([rng.uniform(-1, 1) for _ in range(n * nh)]) * s
        ha = np.array(h)
        kw = {'Nt': Nt}
        recov = np.array([rng.uniform(-1, 1) for _ in range(n)])
        order = rng.choice([0, 1, 2])
        amp = rng.uniform(0.3, 2) * us
        rhi = rng.choice([k for k in h if k > 1] + [3] * (3 in h) or [3])
        filt = None if rng.random() < 0.5 else np.array([rng.uniform(-1, 1) for _ in range(n)])
        scale = rng.choice([1.0, 1.0, 37.0])
        lam = rng.uniform(-2, 2)
        Fp = Fl.copy()
        Fp[(1 + h0) * n:] = 0
        vk = dict(kw, superharmonic_filter=filt, constraint_scale=scale)
        if t == 'hbm':
            x = np.append(U, w)
            return x, [x, Fl, ha], 'hbm_res', kw, lambda rs, x: rs.hbm(x[:-1], x[-1], Fl, h, Nt)
        if t == 'dfl':
            x = np.append(U, lam)
            return x, [x, w, Fl, ha], 'hbm_res_dFl', kw, lambda rs, x: rs.dfl(x, w, Fl, h, Nt)
        if t == 'epmc':
            x = np.hstack((U / us, w, rng.uniform(0, 0.3), np.log10(us) + rng.uniform(-0.5, 0.5)))
            if h0:
                x[:n] *= us
            return x, [x, Fl, ha], 'epmc_res', kw, lambda rs, x: rs.epmc(x, Fl, h, Nt)
        if t == 'amp':
            x = np.hstack((U, lam, w))
            return x, [x, Fl, ha, recov, amp, order], 'hbm_amp_control_res', kw, lambda rs, x: rs.amp(x, Fl, h, Nt, recov, amp, order)
        if t == 'phase':
            x = np.hstack((U, lam, rng.uniform(-2, 2), w))
            return x, [x, Fp, ha, recov, amp, order], 'hbm_amp_phase_control_res', kw, \
                lambda rs, x: rs.phase(x, Fp, h, Nt, recov, amp, order)
        if t == 'phasedA':
            x = np.hstack((U, lam, rng.uniform(-2, 2), amp))
            return x, [x, Fp, ha, recov, w, order], 'hbm_amp_phase_control_dA_res', kw, \
                lambda rs, x: rs.phase(np.append(x[:-1], w), Fp, h, Nt, recov, x[-1], order)
        if t == 'vprnm':
            x = np.hstack((U, w, lam))
            return x, [x, ha, rhi, Fl], 'vprnm_res', vk, lambda rs, x: rs.vprnm(x, h, rhi, Fl, Nt, filt, scale)
        if t == 'vphase':
            x = np.hstack((U, lam, rng.uniform(-2, 2), w, amp))
            return x, [x, Fp, ha, rhi, recov, order], 'vprnm_amp_phase_res', vk, \
                lambda rs, x: rs.vphase(x, Fp, h, rhi, recov, order, Nt, filt, scale)
        if t == 'base':
            bd = rng.randrange(n)
            flag = np.array([i == bd for i in range(n)]) if n > 1 else np.array([False])
            nb = int(flag.sum())
            Ub = np.array([rng.uniform(-1, 1) for _ in range(nb * nh)]) * us
            x = np.append(U[:(n - nb) * nh], w)
            return x, [x, Ub, flag, ha], 'hbm_base_res', kw, lambda rs, x: rs.base(x, Ub, flag, h, Nt)
        if t == 'total':
            x = np.append(U, w)
            return x, [U, w, ha], 'total_aft', kw, lambda rs, x: rs.fnl(x[:-1], x[-1], h, Nt)
        x = U[:n]
        return x, [x, Fl[:n]], 'static_res', {}, lambda rs, x: rs.static(x, Fl[:n])

    def execute(self, sc, run):
        from tmdsimpy.vibration_system import VibrationSystem
        n, us = sc['n'], sc['us']
        M, K, C = matrices(sc['mat'], n)
        plan = Plan()
        kw = {}
        if sc['init'] in ('C', 'both'):
            kw['C'] = C.copy()
        if sc['init'] in ('ab', 'both'):
            kw['ab'] = list(sc['ab'])
        Mv, Kv = M.copy(), K.copy()
        vs = lib(VibrationSystem, Mv, Kv, what='constructor', **kw)
        Cr = sc['ab'][0] * M + sc['ab'][1] * K if 'ab' in kw else C if 'C' in kw else np.zeros((n, n))
        rs = RefSystem(M, K, Cr)
        scale0 = max(1.0, np.max(np.abs(K))) * us

        def add(d):
            e = lib(Element, d, n, plan, what='constructor')
            if e.kind in ('jenkins', 'vjenkins'):
                e.obj.init_history()
            lib(vs.add_nl_force, e.obj, what='add_nl_force')
            if not real and e.ref.has_prestress:
                # joins with real friction; the next prestress/real call applies to it as well
                pass
            rs.els.append(e)

        real = True
        for d in sc['els']:
            add(d)
        last, kinds, evals, changes, faults = 'new', set(), 0, 0, 0
        buffers = {}

        def evaluate(op, fault=None):
            t, h, Nt, grad, seed = op[1:6]
            x, args, meth, kwc, ref = self.arguments(t, h, Nt, seed, n, us, M, K)
            gradfree = all(e.kind in GRADFREE for e in rs.els)
            kwc = dict(kwc)
            if t in ('base', 'static'):
                grad = True
            else:
                grad = grad or not gradfree
                if not grad:
                    kwc['calc_grad'] = False
            if t == 'static' and any(not e.ref.static for e in rs.els):
                return
            if fault == 'matmul':
                plan.arm(op[6])
                try:
                    getattr(vs, meth)(*[np.copy(a) if isinstance(a, np.ndarray) else a for a in args], **kwc)
                except InjectedError:
                    pass
                if plan.disarm():
                    run.hit('fault.product')
                    return True
                return
            if fault == 'line':
                call = lambda: getattr(vs, meth)(*[np.copy(a) if isinstance(a, np.ndarray) else a for a in args], **kwc)
                lib(call, what=meth)
                with LineInterrupt() as li:
                    lib(call, what=meth)
                with LineInterrupt(int(op[6] * li.count), op[7]) as li:
                    try:
                        call()
                    except (KeyboardInterrupt, MemoryError) as e:
                        if not getattr(e, 'dst_injected', False):
                            raise
                if li.fired:
                    run.hit('fault.line-' + op[7])
                    run.log('line', li.where)
                    return True
                return
            if t == 'static':
                vs.init_force_history()
                for e in rs.els:
                    e.ref.reset()
            live = [np.copy(a) if isinstance(a, np.ndarray) else a for a in args]
            if sc.get('buf'):       # the caller reuses its arrays
                for j, a in enumerate(live):
                    if isinstance(a, np.ndarray):
                        b = buffers.setdefault((meth, j, a.shape, a.dtype.str), a)
                        b[:] = a
                        live[j] = b
            out = lib(getattr(vs, meth), *live, what=meth, **kwc)
            for a, b in zip(args, live):
                if isinstance(a, np.ndarray) and not (np.array_equal(a, b) and a.dtype == b.dtype):
                    raise Violation('argument-changed', '%s changed an argument' % meth)
            want = ref(rs, x)
            R = np.asarray(out[0], dtype=float)
            # linear parts are bounded by |E||U|; constraint rows are scaled by their own terms
            mag = 40 * scale0 + np.nanmax(np.abs(want)) + sum(e.peak + e.d['p']['fs'] for e in rs.els)
            k = {'epmc': 2, 'amp': 1, 'phase': 2, 'phasedA': 2, 'vprnm': 1, 'vphase': 3}.get(t, 0)
            tol = np.full(want.shape, 1e-9 * mag)
            if k:
                tol[-k:] = 1e-9 * 40 * us ** (2 if t == 'amp' else 1) + 1e-8 * np.abs(want[-k:])
            if t == 'epmc':
                tol[-2:] += 1e-9 * (1 + 40 * scale0)
            if t in ('vprnm', 'vphase'):
                # the angle is undefined where the superharmonic forcing vanishes
                tol[-1] = 1e-7 * 37 if rs.angle_terms > 1e-6 * mag else np.inf
            if R.shape != want.shape:
                raise Violation('residual-shape', '%s returns shape %s, the equations have %s' % (meth, R.shape, want.shape))
            bad = ~(np.abs(R - want) <= tol) & (tol < np.inf)
            if np.any(bad):
                k = int(np.argmax(bad))
                raise Violation('residual', '%s (h=%s, Nt=%d, after %s): entry %d is %.12g, the documented equation gives %.12g'
                                % (meth, h, Nt, last, k, R[k], want[k]))
            if len(out) >= 2:
                self.gradient(t, meth, out, rs, ref, x, want, tol, seed, run)
            for a in out:
                if isinstance(a, np.ndarray) and a.flags.writeable and seed % 2:
                    a *= 0
            run.state(t, tuple(sorted(e.kind for e in rs.els)), tuple(h), real, last, grad)
            run.hit('eval.' + t)
            kinds.add(t)
            return True

        for op in sc['ops']:
            name = op[0]
            run.log(*[str(o)[:60] for o in op])
            run.hit('op.' + name)
            if name == 'eval':
                evals += bool(evaluate(op))
            elif name == 'failev':
                faults += bool(evaluate(op, 'matmul'))
            elif name == 'lineev':
                faults += bool(evaluate(op, 'line'))
            elif name == 'setC':
                Cn = matrices(op[2], n)[2]
                k2 = {}
                if op[1] in ('C', 'both'):
                    k2['C'] = Cn.copy()
                if op[1] in ('ab', 'both'):
                    k2['ab'] = list(op[3])
                lib(vs.set_new_C, what='set_new_C', **k2)
                if 'ab' in k2:
                    rs.C = op[3][0] * M + op[3][1] * K
                elif 'C' in k2:
                    rs.C = Cn
                changes += 1
            elif name == 'prestress':
                real = not op[1]
                lib(vs.reset_real_mu if real else vs.set_prestress_mu, what=name)
                for e in rs.els:
                    if e.ref.has_prestress:
                        e.ref.mu(real)
                changes += 1
            elif name == 'aftinit':
                X = np.array(op[1])
                lib(vs.set_aft_initialize, X, what=name)
                for j, e in enumerate(rs.els):
                    if hasattr(e.obj, 'set_aft_initialize'):
                        rs.u0[j] = op[1]
                X += 3.0
                changes += 1
            elif name == 'add':
                add(op[1])
                changes += 1
            elif name == 'other':     # a second system built from the same matrices and forces
                v2 = VibrationSystem(Mv, Kv, ab=[0.3, 0.1])
                for e in rs.els[:1]:
                    v2.add_nl_force(e.obj)
                v2.set_new_C(np.eye(n) * 9.0)
                v2.add_nl_force(lib(Element, {'kind': 'cubic', 'seed': 3, 'p': {'k': 5.0, 'fs': 1.0}}, n, None).obj)
                x = np.append(np.ones(3 * n) * us, 1.0)
                lib(v2.hbm_res, x, np.zeros(3 * n), np.array([0, 1]), Nt=16, what='hbm_res')
                changes += 1
            last = name
        if not (np.array_equal(Mv, M) and np.array_equal(Kv, K)):
            raise Violation('argument-changed', 'the mass or stiffness matrix was changed')
        run.nontrivial = evals >= 3 and len(kinds) >= 2 and changes > 0 and faults > 0

    def gradient(self, t, meth, out, rs, ref, x, want, tol, seed, run):
        """Directional derivative of the independent equations against the returned Jacobians."""
        rng = random.Random(seed + 1)
        # unknowns in the order of the returned derivative columns
        J = np.asarray(out[1], dtype=float)
        cols = [J]
        if len(out) > 2:
            cols.append(np.asarray(out[2], dtype=float).reshape(-1, 1))
        J = np.hstack(cols)
        if J.shape != (len(want), len(x)):
            raise Violation('gradient-shape', '%s: derivative of shape %s for %d equations and %d unknowns' % (meth, J.shape, len(want), len(x)))
        J = np.where((tol < np.inf)[:, None], J, 0.0)
        if not np.all(np.isfinite(J)):
            raise Violation('gradient', '%s: non-finite derivative' % meth)
        d = np.array([rng.uniform(-1, 1) for _ in range(len(x))])
        d *= np.where(np.abs(x) > 0, np.abs(x), 1e-300)
        an = J @ d
        ok = []
        for eps in (1e-5, 1e-6):
            p, m = ref(rs, x + eps * d), ref(rs, x - eps * d)
            fwd, bwd = (p - want) / eps, (want - m) / eps
            noise = 3 * tol * 1e-5 / eps + np.abs(fwd - bwd)
            ok.append(((p - m) / (2 * eps), noise))
        # a kink inside the stencil shows up as a mismatch of the one-sided or of the two central differences
        (c1, n1), (c2, n2) = ok
        lim = 1e-4 * (np.abs(an) + np.max(np.abs(an)) * 1e-3) + 5 * n1 + 5 * n2 + 5 * np.abs(c1 - c2) + 1e-5 * np.max(np.abs(J) @ np.abs(d))
        bad = np.abs(an - c1) > lim
        run.hit('gradient')
        if np.any(bad):
            k = int(np.argmax(bad))
            raise Violation('gradient', '%s: row %d has directional derivative %.9g, the equations give %.9g' % (meth, k, an[k], c1[k]))
