"""P04: a continuation run killed again and again, resumed each time from what is on disk."""
import copy
import os
import random

import numpy as np

from .core import Violation, lib
from .checks_store import StoreCheck, Cache, rows_equal, describe, Summary, check_log, same
from .contsim import ContSim, gen_scenario, shrink_scenario
from .families import Branch
from .fsim import FSim, fresh_module


class ResumeSim(ContSim):
    """A continuation run that starts from a stored row."""
    row = None

    def inputs(self):
        X0, CtoP, RPtoC = super().inputs()
        if self.row is not None:
            X0 = np.array(self.row)
            self.lam0 = float(self.row[-1])
        return X0, CtoP, RPtoC


class P04(StoreCheck):
    pid = 'P04'
    runs_quick = 1500
    runs_thorough = 60000
    rule = ('one seed draws a monotone solution branch, a continuation configuration, a corrector-failure plan and 1-4 kills at '
            'chosen file operations (optionally inside a write) of the running analysis, each followed by a restart from the '
            'last stored row; non-trivial = at least one kill with stored rows; distinct by event-log digest')
    real = ('tmdsimpy.Continuation, utils.continuation (continuation_save, print_epmc_stats, combine_callback_funs), '
            'postprocess.continuation (hermite_interp, hermite_upsample, linear_interp), numpy archives')
    stub = 'corrector outcomes, closed-form solution branches, storage device and process life (LD_PRELOAD seam)'
    state_measure = 'distinct (life, rows on disk, end kind, rows of this life) signatures'
    assumptions = ['a user restarts from the last row whose solution is not NaN']

    def gen(self, rng, i, tier):
        while True:
            sc = gen_scenario(rng, 'mixed', small=True)
            if sc['branch']['kind'] == 'mono':
                break
        sc['plan']['cb'] = {}
        for site in ('solve', 'eval'):
            sc['plan'][site] = {k: v for k, v in sc['plan'][site].items() if v[0] != 'raise'}
        sc['plan']['solve'].pop('0', None)
        sc['plan']['eval'] = {k: v for k, v in sc['plan']['eval'].items() if int(k) > 12}
        sc['combine'], sc['use_cb'], sc['solver'] = False, True, 'newton'
        sc['config']['verbose'] = -1
        sc['how'] = rng.choice(['str', 'path', 'rel'])
        sc['kills'] = [{'at': round(rng.random(), 4), 'how': rng.choice(['kill', 'kill', 'torn', 'power']), 'r': round(rng.random(), 4),
                        'seed': rng.randrange(10 ** 6)} for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        sc['factor'] = rng.choice([2, 3, 10])
        return sc

    def shrink(self, sc):
        for k in range(len(sc['kills'])):
            c = copy.deepcopy(sc)
            del c['kills'][k]
            yield c
        for c in shrink_scenario(sc):
            yield c

    def simulate(self, sc, run, mk):
        cache = Cache()
        root = mk()
        disk = []            # rows on disk, as (X, d)
        logrows, tears = [], 0
        seg = []             # (start index, end index, ended normally) of each life on disk
        summ = Summary({'kind': 'epmc', 'h': [1], 'nd': 1, 'nrec': 1, 'seed': 1, 'order': 0, 'corder': 0, 'freq': 1., 'amp': 1.})
        wide = Branch(sc['branch']).N >= 2
        lives = list(sc['kills']) + [None, None, None]
        done = False
        for li, kill in enumerate(lives):
            if done:
                break
            mod = fresh_module()
            s2 = copy.deepcopy(sc)
            if kill is None:
                s2['plan'] = {'solve': {}, 'eval': {}, 'cb': {}}
                s2['config'].update(MaxSteps=400, TargetNfev=50, MaxIncrease=2.0)
            sim = ResumeSim(s2, run)
            good = [r for r in disk if np.all(np.isfinite(r[0]))]
            sim.row = good[-1][0] if good else None
            lam_target = sim.branch.lam(sim.branch.s1)
            if sim.row is not None and (sim.row[-1] - lam_target) * np.sign(lam_target - sim.branch.lam(sim.branch.s0)) >= 0:
                break
            fs = FSim(root, run)
            fs.start()
            arg = self.path_arg(root, 'run.npz', sc['how'])
            log = self.path_arg(root, 'sum.dat', sc['how'])
            mine, bounds = [], []

            def hook(X, d):
                b = {'img': len(fs.images), 'pt': (np.array(X), np.array(d)), 'mid': None, 'n': len(mine)}
                bounds.append(b)

                def mid(X, d):
                    b['mid'] = len(fs.images)
                funs = [lambda X, d: mod.continuation_save(X, d, arg), mid]
                if wide:
                    funs.append(lambda X, d: mod.print_epmc_stats(X, d, log))
                lib(mod.combine_callback_funs, funs, X, d, what='callbacks')
                mine.append(b['pt'])
            sim.hook = hook
            with fs:
                sim.run()
            if isinstance(sim.exc_obj, Violation):
                raise sim.exc_obj
            if sim.exc is not None:
                if sim.over_budget:
                    raise Violation('no-termination', 'the resumed run did not end')
                if sim.init is None or not getattr(sim, 'nsolves', 0) or sim.exc == 'AssertionError':
                    raise Violation('cannot-resume', 'life %d did not start from the stored row: %s %s' % (li, sim.exc, sim.exc_obj))
                raise Violation('unexpected-exception', '%s: %s' % (sim.exc, sim.exc_obj))
            sim.parse()
            K = len(fs.images)
            img, k = fs.snap(), None
            if kill is not None and K > 1:
                k = 1 + min(K - 2, int(kill['at'] * (K - 1)))
                if kill['how'] == 'kill':
                    img = fs.images[k][3]
                elif kill['how'] == 'torn':
                    ws = [j for j in range(1, K) if fs.images[j][1] == 'write']
                    k = ws[min(len(ws) - 1, int(kill['at'] * len(ws)))] if ws else k
                    img = fs.torn(k, kill['r']) or fs.images[k][3]
                else:
                    img = fs.power_loss(k, random.Random(kill['seed']))
                    if wide:      # summary files are not synced: keep what the kill leaves
                        if 'sum.dat' in fs.images[k][3]:
                            img['sum.dat'] = fs.images[k][3]['sum.dat']
                        else:
                            img.pop('sum.dat', None)
                run.hit('fault.' + kill['how'])
            # what must be on disk
            cur = None
            if k is None:
                must = may = disk + mine
                logrows = logrows + [(p[0], True) for p in mine]
            else:
                for b in bounds:
                    if b['img'] <= k:
                        cur = b
                must = disk + (mine[:cur['n']] if cur else [])
                may = must + ([cur['pt']] if cur else [])
                logrows = logrows + [(p[0], True) for p in (mine[:cur['n']] if cur else [])]
                if cur:
                    logrows.append((cur['pt'][0], False))
                    tears += 1
                if kill['how'] == 'power':
                    must = disk
            got = cache.load(img['run.npz'][1]) if 'run.npz' in img else None
            n = 0 if got is None or isinstance(got, Exception) else got[1].shape[0]
            if (got is None and must) or isinstance(got, Exception) or (got is not None and (
                    n < len(must) or not rows_equal(got, may[:n]))):
                raise Violation('history-damaged', 'life %d ended by %s: run.npz is %s, expected %d rows' % (
                    li, kill['how'] if k is not None else 'exit', describe(got), len(must)))
            start = len(disk)
            disk = may[:n]
            if n > start:
                seg.append((start, n, n - start == len(mine)))      # all-NaN row of a run that returned
            if k is not None and n:
                run.nontrivial = True
            run.log('life', li, kill['how'] if k is not None else 'exit', n)
            run.state(li, n, kill['how'] if k is not None else 'exit', n - start)
            if wide:
                t = img['sum.dat'][1].decode() if 'sum.dat' in img else None
                check_log(t, summ, logrows, tears, 'life %d' % li)
            root = mk()
            fs.materialise(img, root)
            if k is None and sim.rows is not None and kill is None:
                if sim.pending and any(a['act'] == 'fail' for a in sim.pending):
                    continue
                past = (disk[-2][0][-1] - lam_target) * np.sign(lam_target - sim.branch.lam(sim.branch.s0)) >= 0 if len(disk) > 1 else False
                if past:
                    done = True
                    run.hit('resumed-to-target')
                elif not sim.pending and len(mine) < s2['config']['MaxSteps']:
                    raise Violation('no-progress', 'the last life stopped at lam=%r before %r' % (
                        disk[-2][0][-1] if len(disk) > 1 else None, lam_target))
        self.whole(sc, run, disk, seg, sim.branch)

    def whole(self, sc, run, disk, seg, br):
        sgn = np.sign(br.s1 - br.s0)
        last_s = None
        for a, b, ended in seg:
            rows = disk[a:b]
            if not np.all(np.isfinite(rows[0][0])) or not np.all(np.isnan(rows[0][1])):
                raise Violation('framing', 'first stored row of a run: X=%s dir=%s' % (rows[0][0], rows[0][1]))
            for j, (X, d) in enumerate(rows[1:], 1):
                if not np.all(np.isfinite(d)):
                    raise Violation('framing', 'stored direction %d of a run is %s' % (j, d))
                if np.any(np.isnan(X)) and not (ended and j == len(rows) - 1 and np.all(np.isnan(X))):
                    raise Violation('framing', 'row %d of %d has NaN in it' % (j, len(rows)))
            pts = [r for r in rows if np.all(np.isfinite(r[0]))]
            ss = np.array([br.s_of(r[0]) for r in pts])
            off = max(br.off_branch(r[0]) for r in pts)
            if off > 1e-6:
                raise Violation('off-branch', 'a stored row is %.3g off the solution branch' % off)
            if np.any(np.diff(ss) * sgn <= 0):
                raise Violation('branch-reversed', 'stored rows %s do not move forward' % ss)
            if last_s is not None and abs(ss[0] - last_s) > 1e-6 * (1 + abs(last_s)):
                raise Violation('resume-point', 'the resumed run starts at %.9g, the stored history ended at %.9g' % (ss[0], last_s))
            last_s = ss[-1]
            self.interpolate(sc, run, br, rows, len(pts))

    def interpolate(self, sc, run, br, rows, m):
        from tmdsimpy.postprocess import continuation as post
        if m < 3 or (br.lam(br.s1) < br.lam(br.s0)):
            return
        grads = [rows[j + 1][1] for j in range(min(m, len(rows) - 1))]
        P = np.array([r[0] for r in rows[:len(grads)]])
        G = np.array(grads)
        if P.shape[0] < 3:
            return
        Pk, Gk = P.copy(), G.copy()
        f = sc['factor']
        out = lib(post.hermite_upsample, P, G, upsample_freq=f, what='hermite_upsample')
        if not (same(P, Pk) and same(G, Gk)):
            raise Violation('argument-changed', 'interpolation modified the history')
        M = P.shape[0]
        if out.shape != ((M - 1) * f + 1, P.shape[1]):
            raise Violation('interpolation-shape', 'upsampling %d points by %d gives %s' % (M, f, out.shape))
        un = np.hstack((br.scale, br.lscale))
        # independent cubic Hermite with the exact slopes of the branch
        for i in range(M - 1):
            l0, l1 = P[i, -1], P[i + 1, -1]
            h = l1 - l0
            t0, t1 = br.tangent(br.s_of(P[i])), br.tangent(br.s_of(P[i + 1]))
            for q in range(f + 1):
                u = q / f
                row = out[i * f + q]
                m0, m1 = t0[:-1] / t0[-1] * h, t1[:-1] / t1[-1] * h
                ref = (2 * u ** 3 - 3 * u ** 2 + 1) * P[i, :-1] + (u ** 3 - 2 * u ** 2 + u) * m0 \
                    + (-2 * u ** 3 + 3 * u ** 2) * P[i + 1, :-1] + (u ** 3 - u ** 2) * m1
                tol = 1e-5 * (np.abs(m0) + np.abs(m1)) + 1e-8 * un[:-1] * (1 + np.linalg.norm(P[i, :-1] / un[:-1]))
                if np.any(~(np.abs(row[:-1] - ref) <= tol)) or abs(row[-1] - (l0 + u * h)) > 1e-9 * (abs(l0) + abs(h) + un[-1]):
                    raise Violation('interpolation', 'stored points and directions interpolate to %s at lam=%.6g, the branch '
                                    'slopes give %s' % (row[:-1], l0 + u * h, ref))
        rng = random.Random(int(f * 1000 + M))
        lam, mid = P[:, -1], lambda i, u: P[i, -1] + u * (P[i + 1, -1] - P[i, -1])
        a = rng.randrange(M - 1)
        b = rng.randint(a + 1, M - 1)
        span = lam[-1] - lam[0]
        pats = [np.array([mid(0, .5), lam[-1]]),                       # single values
                np.array([mid(i, rng.random()) for i in range(a, b)]),     # one in each of consecutive intervals
                np.array([mid(rng.randrange(M - 1), rng.random()) for _ in range(5)]),      # any order
                lam.copy(), lam[a:b].copy(),                                 # the stored values
                np.hstack((lam[0] - span, mid(a, .25), lam[-1] + span, lam[0]))]    # partly out of bounds
        self.linear(sc, run, post, P, lam, pats, None, un)
        ref = np.arange(M) * 2.0 + 1.0                      # another reference quantity
        at = [np.array([1.0 + 2.0 * (i + rng.random()) for i in range(a, b)]), np.array([1.5, -3.0, 2.0 * M - 1.0])]
        self.linear(sc, run, post, P, ref, at, ref.copy(), un)
        if not (same(P, Pk) and same(G, Gk)):
            raise Violation('argument-changed', 'interpolation modified the history')
        # any parameter values for the splines agree with the upsampled ones
        at = np.array([lam[0] + span * rng.random() for _ in range(4)] + [lam[-1], lam[0]])
        keep = at.copy()
        got = lib(post.hermite_interp, P, G, at, what='hermite_interp')
        if not same(at, keep) or got.shape != (6, P.shape[1]) or not same(got[:, -1], keep):
            raise Violation('interpolation', 'hermite_interp at %s returns shape %s, parameters %s' % (keep, got.shape, got[:, -1]))
        for x, row in zip(keep, got):
            i = min(int(np.searchsorted(lam, x, side='right')) - 1, M - 2)
            hh = lam[i + 1] - lam[i]
            u = (x - lam[i]) / hh
            m0, m1 = G[i, :-1] / G[i, -1] * hh, G[i + 1, :-1] / G[i + 1, -1] * hh
            want = (2 * u ** 3 - 3 * u ** 2 + 1) * P[i, :-1] + (u ** 3 - 2 * u ** 2 + u) * m0 \
                + (-2 * u ** 3 + 3 * u ** 2) * P[i + 1, :-1] + (u ** 3 - u ** 2) * m1
            lim = 1e-7 * (np.abs(m0) + np.abs(m1) + np.abs(P[i, :-1]) + np.abs(P[i + 1, :-1]) + un[:-1])
            if np.any(~(np.abs(row[:-1] - want) <= lim)):
                raise Violation('interpolation', 'hermite_interp at %.9g gives %s instead of %s' % (x, row[:-1], want))
        if not (same(P, Pk) and same(G, Gk)):
            raise Violation('argument-changed', 'interpolation modified the history')
        run.hit('segments-interpolated')

    @staticmethod
    def linear(sc, run, post, P, ref, pats, refarg, un):
        for new in pats:
            keep, Pk = new.copy(), P.copy()
            got = lib(post.linear_interp, P, new, refarg, what='linear_interp')
            if not (same(new, keep) and same(P, Pk)) or (refarg is not None and not same(ref, refarg)):
                raise Violation('argument-changed', 'linear_interp modified its arguments')
            if got.shape != (len(new), P.shape[1]):
                raise Violation('interpolation-shape', 'linear_interp returns shape %s for %d values' % (got.shape, len(new)))
            for x, row in zip(keep, got):
                out = x < ref[0] or x > ref[-1]
                if out != bool(np.all(np.isnan(row))):
                    raise Violation('interpolation', 'linear_interp at %.9g (reference values %.9g to %.9g) gives %s' % (x, ref[0], ref[-1], row))
                if out:
                    continue
                i = min(int(np.searchsorted(ref, x, side='right')) - 1, len(ref) - 2)
                u = (x - ref[i]) / (ref[i + 1] - ref[i])
                want = P[i] + u * (P[i + 1] - P[i])
                if np.any(~(np.abs(row - want) <= 1e-7 * (np.abs(P[i]) + np.abs(P[i + 1]) + un))):
                    raise Violation('interpolation', 'linear_interp at %.9g gives %s instead of %s' % (x, row, want))
