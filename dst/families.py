"""Residual families whose solution branch is known in closed form.

Z = inv(A) (X) ;  branch: Z_0 = s + s_off, Z_i = q_i(s), lam = g(s).  The solution set of R(X, lam) = 0 is exactly
that one curve, so a delivered point can be mapped back to its curve parameter s and 'forward' is 'increasing s'
(or decreasing for a run from the other end).
"""
import random

import numpy as np


class Branch:
    def __init__(self, p):
        self.p = p
        n = self.N = p['N']
        rng = random.Random(p['mix'])
        A = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        self.A = (np.eye(n) * 1.5 + 0.5 * A / max(1, n - 1)) if n > 1 else np.eye(1)
        B = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        self.B = (np.eye(n) * 1.5 + 0.5 * B / max(1, n - 1)) if n > 1 else np.eye(1)
        self.scale = np.array(p.get('scale') or [1.0] * n)       # physical units of each X entry
        self.lscale = p.get('lscale', 1.0)
        self.Ai = np.linalg.inv(self.A)
        self.q = [(rng.uniform(0.5, 1.5), rng.uniform(-0.6, 0.6), rng.uniform(-0.4, 0.4)) for _ in range(n - 1)]
        self.kind = p['kind']
        self.a, self.b = p['a'], p['b']
        self.s0, self.s1 = p['s0'], p['s1']
        self.loff = p.get('loff', 0.0)
        self.soff = p.get('soff', 3.0)
        self.rscale = p.get('rscale', 1.0)          # units of the residual
        self.evals = 0

    # curve ---------------------------------------------------------------
    def g(self, s):
        if self.kind == 'mono':
            return self.a * s + self.b * s ** 3
        if self.kind == 'fold':
            return self.b * s ** 3 - self.a * s
        return s + self.a * np.sin(self.b * s)

    def dg(self, s):
        if self.kind == 'mono':
            return self.a + 3 * self.b * s ** 2
        if self.kind == 'fold':
            return 3 * self.b * s ** 2 - self.a
        return 1 + self.a * self.b * np.cos(self.b * s)

    def lam(self, s):
        return self.lscale * (self.g(s) + self.loff)

    def z(self, s):
        return np.array([s + self.soff] + [c0 + c1 * s + c2 * s * s for c0, c1, c2 in self.q])

    def dz(self, s):
        return np.array([1.0] + [c1 + 2 * c2 * s for c0, c1, c2 in self.q])

    def point(self, s):
        return np.hstack((self.scale * (self.A @ self.z(s)), self.lam(s)))

    def tangent(self, s):
        """d(X, lam)/ds"""
        return np.hstack((self.scale * (self.A @ self.dz(s)), self.lscale * self.dg(s)))

    def s_of(self, XL):
        return float((self.Ai @ (np.asarray(XL[:-1], float) / self.scale))[0] - self.soff)

    def off_branch(self, XL):
        """Distance of a point to the branch point with the same parameter, in natural units."""
        z = self.Ai @ (np.asarray(XL[:-1], float) / self.scale)
        s = z[0] - self.soff
        return float(np.linalg.norm(np.hstack((z - self.z(s), XL[-1] / self.lscale - self.g(s) - self.loff))))

    # residual --------------------------------------------------------------
    def fun(self, XL, calc_grad=True):
        XL = np.asarray(XL, dtype=float)
        if XL.shape != (self.N + 1,):
            raise ValueError('residual called with shape %s' % (XL.shape,))
        self.evals += 1
        z = self.Ai @ (XL[:-1] / self.scale)
        s = z[0] - self.soff
        r = np.hstack((self.g(s) + self.loff - XL[-1] / self.lscale,
                       [z[i + 1] - (c0 + c1 * s + c2 * s * s) for i, (c0, c1, c2) in enumerate(self.q)]))
        R = self.rscale * (self.B @ r)
        if not calc_grad:
            return (R,)
        Jz = np.zeros((self.N, self.N))
        Jz[0, 0] = self.dg(s)
        for i, (c0, c1, c2) in enumerate(self.q):
            Jz[i + 1, i + 1] = 1.0
            Jz[i + 1, 0] = -(c1 + 2 * c2 * s)
        JX = self.rscale * self.B @ Jz @ self.Ai / self.scale
        Jl = self.rscale * self.B @ np.hstack((-1.0 / self.lscale, np.zeros(self.N - 1)))
        return R, JX, Jl

    # sizes ------------------------------------------------------------------
    def metric_length(self, CtoP, b, n=400):
        """Length of the branch in the conditioned norm c|dX|^2 + b dlam^2 with c=(1-b)/|X0|^2 (local)."""
        ss = np.linspace(self.s0, self.s1, n)
        P = np.array([self.point(s) for s in ss]) / CtoP
        d = np.diff(P, axis=0)
        nx = np.linalg.norm(P[:-1, :-1], axis=1)
        return float(np.sum(np.sqrt((1 - b) * np.sum(d[:, :-1] ** 2, axis=1) / nx ** 2 + b * d[:, -1] ** 2)))


def gen_branch(rng, kinds=('mono', 'mono', 'fold', 'sin')):
    kind = rng.choice(kinds)
    n = rng.choice([1, 2, 2, 3, 4, 5])
    p = {'kind': kind, 'N': n, 'mix': rng.randrange(10 ** 6)}
    if kind == 'mono':
        p.update(a=round(rng.uniform(0.5, 2), 3), b=round(rng.uniform(0, 0.5), 3), s0=round(rng.uniform(-1.5, -0.5), 3),
                 s1=round(rng.uniform(0.5, 1.5), 3))
    elif kind == 'fold':
        p.update(a=round(rng.uniform(0.5, 1.2), 3), b=1.0, s0=-1.8, s1=1.8)
    else:
        p.update(a=round(rng.uniform(0.3, 0.7), 3), b=3.0, s0=-2.0, s1=2.0)
    if rng.random() < 0.5:
        p['s0'], p['s1'] = p['s1'], p['s0']
    p['loff'] = round(rng.choice([0.0, 5.0, -4.0, rng.uniform(-8, 8)]), 3)
    if rng.random() < 0.4:
        p['scale'] = [10.0 ** rng.randint(-5, 2) for _ in range(n)]
        p['lscale'] = 10.0 ** rng.randint(-2, 2)
    return p
