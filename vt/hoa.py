"""Higher order ambisonics: configuration, frames and what they mean.

Model: every transport channel passes the inverse dynamic correction (a gain that a window moves by powers of two); the first coefficients come from an ambience
in the directions of a grid (spherical harmonics of the grid points), further ambient coefficients are sent directly, and a vector signal is spread over the
coefficients with its vector, interpolated from the vector of the frame before. The rendering matrices of the layouts are in hoa.npz (see tools/hoatab.py)."""
import os, numpy as np
from math import factorial
from .core import *
TAB = None
TIMES = [0, 64, 128, 256, 384, 512, 768, 1024]


def table():
    global TAB
    if TAB is None:
        z = np.load(os.path.join(os.path.dirname(__file__), 'hoa.npz')); TAB = {k: z[k] for k in z.files}
    return TAB


def clog2(x): return max(0, int(x - 1).bit_length()) if x > 1 else 0


def harmonics(N, az, inc):
    """real spherical harmonics, full normalisation (the first is 1), coefficient n*(n+1)+m"""
    from scipy.special import lpmv
    x = np.cos(inc); y = np.zeros(((N + 1) ** 2, len(az)))
    for n in range(N + 1):
        for m in range(-n, n + 1):
            a = abs(m); k = np.sqrt((2 * n + 1) * (2 if m else 1) * factorial(n - a) / factorial(n + a))
            y[n * (n + 1) + m] = k * (-1) ** a * lpmv(a, n, x) * (np.cos(m * az) if m >= 0 else np.sin(a * az))
    return y


def ambience(M):
    t = table(); return np.ones((1, 1)) if M == 0 else harmonics(M, t['az%d' % M], t['inc%d' % M])


class Hoa:
    """N order, M order of the ambience (None: no coefficients besides), add: number of further transport channels"""
    def __init__(self, d, N, M, nt):
        self.d, self.N, self.M, self.nt = d, N, M, nt; self.K = (N + 1) ** 2; self.low = (M + 1) ** 2; self.add = nt - self.low
        self.time = d.int(0, 7); self.method = d.int(0, 1); self.vlen = d.choice([0, 0, 1, 2]); self.amp = d.int(0, 7); self.single = d.int(0, 1)
        self.diff = 0 if M >= N else N - M
        free = list(range(self.low, self.K)); self.kind = []; self.coef = []
        for i in range(self.add):
            if free and d.bool(.5): self.kind.append(2); self.coef.append(free.pop(d.int(0, len(free) - 1)))
            else: self.kind.append(1); self.coef.append(None)
        self.start = 0 if self.vlen == 0 else self.low
        self.gain = [0] * nt; self.vec = [None] * self.add; self.n = 0; self.parts = []; self.labels = set()

    def config(self):
        w = BW(); N, M, K = self.N, self.M, self.K
        w.u(N, 3).u(0, 1).u(0, 1).u(M + 1, 3).u(self.single, 1).u(self.time, 3).u(self.method, 1).u(self.vlen, 2).u(self.amp, 3).u(0, 2)
        if M < N: w.u(self.diff, clog2(N - M + 1))
        w.u(0, clog2(clog2(K + 1)))
        if M == 1: w.u(0, 1)
        return w.u(0, 2).u(7, 4).u(0, 2).u(0, 2).bytes()

    def frame(self):
        d = self.d; w = BW(); ind = int(self.n == 0 or d.bool(.3)); w.u(ind, 1); self.n += 1
        base = clog2(int(1.5 * self.K)); gb = clog2(base + self.amp + 1); amb = clog2(self.K - self.low); part = []
        vecs = []
        def gain(i):
            if ind:
                self.gain[i] = d.choice([0, 0, -1, d.int(-2, min(2, self.amp))]) if base >= 2 else 0
                w.u(self.gain[i] + base, gb)
            g = self.gain[i]; e = 0
            if d.bool(.25): e = d.choice([-1, 1, 2]); e = e if -2 <= g - e <= 2 else 0
            x = int(bool(e) and d.bool(.3)); w.u(1, 1 if e == 0 else 2 if e == -1 else e + 2).u(x, 1); self.gain[i] = g - e; part.append((g, e, x))
            if e: self.labels.add('gain')
        def vals(nv):
            return [d.choice([128, d.bits(8), d.int(96, 160)]) for _ in range(nv)]
        for i in range(self.add):
            w.u(self.kind[i], 2)
            if self.kind[i] == 2:
                if ind: w.u(0, 2).u(self.coef[i] - self.low, amb)
                else: w.u(0, 1)
                self.labels.add('direct')
            else:
                if ind and self.vlen == 1: w.u(d.int(0, 1) if self.n > 1 else 1, 1)
                if ind: w.u(5, 4)
                elif d.bool(): w.u(0, 2)
                else: w.u(0, 1).u(1, 1).u(1, 2)
                new = vals(self.K - self.start); skip = [c - self.start for c in self.coef if c is not None] if self.vlen == 1 else []; old = self.vec[i]
                for c in skip: new[c] = 128
                vecs.append([x for c, x in enumerate(new) if c not in skip])
                self.vec[i] = np.concatenate([np.zeros(self.start), (self.N + 1) * (np.array(new) / 128. - 1)]); part.append(('v', i, old, self.vec[i])); self.labels.add('vector')
            gain(i)
        for i in range(self.add, self.nt): gain(i)
        for v in vecs:
            for x in v: w.u(x, 8)
        self.parts.append(part); return w.bytes()

    def coefficients(self, x):
        """x [transport][samples]: the coefficients [K][samples]"""
        psi = ambience(self.M); y = np.zeros((self.K, x.shape[1])); win = 0.75 + 0.25 * np.cos(np.pi * np.arange(1024) / 1023.)
        L = TIMES[self.time]; r = np.ones(1024); t = np.arange(L)
        if L: r[:L] = t / (L - 1) if self.method == 0 else 0.5 - 0.5 * np.cos(np.pi * t / L)
        for k, part in enumerate(self.parts):
            s = slice(k * 1024, k * 1024 + 1024); g = [p for p in part if p[0] != 'v']; v = [p for p in part if p[0] == 'v']
            z = np.stack([x[i, s] * 2. ** -a * (2. ** e if jump else win ** -e) for i, (a, e, jump) in enumerate(g)])
            y[:self.low, s] += psi @ z[self.add:]
            for i in range(self.add):
                if self.kind[i] == 2: y[self.coef[i], s] += z[i]
            for _, i, old, new in v: y[:, s] += (new[:, None] if old is None else old[:, None] * (1 - r) + new[:, None] * r) * z[i]
        return y


def matrix(lay, N): return table()['R%d_%d' % (lay, N)].astype(float)
