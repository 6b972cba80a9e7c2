"""Reference model of the object renderer (ISO/IEC 23008-3 clause 8.4.4: vector base amplitude panning with imaginary
loudspeakers and spreading), double precision, written from the standard's description of the algorithm."""
import math
import numpy as np
from functools import lru_cache
from .cicp import SPK, LAYOUT

# sectors (azimuth start, end, elevation start, end) of the loudspeakers that span the polygons whose centre gets an imaginary loudspeaker
SECT = {0: (23, 37, -9, 20), 1: (-37, -23, -9, 20), 17: (11, 37, 21, 60), 18: (-37, -11, 21, 60),
        34: (38, 52, -9, 20), 35: (-52, -38, -9, 20), 32: (38, 66, 21, 60), 33: (-66, -38, 21, 60),
        4: (101, 124, -45, 20), 5: (-124, -101, -45, 20), 30: (101, 124, 21, 60), 31: (-124, -101, 21, 60),
        8: (125, 142, -45, 20), 9: (-142, -125, -45, 20), 20: (125, 157, 21, 60), 21: (-157, -125, 21, 60)}
FRONT = [(0, 1, 18, 17), (34, 35, 33, 32)]
BACK = [(4, 30, 31, 5), (8, 20, 21, 9)]


def cart(az, el, r=1.0):
    a, e = math.radians(az), math.radians(el)
    return np.array([r * math.cos(a) * math.cos(e), r * math.sin(a) * math.cos(e), r * math.sin(e)])


def _wrap(a, off):
    return 180 - math.fmod(180 + off - a, 360)


def _subset(pts, sub, off):
    """all four sectors occupied, and no other loudspeaker inside the polygon?"""
    idx = []
    for s in sub:
        a0, a1, e0, e1 = SECT[s]
        hit = [j for j, (a, e) in enumerate(pts) if a0 <= a <= a1 and e0 <= e <= e1]
        if not hit:
            return False
        idx.append(hit[-1])
    poly = [pts[j] for j in idx]
    for j, (a, e) in enumerate(pts):
        if j in idx:
            continue
        f = _wrap(a, off)
        v = [(_wrap(pa, off) - f, pe - e) for pa, pe in poly]
        if all(v[(k + 1) % 4][0] * v[k][1] - v[(k + 1) % 4][1] * v[k][0] >= 0 for k in range(4)):
            return False
    return True


def _index(a, e):
    a = 180 - math.fmod(180 - a, 360)
    if a >= 180:
        a -= 360
    return int(abs(90 - abs(a) + 0.5)) + 181 * int(abs(e) + 0.5)


def _qsort(v):
    """the order in which vertices with equal keys are taken decides how coplanar facets are divided"""
    if len(v) < 2:
        return v
    p = v[-1]
    lo = [x for x in v[:-1] if x[0] < p[0]]
    hi = [x for x in v[:-1] if not x[0] < p[0]][::-1]
    return _qsort(lo) + [p] + _qsort(hi)


def _proj(p1, p2, p3, x):
    n = np.cross(p1 - p2, p1 - p3)
    ln = np.linalg.norm(n)
    if ln:
        n = n / ln
    return float(np.dot(n, x - p1))


class Renderer:
    def __init__(self, spk, stable=False):
        """spk: [(azimuth, elevation)] of the loudspeakers that are no LFE"""
        pts = [(a - 360 if a >= 180 else a, max(-90, min(90, e))) for a, e in spk]
        self.nreal = n = len(pts)
        self.close = np.inf     # distance of the decisions of the triangulation from their limits
        maxe = max([0] + [e for _, e in pts])
        mine = min([0] + [e for _, e in pts])
        self.height = maxe > 21
        imax = next((i for i, (_, e) in enumerate(pts) if e == maxe), 0) if maxe > 0 else 0
        imin = next((i for i, (_, e) in enumerate(pts) if e == mine), 0) if mine < 0 else 0
        if mine > -45:
            imin = len(pts)
            pts.append((0, -90))
        if maxe < 45:
            imax = len(pts)
            pts.append((0, 90))
        for subs, off in ((FRONT, 0), (BACK, 180)):
            for sub in subs:
                if _subset(pts, sub, off):
                    a = sum(SPK[s][0] for s in sub) / 4 + off
                    e = sum(SPK[s][1] for s in sub) / 4
                    pts.append((a, e))
                    break
        ring = _qsort([(pts[i][0], i) for i in range(n) if pts[i][1] < 45])
        new = []
        for k in range(len(ring)):
            a0 = ring[k][0]
            gap = (ring[k + 1][0] if k + 1 < len(ring) else ring[0][0] + 360) - a0
            if gap > 160:
                m = int(gap / 160)
                for q in range(1, m + 1):
                    new.append((a0 + q * gap / (m + 1), len(pts)))
                    pts.append((new[-1][0], 0))
        ring = _qsort(ring + new)
        self.pts = pts
        self.xyz = P = [cart(a, e) for a, e in pts]
        i1, i2 = imin, imax
        for k in range(1, len(ring)):
            if ring[k][0] <= ring[0][0] + 160:
                i1 = k
            if ring[k][0] >= ring[0][0] + 200:
                i2 = k
                break
        az = [r[0] for r in ring]
        if not (max(i1, i2) < len(ring) and az[i2] - az[i1] <= 180 and 0 <= az[i1] - az[0] <= 180 and az[i2] - az[0] >= 180):
            # the listener has to be inside the starting polyhedron
            i1 = max(k for k in range(len(ring)) if az[k] < az[0] + 180); i2 = min(i1 + 1, len(ring) - 1)
        t = [imax, imin, ring[0][1], ring[i1][1], ring[i2][1]]
        tri = [(t[0], t[2], t[3]), (t[0], t[3], t[4]), (t[0], t[4], t[2]), (t[1], t[3], t[2]), (t[1], t[4], t[3]), (t[1], t[2], t[4])]
        order = [(_index(a, e), i) for i, (a, e) in enumerate(pts)]
        order = sorted(order) if stable else _qsort(order)
        for _, x in order:
            pr = [_proj(*[P[i] for i in f], P[x]) for f in tri]; self.close = min([self.close] + [abs(p + 1e-5) for p in pr])
            vis = [f for f, p in zip(tri, pr) if p > -1e-5]
            tri = [f for f in tri if f not in vis]
            edges = [tuple(sorted(e)) for f in vis for e in ((f[0], f[1]), (f[0], f[2]), (f[1], f[2]))]
            for a, b in edges:
                if edges.count((a, b)) == 1:
                    self.close = min(self.close, abs(_proj(P[a], P[b], P[x], np.zeros(3))))
                    tri.append((a, b, x) if _proj(P[a], P[b], P[x], np.zeros(3)) <= 0 else (x, b, a))
        self.tri = tri
        tot = len(pts)
        D = np.zeros((tot, tot))
        D[range(n), range(n)] = 1
        for i in range(n, tot):
            nb = {v for f in tri if i in f for v in f} - {i}
            for v in nb:
                D[v, i] = 1 / len(nb)
        for _ in range(20):
            D = D @ D
            if tot == n or D[n:, n:].max() <= 1e-4:
                break
        self.dmx = np.sqrt(D)
        self.inv = [np.linalg.inv(np.array([P[i] for i in f]).T) if abs(np.linalg.det(np.array([P[i] for i in f]))) > 1e-9 else np.zeros((3, 3)) for f in tri]

    def _point(self, v, acc):
        best = None
        near = False
        for f, m in zip(self.tri, self.inv):
            g = m @ v
            neg = int((g < -0.01).sum())
            key = (neg, -g.min())
            if best is None or key < best[0]:
                best = (key, f, g)
        _, f, g = best
        g = np.maximum(g, 0)
        p = math.sqrt(float(g @ g))
        if p:
            g = g / p
        for i, x in zip(f, g):
            acc[i] += x

    def gains(self, az, el, width=0.0, height=0.0, gain=1.0):
        acc = np.zeros(len(self.pts))
        p0 = cart(az, el)
        if width <= 0 and height <= 0:
            self._point(p0, acc)
        else:
            al = min(90.0, max(0.001, width))
            e2 = el + 90 if el < 0 else el - 90
            v = cart(az, e2)
            u = np.cross(v, p0)
            if not self.height:
                v = np.zeros(3)
            vec = []
            for s in (1, -1):
                vec += [s * u, .75 * s * u + .25 * p0, .375 * s * u + .625 * p0]
            for a, b in ((.5, .866), (-.5, .866), (-.5, -.866), (.5, -.866)):
                w = a * u + b * v + .333 * p0
                vec += [w, .5 * w + .5 * p0, .25 * w + .75 * p0]
            vec = [p0] + vec
            for w in vec:
                w = w + p0 / math.tan(math.radians(al))
                ln = np.linalg.norm(w)
                self._point(w / ln if ln else w, acc)
            k = min(1.0, max(0.0, width / 90 - 1))
            acc = (1 - k) * acc / np.linalg.norm(acc) + k / math.sqrt(len(acc))
        acc = acc / np.linalg.norm(acc)
        g = (self.dmx @ acc)[:self.nreal]
        s = np.linalg.norm(g)
        return g * gain / s if s else g


@lru_cache(None)
def layout(cicp, stable=False):
    if isinstance(cicp, tuple): return Renderer([SPK[s][:2] for s in cicp if not SPK[s][2]], stable)
    return Renderer([(SPK[s][0], SPK[s][1]) for s in LAYOUT[cicp] if not SPK[s][2]], stable)


def full(cicp, g):
    """gains per channel (0 for the LFEs)"""
    it = iter(g)
    return np.array([0.0 if SPK[s][2] else next(it) for s in LAYOUT[cicp]])
