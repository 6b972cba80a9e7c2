"""Transmitted downmix matrices (ISO/IEC 23008-3 clause 5.2 / 5.4.4: DownmixConfig, DownmixMatrix): writer of random ones, with their meaning."""
import math, re, os
import numpy as np
from . import cicp, fc
from .core import *

CENTRE, PAIR, SINGLE = range(3)


def compact(lay):
    """[(kind, index, index of the mirrored loudspeaker, LFE)] in the order of the compact configuration"""
    used = set(); r = []
    for i, c in enumerate(lay):
        if i in used: continue
        az, el, l = cicp.SPK[c]; l = bool(l)
        used.add(i)
        if abs(az) in (0, 180): r.append((CENTRE, i, None, l)); continue
        j = next((j for j in range(i + 1, len(lay)) if j not in used and bool(cicp.SPK[lay[j]][2]) == l and cicp.SPK[lay[j]][1] == el and cicp.SPK[lay[j]][0] == -az), None)
        if j is None: r.append((SINGLE, i, None, l)); continue
        used.add(j); r.append((PAIR, i, j, l) if az > 0 else (PAIR, j, i, l))
    return r


def put_range(w, size, v):
    n = size.bit_length() - 1; un = (1 << (n + 1)) - size
    if v < un: w.u(v, n)
    else: w.u((v + un) >> 1, n).u((v + un) & 1, 1)


def gain_order(lo, hi, prec):
    """gains in the order of the code table: multiples of 3 dB, of 1 dB, of 1/2, of 1/4 dB, each downwards from 0 and then upwards"""
    t = []
    for step, coarse in [(3, None), (1, 3), (.5, 1), (.25, .5)][:prec + 2]:
        for s in (-1, 1):
            k = 0 if s < 0 else 1
            while lo <= s * k * step <= hi:
                g = s * k * step
                if coarse is None or g % coarse: t.append(float(g))
                k += 1
    return t + [None]


class Eq:
    def __init__(self, d, nin, w):
        n = d.int(1, 4) if d.bool(.9) else d.int(5, 12); w.esc(n - 1, 3, 5, 0)
        prec = d.int(0, 3); sp = min(prec + 1, 3); ext = d.int(0, 1); w.u(prec, 2).u(ext, 1)
        P = (1., .5, .25, .1); LO = ((-8, -8, -8, -6.4), (-16, -16, -16, -12.8))
        self.eqs = []
        for _ in range(n):
            k = d.int(1, 3) if d.bool(.9) else d.int(4, 10); w.esc(k - 1, 2, 4, 0); fl = []; p10, ld = 0, 10
            for _ in range(k):
                p = d.int(p10, 3); put_range(w, 4 - p10, p - p10)
                if p > p10: ld = 10
                top = 24 if p == 3 else 99
                x = d.int(ld, top); put_range(w, 1 + top - ld, x - ld); p10, ld = p, x
                q = d.int(0, 31); w.u(q, 5)
                if q <= 19: qf = .05 * (q + 1)
                else: e = d.int(0, 7); w.u(e, 3); qf = 1 + .1 * ((q - 20) * 8 + e + 1)
                b = 4 + ext + prec; g = d.bits(b); w.u(g, b)
                fl.append((x * 10. ** p, qf, LO[ext][prec] + P[prec] * g))
            b = 4 + ext + sp; g = d.bits(b); w.u(g, b)
            self.eqs.append((fl, LO[ext][sp] + P[sp] * g))
        self.map = []
        for _ in range(nin):
            e = d.int(1, n) if d.bool(.6) else 0; w.u(e > 0, 1)
            if e: put_range(w, n, e - 1)
            self.map.append(e)

    def gains(self, k, fs):
        """per ERB band"""
        fl, g0 = self.eqs[k - 1]; f = fc.band_centres(fs); g = np.full(58, 10 ** (g0 / 20))
        for c, q, pk in fl:
            v = 10 ** (abs(pk) / 20)
            a = f ** 4 + c ** 4 + (1 / q ** 2 - 2) * f ** 2 * c ** 2; b = f ** 4 + c ** 4 + (v * v / q ** 2 - 2) * f ** 2 * c ** 2
            g *= np.sqrt(a / b if pk < 0 else b / a)
        return g


def matrix(d, src, dst, template=None):
    """(written bits, linear gains [source][target], Eq or None)"""
    w = BW(); ci, co = compact(src), compact(dst); eq = None
    e = d.bool(.4); w.u(e, 1)
    if e: eq = Eq(d, len(src), w)
    prec = d.int(0, 2); hi = d.int(0, 6) if d.bool(.9) else d.int(0, 22); lo = -(d.int(1, 15) if d.bool(.7) else d.int(1, 47))
    w.u(prec, 2).esc(hi, 3, 4, 0).esc(-lo - 1, 4, 5, 0)
    sep = [k == PAIR and d.bool(.6) for k, *_ in co]; sym = [d.bool(.6) for _ in co]
    if d.bool(.4): sep = [k == PAIR for k, *_ in co]
    if d.bool(.4): sym = [True] * len(co)
    alls = all(s for s, c in zip(sep, co) if c[0] == PAIR) and d.bool(.9); w.u(alls, 1)
    if not alls:
        for s, c in zip(sep, co):
            if c[0] == PAIR: w.u(s, 1)
    ally = all(sym) and d.bool(.9); w.u(ally, 1)
    if not ally:
        for s in sym: w.u(s, 1)
    lfe = d.bool(.5); raw = d.bool(.4); w.u(lfe, 1).u(raw, 1)
    dens = d.choice([.15, .3, .6]); A = [[int(d.bool(dens)) for _ in co] for _ in ci]
    if template is not None and not raw and d.bool(.7): A = [[template[i * len(co) + j] ^ (d.int(0, 19) == 0) for j in range(len(co))] for i in range(len(ci))]
    for i, a in enumerate(ci):
        for j, b in enumerate(co):
            if lfe and a[3] != b[3]: A[i][j] = 0
    kinds = {'raw' if raw else 'runs'}
    if raw:
        for i, a in enumerate(ci):
            for j, b in enumerate(co):
                if not lfe or a[3] == b[3]: w.u(A[i][j], 1)
    else:
        use = template is not None and d.bool(.6); w.u(use, 1)
        if use: kinds.add('template')
        flat = [A[i][j] ^ (template[i * len(co) + j] if use else 0) for i, a in enumerate(ci) for j, b in enumerate(co) if not lfe or not (a[3] or b[3])]
        cnt = len(flat); p = d.int(0, 7); w.u(p, 4 if cnt >= 256 else 3); pos = 0; top = cnt >> p
        while True:
            n = 0
            while pos + n < cnt and not flat[pos + n]: n += 1
            h = n >> p; w.u((1 << h) - 1, h) if h else None
            if h < top: w.u(0, 1)
            w.u(n & ((1 << p) - 1), p); pos += n + 1
            if pos >= cnt: break
        if lfe:
            for i, a in enumerate(ci):
                for j, b in enumerate(co):
                    if a[3] and b[3]: w.u(A[i][j], 1)
    full = d.bool(.5); rawg = d.bool(.4); w.u(full, 1).u(rawg, 1); kinds.add('raw gains' if rawg else 'table gains')
    if not rawg:
        lg = d.int(0, 7); w.u(lg, 3); tab = gain_order(lo, hi, prec); top = (len(tab) - 1) >> lg
    G = np.zeros((len(src), len(dst)))

    def gain():
        n = ((hi - lo) << prec) + 2
        if rawg:
            v = d.int(0, n - 1); put_range(w, n, v); g = hi - v / (1 << prec); g = None if g < lo else g
        else:
            v = min(len(tab) - 1, d.int(0, 12)) if d.bool(.5) else d.int(0, len(tab) - 1); h = v >> lg
            for _ in range(h): w.u(0, 1)
            if h < top: w.u(1, 1)
            w.u(v & ((1 << lg) - 1), lg); g = tab[v]
        return 0. if g is None else 10 ** (g / 20)
    for i, (ki, a, a2, la) in enumerate(ci):
        for j, (kj, b, b2, lb) in enumerate(co):
            if not A[i][j]: continue
            if ki != PAIR and kj != PAIR: G[a, b] = gain()
            elif ki != PAIR:
                G[a, b] = gain(); G[a, b2] = G[a, b] if sym[j] and not (ki == SINGLE and full) else gain()
            elif kj != PAIR:
                G[a, b] = gain(); G[a2, b] = G[a, b] if sym[j] else gain()
            elif sep[j] and sym[j]: G[a, b] = G[a2, b2] = gain()
            elif sym[j]: G[a, b] = G[a2, b2] = gain(); G[a, b2] = G[a2, b] = gain()
            elif sep[j]: G[a, b] = gain(); G[a2, b2] = gain()
            else: G[a, b] = gain(); G[a, b2] = gain(); G[a2, b] = gain(); G[a2, b2] = gain()
    if eq: kinds.add('equaliser')
    return w, G, eq, kinds


def bins(G, eq, fs):
    """[bin 0..256][source][target]"""
    m = np.broadcast_to(G, (257,) + G.shape).copy()
    if eq:
        for s, k in enumerate(eq.map):
            if not k: continue
            q = eq.gains(k, fs); m[:, s] *= q[fc.BAND][:, None]
    return m


# templates of the compact matrix (source layout, target layout), row by row
def config(d, lay, tgt, hit=True):
    """(downmix configuration, gains, Eq or None, kinds) with a matrix for the target layout, if hit, among others; None when a matrix is too long"""
    src = cicp.LAYOUT[lay]; n = d.weighted([(1, 5), (2, 2), (3, 1)]); at = d.int(0, n - 1); others = [t for t in cicp.LAYOUT if t not in (lay, tgt)]
    typ = d.weighted([(1, 2), (2, 2)]); w = BW().u(typ, 2)
    if typ == 2: w.u(0, 1).u(0, 3).u(d.int(0, 1), 1)
    w.u(n, 5); G = eq = None; kinds = set(); ids = set()
    for i in range(n):
        t = tgt if i == at and hit else d.choice(others); k = d.int(1, 126)
        while k in ids: k = k % 126 + 1
        ids.add(k); w.u(k, 7); m = i == at and hit or d.bool(.7); w.u(int(m), 2).u(t, 6)
        if not m: continue
        b, g, e, kk = matrix(d, src, cicp.LAYOUT[t], template=TEMPLATES.get((lay, t)))
        if i == at and hit: G, eq, kinds = g, e, kk
        bits = b.str()
        if len(bits) > 2048: return None
        w.esc(0, 1, 3, 0).esc(0, 1, 4, 4).u(0, 5).esc(len(bits), 8, 8, 12).s(bits)
    d.label('%d matrices' % n)
    return w.bytes(), G, eq, kinds


TEMPLATES = {
    (13, 6): [int(x) for x in '100101000010000110000001100110001000110100011001000101001000'],
    (14, 6): [int(x) for x in '10000100001000011000'],
    (12, 6): [int(x) for x in '10000100001000010001'],
    (7, 6): [int(x) for x in '10000100001000011001'],
    (13, 14): [int(x) for x in '100100100000100000101000000010100100000100001000010000100001000100100010000'],
    (13, 12): [int(x) for x in '100100100000100000011000000001100101000010000110110001010010000100100010000'],
    (13, 7): [int(x) for x in '000010100000100000101000000010100101000010000110110001010010000100100010000'],
    (13, 2): [int(x) for x in '111111111111111'],
}
