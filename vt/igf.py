"""Intelligent gap filling: random side information, its bits, and what it does to the spectra (ISO/IEC 23008-3, 5.5.5)."""
import numpy as np
from .core import T, FS, scf_code
from .fd import N, sfb_off, lcg

class Enc:
    """arithmetic encoder for the gap filling levels"""
    def __init__(self): self.o = []; self.pend = 0; self.lo = 0; self.hi = 65535
    def bit(self, b):
        self.o.append(b)
        while self.pend: self.o.append(1 - b); self.pend -= 1
    def sym(self, cf, s):
        r = self.hi - self.lo + 1; lo, hi = self.lo, self.hi
        if s: hi = lo + ((r * int(cf[s - 1])) >> 14) - 1
        lo += (r * int(cf[s])) >> 14
        while True:
            if hi < 32768: self.bit(0)
            elif lo >= 32768: self.bit(1); lo -= 32768; hi -= 32768
            elif lo >= 16384 and hi < 49152: self.pend += 1; lo -= 16384; hi -= 16384
            else: break
            lo += lo; hi += hi + 1
        self.lo, self.hi = lo, hi
    def bits(self, v, n):
        for i in range(n - 1, -1, -1): self.sym((8192, 0), (v >> i) & 1)
    def res(self, v, cf, off):
        v += off
        if -12 <= v <= 12: self.sym(cf, v + 13); return
        x = -13 - v if v < -12 else v - 13
        self.sym(cf, 0 if v < -12 else 26)
        if x < 15: self.bits(x, 4)
        else: self.bits(15, 4); self.bits(x - 15, 7)
    def done(self):
        self.pend += 1; self.bit(0 if self.lo < 16384 else 1); return ''.join('01'[b] for b in self.o)

class Grid:
    """bands, source lines and tiles of one transform length"""
    def __init__(self, c, fsidx, short, start, stop):
        self.off = off = sfb_off(fsidx, short); self.short = short; self.start, self.stop = start, stop
        m = (128 if short else 1024) * 1125 // (FS[fsidx] >> 1); self.min = m + m % 2
        self.bgn, self.end = int(off[start]), int(off[stop]); self.step = 1 if short or c.highres else 2
        self.tiles = t = []; self.ok = self.bgn > self.min and start < stop
        if self.ok:
            rng = max(8, self.end - self.bgn); s = self.bgn; mem = start
            for i in range(4):
                want = min(s + (rng >> 2), self.end); j = int(np.searchsorted(off, want)); j = max(j, 1)
                if not c.highres:
                    if i == 3: j = stop
                    elif (j - start) & 1 and j - mem > 1: j -= 1
                    mem = j
                t.append(max(2, min(int(off[j]) - s, self.end - s))); s += t[-1]
                if s == self.end: break
        self.tix = np.repeat(np.arange(len(t)), t)      # tile of each line from bgn on
    def bands(self):
        for b in range(self.start, self.stop, self.step): yield b, int(self.off[b]), int(self.off[min(b + self.step, self.stop)])
    def src(self, sel):
        """source line of every target line"""
        out = np.zeros(self.end - self.bgn, int); s = self.bgn; n = self.bgn - self.min
        for i, t in enumerate(self.tiles):
            o = int((2.5 - .5 * sel[i]) * t + s - self.bgn); o += o % 2
            for tb in range(s, s + t):
                x = tb - o; out[tb - self.bgn] = x if x >= self.min else self.min + tb % n
            s += t
        return out

class IgfCfg:
    def __init__(self, p, fsidx, indep_tiling=1):
        self.enf, self.highres, self.whitening, self.after = p['enf'], p['highres'], p['whitening'], p['after_tns']
        self.joint = not indep_tiling; self.fsidx = fsidx
        L, S = sfb_off(fsidx, False), sfb_off(fsidx, True); n = len(L) - 1
        a = min(11 + p['start'], n - 5)
        z = n if p['stop'] == 15 else min(n, max(a + ((n - (a + 1)) * (p['stop'] + 2) >> 4), a + 1))
        f = lambda b: int(np.nonzero(S[1:] >= (int(L[b]) >> 3))[0][0]) + 1
        self.g = [Grid(self, fsidx, False, a, z), Grid(self, fsidx, True, f(a), f(z))]

class IgfD:
    """gap filling data of one channel in one frame"""
    zero = 1; lev = None; err = 0.; tile = (3, 3, 3, 3); wh = (0, 0, 0, 0); tnf = 0

class IgfSt:
    """what one frame's data refer to of the frame before"""
    def __init__(self): self.q = {}; self.t = 0; self.ctx = 0; self.cls = 0; self.tile = [3] * 4; self.wh = [0] * 4

def _c(x): return max(-3, min(3, x)) + 3
def draw(w, d, rng, c, st, ics, indep, lo=9., hi=17.):
    """draws and writes the data of a channel"""
    x = IgfD(); sh = int(ics.short); G = c.g[sh]; ng = len(ics.groups()); f = 1 if c.highres else 2
    x.zero = 1 if not G.ok else int(d.bool(.12)); w.u(x.zero, 1)
    if x.zero or indep or sh != st.cls: st.q = {}; st.t = 0; st.ctx = 0
    st.cls = sh
    if x.zero: st.tile = [3] * 4; st.wh = [0] * 4; x.lev = [{} for _ in range(ng)]; return x
    inc = 2 if not sh and not c.highres else 1; bs = list(range(G.start, G.stop, inc)); x.lev = []; e = Enc()
    base = rng.uniform(lo - 3, hi - 2) * 4 / f; wild = d.weighted([(0, 8), (1, 1)]); first = True
    for g in range(ng):
        q = {}
        for i, b in enumerate(bs):
            base += rng.normal(0, 1.5 / f); v = int(round(base + rng.normal(0, 2)))
            if wild and rng.random() < .2: v += int(rng.integers(-40, 41))
            if rng.random() < .04: v = int(rng.integers(-10, 6))
            p = st.q.get(b, 0)
            v = max(-40, min(80 * 2 // f, v))
            if st.t == 0:
                if i == 0: v = max(0, min(127, v))
                pr = 0 if i == 0 else q[bs[i - 1]]
            else: pr = p if i == 0 else p + q[bs[i - 1]] - st.q.get(bs[i - 1], 0)
            if not (st.t == 0 and i == 0): v = max(pr - 120, min(pr + 120, v))
            if first and v == 0: v = 1     # an envelope of zeros only is not allowed
            first = False
            if st.t == 0:
                if i == 0: e.bits(v, 7)
                elif i == 1: e.res(v - pr, T['igf_cf_01'][0], 2)
                else: k = _c(q[bs[i - 1]] - q[bs[i - 2]]); e.res(v - pr, T['igf_cf_02'][k], int(T['igf_off_02'][k]))
            elif i == 0:
                if st.t == 1: e.res(v - pr, T['igf_cf_10'][0], -4)
                else: k = _c(p - st.ctx); e.res(v - pr, T['igf_cf_20'][k], int(T['igf_off_20'][k]))
            else:
                pp = st.q.get(bs[i - 1], 0); k = _c(q[bs[i - 1]] - pp) * 7 + _c(p - pp); e.res(v - pr, T['igf_cf_11'][k], int(T['igf_off_11'][k]))
            q[b] = v
        st.ctx = st.q.get(G.start, 0)
        for i in range(G.start, G.stop): st.q[i] = q[G.start + (i - G.start) // inc * inc]
        x.lev.append({b: 2. ** (.25 * f * q[b]) for b in bs}); st.t += 1
    w.s(e.done()); n = len(G.tiles)
    keep = 0
    if not indep: keep = d.int(0, 1); w.u(keep, 1)
    if keep: x.tile = st.tile[:n] + [3] * (4 - n)
    else:
        x.tile = [d.int(0, 3) for _ in range(n)] + [3] * (4 - n)
        for i in range(n): w.u(x.tile[i], 2)
    st.tile = list(x.tile); x.wh = [0] * 4; st.wh[n:] = [0] * (4 - n)
    if c.whitening and not sh:
        keep = 0
        if not indep: keep = d.int(0, 1); w.u(keep, 1)
        if keep: x.wh = list(st.wh)
        else:
            def one():
                v = d.int(0, 2); w.u((0, 2, 3)[v], 1 if v == 0 else 2); return v
            x.wh[0] = one(); diff = d.int(0, 1); w.u(diff, 1)
            for i in range(1, n): x.wh[i] = one() if diff else x.wh[0]
    st.wh = list(x.wh)
    if c.enf and not sh: x.tnf = d.int(0, 1); w.u(x.tnf, 1)
    d.label('igf-' + ('s' if sh else 'l') + ('t' if x.tnf else '')); [d.label('wh%d' % v) for v in set(x.wh[:n]) if c.whitening and not sh]
    return x

def whiten(y, G, err):
    """flattens the source range; also how far errors of `err` in its lines can move the result"""
    z = y.copy(); dz = err.copy(); fac = 0.; q = y * y
    e = np.array([1e-3 + q[i - 3:i + 4].sum() for i in range(G.min, G.bgn - 3)])
    if len(e):
        l = np.log2(e); fac = 2. ** (21 - np.floor(l) / 2); s = slice(G.min, G.bgn - 3)
        z[s] *= fac; dz[s] *= 1.5 * fac
        # an energy next to a power of two: the factor may be the neighbouring one, unless single precision has the energy exactly
        g = np.array([np.sqrt((err[i - 3:i + 4] ** 2).sum()) for i in range(G.min, G.bgn - 3)]); x = (err == 0) & (q.astype(np.float32) == q)
        t = np.abs(l - np.round(l)) < 3e-6 + 9 * g / np.sqrt(e); k = np.nonzero(t)[0]; o = G.min
        t[k] = [not (x[o + i - 3:o + i + 4].all() and float(np.log2(e[i] - 1e-3 if e[i] > 2e-3 else 1)).is_integer()) for i in k]
        dz[s][t] += np.abs(z[s][t])
        if t[-1]: dz[G.bgn - 3:G.bgn] += np.abs(y[G.bgn - 3:G.bgn]) * fac[-1]
        fac = fac[-1]
    z[G.bgn - 3:G.bgn] = y[G.bgn - 3:G.bgn] * fac; dz[G.bgn - 3:G.bgn] = err[G.bgn - 3:G.bgn] * fac + (dz[G.bgn - 3:G.bgn] if len(e) and t[-1] else 0)
    return z, dz[G.min:G.bgn].max(initial=0.)

def gain(E, w, sn, pn):
    """what scales the source to the level E, given the energy coded already"""
    mn = E * E * w - sn
    return min(10., np.sqrt(mn / pn)) if mn > 0 and pn > 0 else 0.

def _unsure(v, a):
    """what the flattening may change where rounding decides whether a third of the range is silent"""
    n = len(v)
    if a <= 0 or all((v[n * i // 3:n * (i + 1) // 3] ** 2).sum() > 4 * a * a * n / 3 for i in range(3)): return 3e-5 * np.abs(v).max()
    return 4 * np.abs(v).max()

def tnf(v):
    """temporal noise flattening of the filled range"""
    n = len(v); r = np.zeros(17); ok = True
    for i in range(3):
        s = v[n * i // 3: n * (i + 1) // 3]; e = (s * s).sum()
        if not e > 3.7e-9: return v
        for k in range(1, 9):
            a = (s[:max(0, len(s) - k)] * s[k:]).sum() if len(s) > k else (s[0] * v[n * i // 3 + k] if len(s) - k else 0.)
            r[k] += T['igf_acf'][k - 1] * a / e
    r[0] = 3.; o = min(8, n >> 2); m = list(r[:o]); p = list(r[1:o + 1]); par = []
    for i in range(o):
        t = -p[i] / m[0] if m[0] >= 0.0000152 else 0.
        t = max(-.999, min(.999, t)); par.append(t)
        for j in range(i, o):
            a = p[j] + t * m[j - i]; m[j - i] += t * p[j]; p[j] = a
    c = np.zeros(9); c[0] = 1.
    for i in range(o):
        b = c.copy()
        for j in range(1, i + 1): b[j] = c[j] + par[i] * c[i + 1 - j]
        b[i + 1] = par[i]; c = b
    out = v.copy()
    for k in range(1, 8): out[k:] += c[k] * v[:-k] if k < n else 0
    return out

def _wh(c, x, G, sh, Y):
    amb = 0.
    if c.whitening and not sh:
        for t in range(len(G.tiles)):
            if x.wh[t] == 0: Y[t], a = whiten(Y[t], G, x.err); amb = max(amb, a)
    return amb

def _values(c, x, G, sh, Y, src, o, z, seed):
    """what the lines from the start on would be filled with, before the gain; z: the lines a noise value is drawn for"""
    v = np.array([Y[t][o + s] for t, s in zip(G.tix, src)])
    if c.whitening and not sh and 2 in x.wh:
        for i in np.nonzero(z)[0]:
            if x.wh[G.tix[i]] == 2: seed, s = lcg(seed); v[i] = s * 2097152.
    return v, seed

def _near(c, x, G, g, near, o):
    """lines that prediction nearly cancels: rounding decides whether they count as gaps"""
    if near is None or x.zero: return 0.
    return max((8 * x.lev[g][b] * np.sqrt(hi - lo) for b, lo, hi in G.bands() for a in o if near[a + lo - G.bgn:a + hi - G.bgn].any()), default=0.)

def _gains(x, G, g, gl, sn, pn, V, dz):
    f = np.zeros(G.end - G.bgn); amb = 0.
    for b, lo, hi in G.bands():
        s = slice(lo - G.bgn, hi - G.bgn); E = 0. if x.zero else x.lev[g][b]; S, P = sn[b] / gl, pn[b] / gl; gn = gain(E, hi - lo, S, P); f[s] = gn
        mx = max(np.abs(v[s]).max() for v, _ in V)
        if dz and P > 0: amb = max(amb, 4 * gn * min(2 * mx, dz * (1 + mx * np.sqrt((hi - lo) / P))))
        mn = E * E * (hi - lo) - S
        # a target hardly above what is coded already: cancellation in single precision
        if S > 0 and P > 0 and abs(mn) < 1e-3 * S: amb = max(amb, np.sqrt(2e-6 * S / P) * mx)
    return f, amb

def _energy(G, sn, pn, cw, v, z):
    for b, lo, hi in G.bands():
        s = slice(lo - G.bgn, hi - G.bgn); sn[b] = sn.get(b, 0.) + (cw[s] ** 2).sum(); pn[b] = pn.get(b, 0.) + (v[s][z[s]] ** 2).sum()

def mono(c, x, ics, coef, Y, seed, near=None):
    """fills the gaps of one channel.  Y: the four tiles' source spectra.  -> seed, size of what rounding may turn over"""
    if x.zero: return seed, 0.
    sh = int(ics.short); G = c.g[sh]; n = 128 if sh else N; src = G.src(x.tile); A = G.bgn; dz = _wh(c, x, G, sh, Y); w0 = 0; amb = 0.
    for g, gl in enumerate(ics.groups()):
        sn = {}; pn = {}; V = []
        for k in range(gl):
            o = (w0 + k) * n; cw = coef[o + A:o + G.end]; z = cw == 0; v, seed = _values(c, x, G, sh, Y, src, o, z, seed)
            V.append((v, z)); _energy(G, sn, pn, cw, v, z)
        f, a = _gains(x, G, g, gl, sn, pn, V, dz); amb = max(amb, a, _near(c, x, G, g, near, [(w0 + k) * n + A for k in range(gl)]))
        if c.whitening and not sh and 2 in x.wh:
            # how many noise values are drawn depends on the number of gaps: from here on the noise is unknown
            if near is not None and any(near[A + i] and x.wh[t] == 2 for i, t in enumerate(G.tix)): amb = np.inf
        for k in range(gl):
            o = (w0 + k) * n; v, z = V[k]; cw = coef[o + A:o + G.end]; fill = f * v; cw[z] = fill[z]
            if x.tnf: y = tnf(fill); cw[z] = y[z]; amb = max(amb, _unsure(fill, max(amb, 1e-20 * np.max(x.err))))
        w0 += gl
    return seed, amb

class Mask:
    """which bands of a pair are filled jointly, and how they are turned into left and right"""
    kind = 0; ms = None; cp = None
    def on(self, g, b, G):
        if not G.start <= b < G.stop: return 0
        return {0: 0, 2: 1}.get(self.kind, 0) if self.kind in (0, 2) else (self.ms[g][b] if self.kind == 1 else self.cp.used[g][(b - G.start) // 2])

def draw_mask(w, d, rng, c, alpha, im, ics, indep, dt_ok):
    from .fd import CpD
    m = Mask(); sh = int(ics.short); G = c.g[sh]; ng = len(ics.groups()); m.kind = d.int(0, 3); w.u(m.kind, 2); d.label('igfmask%d' % m.kind)
    st = 1 if c.highres else 2
    if m.kind == 1:
        m.ms = []
        for g in range(ng):
            row = {}
            for b in range(G.start, G.stop, st):
                v = int(rng.integers(0, 2)); w.u(v, 1); row[b] = v
                if st == 2: row[b + 1] = v
            m.ms.append(row)
    if m.kind == 3:
        cp = m.cp = CpD(); bs = list(range(G.start, G.stop, 2)); cp.cplx = 0; al = int(d.bool()); w.u(al, 1)
        cp.used = [[1 if al else int(rng.integers(0, 2)) for _ in bs] for _ in range(ng)]
        if not al:
            for r in cp.used:
                for v in r: w.u(v, 1)
        cp.dir = d.int(0, 1); w.u(cp.dir, 1); dt = 0
        if not indep: dt = d.int(0, 1) if dt_ok else 0; w.u(dt, 1)
        lim = d.choice([5, 12, 25]); cp.re = rng.integers(-lim, lim + 1, (ng, len(bs)))
        for g in range(ng):
            last = 0
            for p, b in enumerate(bs):
                if dt: last = alpha[b]
                r = int(cp.re[g][p]) if cp.used[g][p] else 0
                if cp.used[g][p]: w.s(scf_code(int(last - r)))
                alpha[b] = last = r
        alpha[G.stop:] = 0
    else: alpha[G.start:] = 0
    im[G.start:] = 0
    return m

def joint(c, xs, m, ics, coef, Ys, seeds, near=(None, None)):
    """fills the gaps of a channel pair together -> seeds, size of what rounding may turn over"""
    from .fd import cp_apply, bands
    seeds = list(seeds); sh = int(ics.short); G = c.g[sh]; amb = 0.; fills = None; zs = None; fsidx = c.fsidx
    if not (xs[0].zero and xs[1].zero):
        for a, b in ((0, 1), (1, 0)):
            # the channel without a level of its own uses the other one's tiles
            if xs[a].zero and not xs[b].zero: xs[a].tile, xs[a].wh, xs[a].tnf = xs[b].tile, xs[b].wh, xs[b].tnf
        n = 128 if sh else N; src = [G.src(x.tile) for x in xs]; A = G.bgn; w0 = 0; L = G.end - A; one = np.ones(L, bool); dz = 0.; fills = [np.zeros(N), np.zeros(N)]; zs = [np.zeros(N, bool), np.zeros(N, bool)]
        both_near = None
        for q in near: both_near = q if both_near is None else both_near if q is None else both_near | q
        for x, Y in zip(xs, Ys): dz = max(dz, _wh(c, x, G, sh, Y))
        for g, gl in enumerate(ics.groups()):
            mk = np.zeros(L, bool)
            for b, lo, hi in G.bands(): mk[lo - A:hi - A] = bool(m.on(g, b, G))
            sn = [{}, {}]; pn = [{}, {}]; V = [[], []]
            for k in range(gl):
                o = (w0 + k) * n; v = [None, None]
                for i in (0, 1): v[i], seeds[i] = _values(c, xs[i], G, sh, Ys[i], src[i], o, one, seeds[i])
                v = [np.where(mk, .5 * (v[0] + v[1]), v[0]), np.where(mk, .5 * (v[0] - v[1]), v[1])]
                for i in (0, 1):
                    cw = coef[i][o + A:o + G.end]; z = cw == 0; V[i].append((v[i], z)); _energy(G, sn[i], pn[i], cw, v[i], z)
            for i in (0, 1):
                f, a = _gains(xs[i], G, g, gl, sn[i], pn[i], V[i], dz); amb = max(amb, a, 2 * _near(c, xs[i], G, g, both_near, [(w0 + k) * n + A for k in range(gl)]))
                for k in range(gl):
                    o = (w0 + k) * n; v, z = V[i][k]; s = slice(o + A, o + G.end); coef[i][s][z] = (f * v)[z]; fills[i][s] = f * v; zs[i][s] = z
            for k in range(gl):
                s = slice((w0 + k) * n + A, (w0 + k) * n + G.end); both = zs[0][s] & zs[1][s]
                for i in (0, 1): zs[i][s] = np.where(mk, both, zs[i][s])
            w0 += gl
    todo = [coef] + ([fills] if fills is not None and not sh else [])
    for l, r in todo:
        if m.kind == 3: cp_apply(l, r, m.cp, ics, fsidx, G.start, G.stop)
        elif m.kind:
            for g, b, sl in bands(ics, fsidx):
                if m.on(g, b, G):
                    for s in sl: p, q = l[s].copy(), r[s].copy(); l[s] = p + q; r[s] = p - q
    if fills is not None:
        for i, x in enumerate(xs):
            if x.tnf: s = slice(G.bgn, G.end); y = tnf(fills[i][s]); z = zs[i][s]; coef[i][s][z] = y[z]; amb = max(amb, _unsure(fills[i][s], max(amb, 1e-20 * np.max(x.err))))
    return seeds, amb

def equip(d, elems, p=.8, same=False):
    """gives elements a random gap filling configuration"""
    from .core import SCE, CPE
    one = lambda: dict(enf=d.int(0, 1), highres=d.int(0, 1), whitening=d.int(0, 1), after_tns=d.int(0, 1), start=d.weighted([(d.int(0, 10), 3), (d.int(0, 31), 2)]), stop=d.weighted([(15, 2), (d.int(0, 15), 3)]))
    x = one()
    for e in elems:
        if e.kind in (SCE, CPE) and (same or d.bool(p)): e.igf = x if same else one(); e.igf_indep_tiling = d.int(0, 1)
    return elems
