"""Frequency-domain core coder: frame descriptors -> bits (writer), frame descriptors -> PCM (double-precision reference model
written from ISO/IEC 23003-3 / 23008-3).  A descriptor describes what the syntax elements say; nothing is shared with /repo."""
import numpy as np
from .core import T, BW, AriState, scf_code, FS, SFBL, SFBS, SCE, CPE, LFE, EXT, nbits_for
ONLY, START, SHORT, STOP, SS = 0, 1, 2, 3, 4
N = 1024

def sine_win(n): return np.sin(np.pi / (2 * n) * (np.arange(n) + 0.5))
def kbd_win(n, alpha):
    k = np.i0(np.pi * alpha * np.sqrt(np.maximum(0, 1 - ((np.arange(n + 1) - n / 2) / (n / 2)) ** 2)))
    c = np.cumsum(k); return np.sqrt(c[:n] / c[n])
WIN = {(1024, 0): sine_win(1024), (128, 0): sine_win(128), (1024, 1): kbd_win(1024, 4.0), (128, 1): kbd_win(128, 6.0),
       (256, 0): sine_win(256), (256, 1): kbd_win(256, 4.0)}

_basis = {}
def basis(n, kt):
    """2n x n synthesis matrix; kt = (left aliasing symmetry << 1) | right: MDCT-IV, MDST-II.., see kernel switching"""
    b = _basis.get((n, kt))
    if b is None:
        t = np.arange(2 * n)[:, None] + 0.5 + n / 2; k = np.arange(n)[None, :]
        if kt == 0: b = np.cos(np.pi / n * t * (k + 0.5))
        elif kt == 3: b = np.sin(np.pi / n * t * (k + 0.5))
        elif kt == 2: b = np.cos(np.pi / n * t * k); b[:, 0] *= np.sqrt(0.5)
        else: b = np.sin(np.pi / n * t * (k + 1)); b[:, n - 1] *= np.sqrt(0.5)
        _basis[(n, kt)] = b
    return b
_tw = {}
def imdct(x, kt=0):
    """basis(n, kt) @ x / n by way of a complex transform of twice the length"""
    n = len(x); w = _tw.get((n, kt))
    if w is None:
        o = (0.5, 1.0, 0.0, 0.5)[kt]; a = 0.5 + n / 2; j = 1j * np.pi / n
        w = _tw[(n, kt)] = (np.exp(j * a * np.arange(n)), 2 * np.exp(j * o * (np.arange(2 * n) + a)) * (1 if kt in (0, 2) else -1j))
    if kt in (1, 2): x = np.array(x, float); x[0 if kt == 2 else n - 1] *= np.sqrt(0.5)
    z = np.zeros(2 * n, complex); z[:n] = x * w[0]
    return (np.fft.ifft(z) * w[1]).real

class Ics:
    """window information"""
    def __init__(self, seq=ONLY, shape=0, max_sfb=0, grouping=0x7f): self.seq, self.shape, self.max_sfb, self.grouping = seq, shape, max_sfb, grouping
    @property
    def short(self): return self.seq == SHORT
    def groups(self):
        if not self.short: return [1]
        g = [1]
        for i in range(6, -1, -1):
            if (self.grouping >> i) & 1: g[-1] += 1
            else: g.append(1)
        return g
    def write(self, w):
        w.u(START if self.seq == SS else self.seq, 2).u(self.shape, 1)
        if self.short: w.u(self.max_sfb, 4).u(self.grouping, 7)
        else: w.u(self.max_sfb, 6)

def sfb_off(fsidx, short):
    t = T[('sfbS_' + SFBS[fsidx]) if short else ('sfbL_' + SFBL[fsidx])].astype(int)
    return np.concatenate([[0], t])

class ChD:
    """one channel of one frame"""
    __slots__ = ('ics', 'gg', 'nl', 'sf', 'q', 'tns', 'fdp', 'ltpf', 'pa', 'ca', 'areset', 'stop', 'igf', 'Y', 'near', 'emag', 'unsure', 'below')
    def __init__(self):
        self.ics = None; self.gg = 100; self.nl = 0; self.unsure = 0.; self.below = None; self.sf = None; self.q = None; self.tns = None; self.fdp = None
        self.ltpf = None; self.pa = self.ca = 0; self.areset = 0; self.stop = True; self.igf = None; self.Y = None

class ChState:
    def __init__(self, seed=0):
        self.ari = AriState(); self.ca = 0; self.seq = ONLY       # bit-stream side
        self.first = True; self.shape = 0; self.mseq = ONLY; self.tail = np.zeros(N); self.seed = seed & 0xffffffff; self.fdp1 = np.zeros(172, np.int64); self.fdp2 = np.zeros(172, np.int64)
        self.mca = 0; self.coef_save = np.zeros(N); self.save_short = False; self.ltpf = None

def write_tns(w, t, short):
    """t: list (per window) of list of filters (length, order, direction, compress, coefs, ) with a coef_res flag: (res, [filters])"""
    nb, lb, ob = (1, 4, 3) if short else (2, 6, 4)
    for res, fl in t:
        w.u(len(fl), nb)
        if not fl: continue
        w.u(res, 1)
        for ln, order, direc, comp, coefs in fl:
            w.u(ln, lb).u(order, ob)
            if order:
                w.u(direc, 1).u(comp, 1); nbit = 3 + res - comp
                for c in coefs: w.u(c & ((1 << nbit) - 1), nbit)

def write_ltpf(w, l):
    w.u(0 if l is None else 1, 1)
    if l is not None: w.u(l[0], 9).u(l[1], 2)

def write_ch(w, d, st, *, nf, cw, common_ltpf, indep, fsidx, tns_here, igfw=None):
    ics = d.ics; short = ics.short; off = sfb_off(fsidx, short)
    w.u(d.gg, 8)
    if nf: w.u(d.nl, 8)
    if not cw: ics.write(w)
    if not common_ltpf: write_ltpf(w, d.ltpf)
    if not short and not indep:
        w.u(0 if d.fdp is None else 1, 1)
        if d.fdp is not None: w.u(d.fdp, 8)
    if indep: w.u(d.pa, 1)
    w.u(d.ca, 1)
    last = d.gg; first = True
    for g in range(len(ics.groups())):
        for b in range(ics.max_sfb):
            if first: first = False; continue
            v = int(d.sf[g][b]); w.s(scf_code(v - last)); last = v
    if igfw: igfw(w)
    if tns_here: write_tns(w, d.tns, short)
    if not indep: w.u(d.areset, 1)
    n = 128 if short else 1024
    st.ari.map(n, indep or d.areset)
    mx = int(off[ics.max_sfb])
    if mx == 0: st.ari.c[2:2 + n // 2] = 1
    else:
        for wi in range(8 if short else 1):
            w.s(st.ari.encode(d.q[wi * n: wi * n + mx], mx // 2, n // 2, d.stop))
    w.u(0, 1)
    st.ca = d.ca; st.seq = ics.seq

# ---------------------------------------------------------------- model
def lcg(seed): 
    s = (seed * 69069 + 5) & 0xffffffff
    return s, (-1.0 if s & 0x10000 else 1.0)

def dequant(d, st, nf, fsidx, igf=None, below=None):
    """-> coefficients (windows concatenated).  below: (downmix of the previous frame, its error) for stereo filling.  igf: gap filling configuration, whose source spectra go to d.Y"""
    ics = d.ics; short = ics.short; off = sfb_off(fsidx, short); n = 128 if short else 1024
    q = d.q.astype(np.int64); out = np.zeros(N)
    aq = np.minimum(np.abs(q), 8191).astype(float); base = np.sign(q) * aq ** (4.0 / 3.0)
    nl = d.nl if nf else 0
    if 0 < nl < 32 and (ics.seq in (SS, START) or below): nl <<= 3
    lev = 2.0 ** (((nl >> 5) - 14) / 3.0) if nl >> 5 else 0.0
    mns = ics.max_sfb; NT = 0
    if igf: G = igf.g[int(short)]; mns = min(mns, G.start); NT = len(G.tiles); d.Y = np.zeros((4, N))
    w0 = 0
    for g, gl in enumerate(ics.groups()):
        for b in range(ics.max_sfb):
            lo, hi = off[b], off[b + 1]
            seg = [slice((w0 + k) * n + lo, (w0 + k) * n + hi) for k in range(gl)]
            zero = not any(q[s].any() for s in seg)
            f = int(d.sf[g][b]) - 100
            if nf and zero: f += (nl & 31) - 16
            here = nf and lo >= (20 if short else 160) and b < mns
            for s in seg:
                v = base[s].copy()
                if here:
                    qs = q[s]
                    for i in np.nonzero(qs == 0)[0]:
                        st.seed, sg = lcg(st.seed); v[i] = lev * sg
                out[s] = v * 2.0 ** (0.25 * f)
                if NT:
                    d.Y[:NT, s] = out[s]
                    if here and igf.enf and not d.igf.zero:
                        # each tile has noise of its own
                        for i in np.nonzero(qs == 0)[0]:
                            for t in range(NT): st.seed, sg = lcg(st.seed); d.Y[t, s.start + i] = lev * sg * 2.0 ** (0.25 * f)
            if below and zero and here and nl:
                for y in [out] + list(d.Y[:NT] if NT else ()): d.unsure = max(d.unsure, stereofill(y, seg, below, 2.0 ** (0.25 * f)))
        w0 += gl
    return out

def stereofill(y, seg, below, scale):
    """the noise of a band (four times as loud) is topped up to unit power with the previous frame's downmix"""
    i = np.concatenate([np.arange(s.start, s.stop) for s in seg]); v = y[i] * (4 / scale); m, err = below[0][i], below[1][i]; e = (v ** 2).sum(); w = len(i); u = 0.
    if e < w:
        p = (m ** 2).sum(); f = min(10., np.sqrt((w - e) / p)) if p else 10.
        v = v + f * m; e2 = (v ** 2).sum(); g = 1.
        if e2 > 0: g = min(10., np.sqrt(w / (e2 + 1e-8)))
        v = v * g; u = f * g * err.sum() * scale
    y[i] = v * scale
    return u

FDP_MAX = 31775
def fdp_apply(d, st, coef, indep, fsidx, igf=None):
    ics = d.ics; off = sfb_off(fsidx, ics.short); fs = FS[fsidx]; pbw = 132 if fs >= 44100 else 160
    if indep: st.fdp1[:] = 0; st.fdp2[:] = 0
    ms, hs = 0, 0
    if not ics.short and ics.max_sfb > 0:
        ms = ics.max_sfb
        if pbw < off[ms]:
            ms = 1
            while off[ms] < pbw: ms += 1
            if d.fdp is not None: hs = int(T['harm'][d.fdp])
    s1 = s2 = 0; hidx, cidx = -128, 256; pr = np.zeros(172, np.int64); last = 0
    for b in range(ms):
        sc = int(d.sf[0][b]) - 121
        sc = 0 if sc < 0 else (65536 if sc > 62 else int(T['fdp_scf'][sc]))
        if hs:
            for i in range(off[b], off[b + 1]):
                if abs(i * 256 - hidx) < 384:
                    r = s1 * int(st.fdp1[i]) + s2 * int(st.fdp2[i])
                    v = (abs(r) + 16384) >> 15; v = -v if r < 0 else v
                    coef[i] += 512.0 * v; pr[i] = v
                if i * 256 == cidx:
                    hidx += hs; c = hidx & 255
                    if c > 128: c = 256 - c
                    s2 = int(T['fdp_s2'][c]); s1 = int(T['fdp_s1'][c])
                    if ((hidx >> 8) & 1) == 0: s1 = -s1
                    cidx = 256 + ((hidx + 128) >> 8) * 256
        for i in range(off[b], off[b + 1]):
            x = int(T['fdp_exp'][min(abs(int(d.q[i])), 181)]); x = ((512 + x * sc) & 0xffffffff) >> 10
            if d.q[i] < 0: x = -x
            if hs: x += int(pr[i])
            st.fdp2[i] = st.fdp1[i]; st.fdp1[i] = max(-FDP_MAX, min(FDP_MAX, x))
        last = off[b + 1]
    if d.Y is not None and d.fdp is not None and not ics.short:
        e = min(pbw, off[min(ics.max_sfb, igf.g[0].start)])
        if e: d.Y[:len(igf.g[0].tiles), :e] = coef[:e]
    e = min(last, pbw)
    st.fdp1[e:] = 0; st.fdp2[e:] = 0
    return coef

def tns_lpc(order, res, coefs):
    f0 = ((1 << (res - 1)) - 0.5) / (np.pi / 2); f1 = ((1 << (res - 1)) + 0.5) / (np.pi / 2)
    a = [1.0]
    for m in range(1, order + 1):
        k = np.sin(coefs[m - 1] / (f0 if coefs[m - 1] >= 0 else f1))
        b = a + [0.0]; a = [b[i] + k * b[m - i] for i in range(m + 1)]
    return np.array(a)

def tns_apply(coef, t, ics, fsidx, nbands=None, igf=False):
    from scipy.signal import lfilter
    short = ics.short; off = sfb_off(fsidx, short); n = 128 if short else 1024
    nb = ics.max_sfb if nbands is None else nbands; tm = int(T['tns_max_bands'][fsidx][1 if short else 0])
    for wi, (res, fl) in enumerate(t):
        top = len(off) - 1
        for ln, order, direc, comp, coefs in fl:
            stop = top; start = top - ln; top = start
            if not order: continue
            lo = off[min(start, tm, nb)]; hi = off[min(stop, nb) if igf else min(stop, tm, nb)]
            if hi <= lo: continue
            a = tns_lpc(order, 3 + res, coefs); s = coef[wi * n + lo: wi * n + hi]
            if direc: s = s[::-1]
            y = lfilter([1.0], a, s)
            coef[wi * n + lo: wi * n + hi] = y[::-1] if direc else y
    return coef

def window_halves(seq, shape, prev_shape):
    def slope(n): return n
    l = np.zeros(N); r = np.zeros(N)
    if seq in (ONLY, START): l = WIN[(1024, prev_shape)]
    else: l = np.concatenate([np.zeros(448), WIN[(128, prev_shape)], np.ones(448)])
    if seq in (ONLY, STOP): r = WIN[(1024, shape)][::-1]
    else: r = np.concatenate([np.ones(448), WIN[(128, shape)][::-1], np.zeros(448)])
    return l, r

def synth(coef, ics, st, kt=0):
    """windowed overlap-add synthesis -> 1024 samples"""
    if st.first: st.shape = ics.shape; st.first = False
    if ics.short:
        buf = np.zeros(2 * N)
        for k in range(8):
            y = imdct(coef[k * 128:(k + 1) * 128], 0)
            l = WIN[(128, st.shape if k == 0 else ics.shape)]; r = WIN[(128, ics.shape)][::-1]
            buf[448 + k * 128: 448 + k * 128 + 256] += y * np.concatenate([l, r])
    else:
        l, r = window_halves(ics.seq, ics.shape, st.shape)
        buf = imdct(coef, kt) * np.concatenate([l, r])
    out = buf[:N] + st.tail; st.tail = buf[N:]; st.shape = ics.shape; st.mseq = ics.seq
    return out

class Ltpf:
    def __init__(self, fs):
        self.pmin = int(np.float32(34.0 * (fs / 2.0) / 12800.0) + 0.5) * 2
        self.fr1 = 320; self.fr2 = 324 - self.pmin; self.pmax = 54 + 6 * self.pmin
        self.xin = np.zeros(8); self.yout = np.zeros(self.pmax + 4)
        self.extra = 0.0; self.p = (0, 0, 0.0, 0); self.c1 = T['ltpf1'].astype(float).reshape(2, 8); self.c2 = T['ltpf2'].astype(float).reshape(4, 7)
    def params(self, l, idx):
        if l is None: return (0, 0, 0.0, idx)
        lag, gi = l; a = (self.fr2 - self.pmin) * 2; b = self.fr1 - self.fr2
        if lag < a: return (self.pmin + lag // 2, lag - (lag // 2) * 2, (gi + 1) * 0.0625, gi)
        if lag < a + b: return (self.fr2 + lag - a, 0, (gi + 1) * 0.0625, gi)
        return ((lag - a - b) * 2 + self.fr1, 0, (gi + 1) * 0.0625, gi)

class ElemState:
    def __init__(self, kind, fsidx, seeds):
        self.kind = kind; self.ch = [ChState(seeds[i]) for i in range(2 if kind == CPE else 1)]
        self.alpha_re = np.zeros(64, int); self.alpha_im = np.zeros(64, int)
        self.ltpf = [Ltpf(FS[fsidx]) for _ in self.ch]

# ---------------------------------------------------------------- stereo model
def _f7(x, f, even):
    """7-tap MDST estimation with mirrored ends; even: factor applied to even-indexed outputs"""
    n = len(x); e = np.empty(n + 6)
    e[3:n + 3] = x; e[2], e[1], e[0] = x[0], x[1], x[2]
    e[n + 3], e[n + 4], e[n + 5] = x[n - 1], x[n - 2], x[n - 3]
    s = np.zeros(n)
    for k in range(7): s += f[k] * e[6 - k: 6 - k + n]
    s[0::2] *= even
    return s
_SH = {0: 'sin', 1: 'kbd'}
def _mname(base, prev, cur): return 'mdst_%s_%s' % (base, _SH[cur] if prev == cur else (_SH[prev] + '_' + _SH[cur]))
def mdst_est(dmx, dmx_prev, seq, shape, prev_shape):
    base = {ONLY: 'long', SHORT: 'long', START: 'start', STOP: 'stop', SS: 'stopstart'}[seq]
    cf = T[_mname(base, prev_shape, shape)].astype(float)
    pf = T['mdst_%s_%s' % ('stop_stopstart_left' if seq in (STOP, SS) else 'l_s_start_left', _SH[prev_shape])].astype(float)
    n = 128 if seq == SHORT else 1024; out = np.zeros(N)
    for w in range(N // n):
        cur = dmx[w * n:(w + 1) * n]
        o = _f7(cur, cf, 1.0)
        if dmx_prev is not None: o += _f7(dmx_prev, pf, -1.0)
        out[w * n:(w + 1) * n] = o; dmx_prev = cur
    return out

def bands(ics, fsidx):
    """iterate (group, band, [slices])"""
    off = sfb_off(fsidx, ics.short); n = 128 if ics.short else 1024; w0 = 0
    for g, gl in enumerate(ics.groups()):
        for b in range(len(off) - 1):
            yield g, b, [slice((w0 + k) * n + off[b], (w0 + k) * n + off[b + 1]) for k in range(gl)]
        w0 += gl

class StD:
    """stereo part of a channel pair frame"""
    def __init__(self):
        self.cw = 0; self.common_max = 1; self.mask = 0; self.ms = None; self.cp = None; self.common_ltpf = 0; self.tns_active = 0
        self.common_tns = 0; self.tns_on_lr = 1; self.tns_both = 1; self.tns_first = 0; self.igf_mask = None

class CpD:
    """complex prediction data: used[g][pb], dir, cplx, use_prev, dt, re[g][pb], im[g][pb] (per pair of bands)"""
    pass

def write_cp(w, cp, es, ngrp, mste, indep, clear=64):
    npb = (mste + 1) // 2
    allu = all(cp.used[g][p] for g in range(ngrp) for p in range(npb)) and cp.all
    w.u(1 if allu else 0, 1)
    if not allu:
        for g in range(ngrp):
            for p in range(npb): w.u(cp.used[g][p], 1)
    w.u(cp.dir, 1).u(cp.cplx, 1)
    if cp.cplx and not indep: w.u(cp.use_prev, 1)
    if not indep: w.u(cp.dt, 1)
    for g in range(ngrp):
        lr = li = 0
        for p in range(npb):
            if cp.dt: lr, li = es.alpha_re[2 * p], es.alpha_im[2 * p]
            if not cp.used[g][p]: r = i = 0
            else:
                r = cp.re[g][p]; i = cp.im[g][p] if cp.cplx else 0
                w.s(scf_code(int(lr - r)))
                if cp.cplx: w.s(scf_code(int(li - i)))
            es.alpha_re[2 * p], es.alpha_im[2 * p] = r, i; lr, li = r, i
    es.alpha_re[mste:clear] = 0; es.alpha_im[mste:clear] = 0

def stereo_apply(L, R, st, ics, fsidx, mste, es, pshape, dmx_prev, extra=(), igf_start=None, more=None):
    """in place; L,R decoded channel spectra -> left/right; extra: further pairs of spectra, gap filling sources"""
    if st.mask in (1, 2):
        for g, b, sl in bands(ics, fsidx):
            for k, (l_, r_) in enumerate([(L, R)] + list(extra)):
                # the sources end where the gap filling starts
                if b < (min(mste, igf_start) if k else mste) and (st.mask == 2 or st.ms[g][b]):
                    for s in sl: l, r = l_[s].copy(), r_[s].copy(); l_[s] = l + r; r_[s] = l - r
    elif st.mask == 3:
        for l, r in list(extra) + [(L, R)]: cp_apply(l, r, st.cp, ics, fsidx, 0, mste, pshape, dmx_prev, more)

def cp_apply(L, R, cp, ics, fsidx, b0, b1, pshape=0, dmx_prev=None, more=None):
    """more(g, b): further bands whose first channel is the downmix already"""
    f = -1.0 if cp.dir else 1.0; im = None; use = lambda g, b: b0 <= b < b1 and cp.used[g][(b - b0) // 2]
    if cp.cplx:
        dmx = 0.5 * (L + f * R)
        for g, b, sl in bands(ics, fsidx):
            if use(g, b) or more and more(g, b):
                for s in sl: dmx[s] = L[s]
        im = mdst_est(dmx, dmx_prev if cp.use_prev else None, ics.seq, ics.shape, pshape)
    for g, b, sl in bands(ics, fsidx):
        if use(g, b):
            ar = 0.1 * cp.re[g][(b - b0) // 2]; ai = 0.1 * cp.im[g][(b - b0) // 2] if cp.cplx else 0.0
            for s in sl:
                res = R[s] - ar * L[s]
                if cp.cplx: res -= ai * im[s]
                R[s] = f * (L[s] - res); L[s] = L[s] + res

def ltpf_run(lt, x, l):
    """long-term post filter on one frame"""
    n0, tr = N // 2, N // 8
    X = np.concatenate([lt.xin, x]); xo = len(lt.xin); Y = np.concatenate([lt.yout, np.zeros(N)]); yo = len(lt.yout)
    A = 0.95
    def filt(lo, n, P, mode, zir=None):
        pi, pf, g, gi = P
        if g == 0.0: Y[yo + lo: yo + lo + n] = X[xo + lo: xo + lo + n]; return
        c1, c2 = lt.c1[pf], lt.c2[gi]
        for k in range(n):
            t = lo + k
            s1 = Y[yo + t - pi - 4: yo + t - pi + 4] @ c1
            s2 = X[xo + t - 6: xo + t + 1][::-1] @ c2
            v = g * s1 - A * g * s2
            if mode == 2: v *= k / n
            elif mode == 3: v *= 1 - k / n
            Y[yo + t] = X[xo + t] + v - (zir[k] if mode == 1 else 0.0)
    P0 = lt.p; P1 = lt.params(l, P0[3] if l is None else l[1])
    filt(0, n0, P0, 0)
    if P1[:3] == P0[:3]: filt(n0, tr, P1, 0)
    elif P0[2] == 0.0: filt(n0, tr, P1, 2)
    elif P1[2] == 0.0: filt(n0, tr, P0, 3)
    else:
        s = Y[yo + n0 - N // 4: yo + n0]; n = N // 4; o = 24
        r0 = np.array([s[:n - i] @ s[i:] for i in range(o + 1)])
        pi, pf, g, gi = P1; b0 = np.zeros(o)
        for k in range(o):
            t = n0 + k - o
            s1 = Y[yo + t - pi - 4: yo + t - pi + 4] @ lt.c1[pf]
            s2 = X[xo + t - 6: xo + t + 1][::-1] @ lt.c2[gi]
            b0[k] = (X[xo + t] - A * g * s2) - (Y[yo + t] - g * s1)
        def zir(r):
            r = r.copy(); r[0] = max(r[0], 100.0) * 1.0001
            a = np.zeros(o + 1); a[0] = 1; a[1] = -r[1] / r[0]; sg = r[0] + r[1] * a[1]
            for i in range(2, o + 1):
                k = -sum(r[i - j] * a[j] for j in range(i)) / sg; sg *= 1 - k * k
                if sg <= 1e-9: break
                a[1:i] = a[1:i] + k * a[1:i][::-1]; a[i] = k
            buf = np.concatenate([b0, np.zeros(tr)])
            for k in range(tr): buf[o + k] = -(a[1:] @ buf[k: k + o][::-1])
            z = buf[o:].copy(); h = tr // 2; z[h:] *= 1 - np.arange(h) / h
            return z
        z = zir(r0); pr = np.random.default_rng(12345)
        # the linear prediction is ill-conditioned for tonal signals: how far single-precision rounding can move it
        lt.extra = max([lt.extra] + [12 * np.abs(zir(r0 + r0[0] * 4e-7 * pr.uniform(-1, 1, o + 1)) - z).max() for _ in range(2)])
        filt(n0, tr, P1, 1, z)
    filt(n0 + tr, N - n0 - tr, P1, 0)
    lt.xin = X[-8:]; lt.yout = Y[len(Y) - yo:]; lt.p = P1
    return Y[yo:]
