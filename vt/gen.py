"""Random generation of frequency-domain core frames: draws descriptors, writes the bits and runs the reference model."""
import numpy as np
from . import core, fd, igf
from .core import *
from .fd import *

DEF = dict(p_indep=0.3, p_short=0.25, p_kbd=0.4, p_tns=0.0, p_fdp=0.0, p_ltpf=0.0, p_kernel=0.0, p_cw=0.6, p_ms=0.5, p_cp=0.4, p_zero=0.1,
           elo=9.0, ehi=17.0, p_huge=0.05, p_trans=0.4, p_nostop=0.15, nl_any=True, p_sfill=.25, p_silent=0.03, p_sync=0.0)

def next_seq(d, prev, p_trans):
    """legal window sequence transitions"""
    if prev in (ONLY, STOP): return START if d.bool(p_trans) else ONLY
    return d.weighted([(SHORT, 5), (STOP, 4), (SS, 2)])

def f_sync(g): return bool(g.f['p_sync']) and g.d.bool(g.f['p_sync'])

def inexact(S, ics, fsidx):
    """lines that a prediction coefficient without an exact form (1), or the estimated imaginary part (2), was used for"""
    m = np.zeros(N, int)
    if S.mask == 3:
        for g, b, sl in bands(ics, fsidx):
            k = b // 2
            if k < len(S.cp.used[g]) and S.cp.used[g][k]:
                for s in sl: m[s] = 2 if S.cp.cplx and S.cp.im[g][k] else int(S.cp.re[g][k] != 0)
    return m

class FdGen:
    """a stream of FD frames for the given element list; frame() returns payload bytes, .pcm accumulates model output per channel"""
    def __init__(self, d, fsidx, elems, feat=None, seeds=None):
        self.d, self.fsidx, self.elems = d, fsidx, elems
        self.f = dict(DEF); self.f.update(feat or {})
        self.es = []
        for e in elems:
            if e.kind in (SCE, CPE, LFE): self.es.append(ElemState(e.kind, fsidx, [0x3039, 0x10932]))
            else: self.es.append(None)
        self.igf = [igf.IgfCfg(e.igf, fsidx, e.igf_indep_tiling if e.kind == CPE else 1) if e.kind in (SCE, CPE) and e.igf else None for e in elems]
        self.igs = [[igf.IgfSt(), igf.IgfSt()] for _ in elems]; self.igm = {}
        self.nframe = 0; self.elem_len = 0; self.plain = []; self.cur = []; self.prevdmx = {}
        self.peak = 1.0; self.ext_payload = {}; self.epk = {}; self.apk = {}; self.cpk = {}; self.cel = 0; self.amf = 0.
        self.mct = []       # (index of the extension element, tool)
        self.post = []; self.sync = None
        self.mute = set()   # elements without any spectrum
    # --- drawing
    def ics(self, prev_seq, rng, lfe=False):
        d, f = self.d, self.f
        if lfe: seq = ONLY
        elif self.sync is not None: seq = self.sync
        else: seq = next_seq(d, prev_seq, f['p_trans'])
        ic = Ics(seq, 1 if d.bool(f['p_kbd']) else 0)
        nb = len(sfb_off(self.fsidx, ic.short)) - 1
        mb = min(nb, 15 if ic.short else 63)
        ic.max_sfb = 0 if self.cel in self.mute or d.bool(f['p_silent']) else (min(d.int(1, 4), mb) if lfe else d.weighted([(mb, 3), (d.int(0, mb), 5)]))
        ic.grouping = d.choice([0x7f, 0, int(rng.integers(0, 128)), int(rng.integers(0, 128))]) if ic.short else 0x7f
        return ic
    def spec(self, c, ic, rng):
        """quantised spectrum + scalefactors"""
        d, f = self.d, self.f; off = sfb_off(self.fsidx, ic.short); n = 128 if ic.short else N
        q = np.zeros(N, np.int32); G = ic.groups(); sf = []
        style = d.weighted([('small', 4), ('mid', 4), ('sparse', 3), ('big', 2), ('huge', 1 if f['p_huge'] else 0), ('empty', 1)])
        e = rng.uniform(f['elo'], f['ehi']); w0 = 0; last = None
        pz = 1.0 if style == 'empty' else rng.choice([0.0, f['p_zero'], 0.5])
        tilt = rng.uniform(-0.15, 0.02)
        for g, gl in enumerate(G):
            row = []
            for b in range(ic.max_sfb):
                mx = 0
                if rng.random() >= pz:
                    mxq = {'small': 2, 'mid': 15, 'sparse': 3, 'big': 300, 'huge': 9000}[style]
                    if style == 'huge' and rng.random() < 0.7: mxq = 20
                    for k in range(gl):
                        s = slice((w0 + k) * n + off[b], (w0 + k) * n + off[b + 1]); m = off[b + 1] - off[b]
                        v = rng.integers(-mxq, mxq + 1, m)
                        if style == 'sparse': v = v * (rng.random(m) < 0.15)
                        elif rng.random() < 0.3: v = (v * rng.random(m) ** 3).astype(int)
                        q[s] = v; mx = max(mx, int(np.abs(v).max()))
                e = min(f['ehi'], max(f['elo'], e + rng.normal(0, 0.4) + tilt * 0.5))
                t = 100 + int(round(4 * (e - (3 if ic.short else 0) - 4 / 3 * np.log2(max(mx, 1)))))
                if mx == 0: t += int(rng.integers(-20, 8))
                if last is not None: t = max(last - 60, min(last + 60, t))
                t = max(0, min(255, t)); row.append(t); last = t
            sf.append(row); w0 += gl
        c.q, c.sf = q, sf
        c.gg = sf[0][0] if ic.max_sfb else d.int(0, 255)
        c.stop = not d.bool(f['p_nostop'])
    def tns(self, ic, rng):
        """random filters with bounded gain"""
        off = sfb_off(self.fsidx, ic.short); nb = len(off) - 1; out = []
        for w in range(8 if ic.short else 1):
            nf = int(rng.integers(0, 2 if ic.short else 4)); res = int(rng.integers(0, 2)); fl = []; top = nb
            for i in range(nf):
                mxl = min(top - 1, 15 if ic.short else 63)
                if mxl < 0: break
                ln = int(rng.integers(0, mxl + 1)); top -= ln
                order = int(rng.integers(0, 8 if ic.short else 16)); comp = int(rng.integers(0, 2)); nbit = 3 + res - comp
                lim = 1 << (nbit - 1); sc = rng.choice([1.0, 0.5, 0.3])
                co = [max(-lim, min(lim - 1, int(round(x)))) for x in rng.uniform(-lim * sc, lim * sc, order)]
                # bound the filter's gain so that single-precision and double-precision runs stay comparable
                while order:
                    a = tns_lpc(order, 3 + res, co); h = np.zeros(160); h[0] = 1
                    from scipy.signal import lfilter
                    if np.abs(lfilter([1.0], a, h)).sum() < 30: break
                    co = [int(c / 2) for c in co]
                fl.append((ln, order, int(rng.integers(0, 2)), comp, co))
            out.append((res, fl))
        return out
    def draw_ltpf(self, st):
        d = self.d
        if not d.bool(self.f['p_ltpf']): return None
        if st.ltpf is not None and d.bool(0.5): return st.ltpf
        if st.ltpf is not None and d.bool(0.3): return (st.ltpf[0], d.int(0, 3))
        top = 511 if FS[self.fsidx] > 16000 else 480   # lags beyond the 306 samples of history are not sent at 16 kHz
        if st.ltpf is not None and d.bool(0.5): return (max(0, min(top, st.ltpf[0] + d.choice([-1, 1, -2, 2, 3, -3]))), st.ltpf[1])
        return (d.int(0, top), d.int(0, 3))
    def draw_nl(self, e, right_cw=False):
        d = self.d
        if not e.nf: return 0
        x = d.weighted([(0, 2), (1, 6)])
        if not x: return 0
        if right_cw == 2: return d.int(1, 31)
        # without a level the offset stands for both in front of short windows, and makes the pair's second channel use stereo filling
        return d.int(0, 7) * 32 + d.int(0, 31) if d.bool(.2) and not right_cw else d.int(1, 7) * 32 + d.int(0, 31)
    # --- one frame
    def frame(self, indep=None):
        d = self.d
        if indep is None: indep = self.nframe == 0 or d.bool(self.f['p_indep'])
        indep = 1 if indep else 0
        w = BW(); w.u(indep, 1); self.cur = []
        pl = BW(); pl.u(indep, 1)   # the same access unit without extension elements and element lengths
        parts = []; self.post = []; self.mch = []; self.sync = None
        if f_sync(self):
            st = [x.ch[k].seq for x in self.es if x is not None and x.kind != LFE for k in range(len(x.ch))]
            if st and all(t == st[0] for t in st): self.sync = next_seq(d, st[0], self.f['p_trans'])
            elif st and all((t in (ONLY, STOP)) == (st[0] in (ONLY, STOP)) for t in st): self.sync = next_seq(d, st[0], self.f['p_trans'])
        for i, e in enumerate(self.elems):
            ew = BW(); self.cel = i
            if e.kind in (SCE, LFE): self._single(ew, i, e, indep)
            elif e.kind == CPE: self._pair(ew, i, e, indep)
            parts.append(ew)
        for i, m in self.mct:
            # the coding tool needs the window class of every channel; its spectra are the channels' before stereo and noise shaping
            self.ext_payload[i] = m.draw(d, bool(indep), [x[1].ics.short for x in self.mch])
            X = [x[0] for x in self.mch]; ics = [x[1].ics for x in self.mch]
            m.apply(X, ics, [m.scale(x[1], x[1].ics, x[2]) for x in self.mch], [x[3] for x in self.mch], self.nframe == 0, [x[1].Y for x in self.mch])
            for c in m.chans:
                self.cel = self.mch[c][4]; self.track(X[c])
                # lines the tool nearly cancels: zero or not is a matter of rounding
                x = self.mch[c][1]; x.near = (m.mag[c] > 0) & (abs(X[c]) < 1e-5 * m.mag[c])
                x.emag = np.maximum(self.emag(x), m.mag[c])
        for el, fn in self.post: self.cel = el; self.amf = 0.; fn()
        if self.mct:
            top = max(self.epk.values())
            for _, m in self.mct:
                for c in m.chans: self.cpk[c] = max(self.cpk[c], top + 2e4 * m.extra)
        for i, e in enumerate(self.elems):
            if e.kind == EXT: self._ext(parts[i], i, e)
            b = parts[i].str()
            if e.kind != EXT:
                pl.s(b)
                if self.elem_len: w.u(len(b), 16)
            w.s(b)
        self.nframe += 1; self.plain.append(pl.bytes())
        return w.bytes()
    def _ext(self, w, i, e):
        p = self.ext_payload.get(i)
        if p is None: w.u(0, 1); return
        w.u(1, 1)
        if e.def_len is not None and len(p) == e.def_len: w.u(1, 1)
        else:
            w.u(0, 1)
            if len(p) < 255: w.u(len(p), 8)
            else: w.u(255, 8).u(len(p) - 253, 16)
        if e.frag and p: w.u(3, 2)
        for b in p: w.u(b, 8)
    def _kernel(self, c, st, indep, lfe):
        """aliasing symmetries; non-zero ones only around long windows"""
        d = self.d; p = self.f['p_kernel']
        if indep: c.pa = st.ca   # a consistent stream repeats the previous right-hand symmetry
        else: c.pa = st.ca
        c.ca = 0
    def _one(self, w, c, st, e, indep, cw, common_ltpf, tns_here, i=0, k=0, rng=None):
        ig = self.igf[i]; fw = None
        if ig:
            def fw(w): c.igf = igf.draw(w, self.d, rng, ig, self.igs[i][k], c.ics, indep, self.f['elo'], self.f['ehi'])
        write_ch(w, c, st, nf=e.nf and e.kind != LFE, cw=cw, common_ltpf=common_ltpf, indep=indep, fsidx=self.fsidx, tns_here=tns_here, igfw=fw)
    def _single(self, w, i, e, indep):
        d = self.d; es = self.es[i]; st = es.ch[0]; lfe = e.kind == LFE; rng = d.rng()
        c = ChD(); c.ics = self.ics(st.seq, rng, lfe); self.spec(c, c.ics, rng)
        c.nl = self.draw_nl(e) if not lfe else 0
        c.ltpf = self.draw_ltpf(st); st.ltpf = c.ltpf
        if not lfe and not c.ics.short and not indep and d.bool(self.f['p_fdp']): c.fdp = d.int(0, 255)
        c.areset = 1 if d.bool(0.2) else 0
        self._kernel(c, st, indep, lfe)
        t = 0
        if not lfe:
            w.u(0, 1); t = 1 if d.bool(self.f['p_tns']) else 0; w.u(t, 1)
            if t: c.tns = self.tns(c.ics, rng); d.label('tns')
        was = st.seq == SHORT
        self._one(w, c, st, e, indep, 0, 0, t, i, 0, rng); ig = self.igf[i]
        coef = dequant(c, st, e.nf and not lfe, self.fsidx, ig); coef = fdp_apply(c, st, coef, indep, self.fsidx, ig)
        self.track(coef); self.mch.append((coef, c, e.nf and not lfe, was, i))
        def post():
            self._shape(c, st, coef, ig, True, getattr(c, 'near', None))
            self.out(coef, c, st, es, 0)
        self.post.append((i, post)); self.label(c, lfe)
    def _shape(self, c, st, x, ig, fill, near=None):
        """noise shaping of one channel, and gap filling unless its pair is filled together"""
        if ig is None:
            if c.tns is not None: tns_apply(x, c.tns, c.ics, self.fsidx)
            return
        G = ig.g[int(c.ics.short)]
        if fill and not ig.after: self._mono(c, st, x, ig, near)
        if c.tns is not None:
            nb = min(c.ics.max_sfb, G.start) if ig.after else max(c.ics.max_sfb, G.stop)
            m = abs(x).max(); y0 = np.abs(c.Y).max()
            for s in (list(c.Y) if ig.after else []) + [x]: tns_apply(s, c.tns, c.ics, self.fsidx, nb, True)
            if m: self.amf *= max(4., 4 * abs(x).max() / m)
            if ig.after: c.emag = np.full(N, 4 * max(y0, np.abs(c.Y).max(), self.emag(c).max()))
        if fill and ig.after: self._mono(c, st, x, ig, near)
    def _mono(self, c, st, x, ig, near=None):
        c.igf.err = 5e-7 * self.emag(c); st.seed, a = igf.mono(ig, c.igf, c.ics, x, c.Y, st.seed, near); self.amb(a)
    def emag(self, c):
        """magnitudes whose rounding the lines carry besides their own"""
        e = getattr(c, 'emag', None)
        return e if e is not None else (4 * np.abs(c.Y).max(0) if c.fdp is not None and c.Y is not None else np.zeros(N))
    def amb(self, a):
        self.amf = max(self.amf, a)
        if a > .01: self.d.label('igf-amb')
    def label(self, c, lfe=False):
        d = self.d
        d.label('seq%d' % c.ics.seq)
        if c.fdp is not None: d.label('fdp')
        if c.ltpf is not None: d.label('ltpf')
        if c.nl: d.label('noise')
    def track(self, coef):
        v = np.abs(coef).max() / 32.0
        self.peak = max(self.peak, v); self.epk[self.cel] = max(self.epk.get(self.cel, 1.0), v)
    def out(self, coef, c, st, es, k):
        self.track(coef)
        y = synth(coef, c.ics, st, 2 * c.pa + c.ca)
        lt = es.ltpf[k]
        if c.ltpf is not None or lt.p[2] != 0.0: y = ltpf_run(lt, y, c.ltpf)
        else: lt.xin = np.concatenate([lt.xin, y])[-8:]; lt.yout = np.concatenate([lt.yout, y])[-len(lt.yout):]; lt.p = lt.params(None, lt.p[3])
        self.apk[len(self.cur)] = max(self.apk.get(len(self.cur), 0.) if c.ltpf is not None or lt.p[2] != 0.0 else 0., 5e3 * self.amf); self.cpk[len(self.cur)] = self.epk[self.cel] + 5e4 * es.ltpf[k].extra; self.cur.append(y)
    def _pair(self, w, i, e, indep):
        d, f = self.d, self.f; es = self.es[i]; s0, s1 = es.ch; rng = d.rng(); S = StD()
        w.u(0, 1).u(0, 1)
        S.tns_active = 1 if d.bool(f['p_tns']) else 0
        can_cw = s0.seq == s1.seq or (s0.seq in (ONLY, STOP)) == (s1.seq in (ONLY, STOP))
        S.cw = 1 if can_cw and d.bool(f['p_cw']) else 0
        w.u(S.tns_active, 1).u(S.cw, 1)
        c0, c1 = ChD(), ChD()
        if not S.cw or indep: es.alpha_re[:] = 0; es.alpha_im[:] = 0
        mste = 0; ig = self.igf[i]; joint = ig is not None and ig.joint and S.cw; im = None; wasc = self.igm.get(i)
        if S.cw:
            ic = self.ics(s0.seq, rng); c0.ics = ic; ic.write(w)
            S.common_max = 0 if d.bool(0.3) and i not in self.mute else 1
            c1.ics = Ics(ic.seq, ic.shape, ic.max_sfb, ic.grouping)
            w.u(S.common_max, 1)
            nb = min(len(sfb_off(self.fsidx, ic.short)) - 1, 15 if ic.short else 63)
            if not S.common_max: c1.ics.max_sfb = d.int(0, nb); w.u(c1.ics.max_sfb, 4 if ic.short else 6)
            mste = max(c0.ics.max_sfb, c1.ics.max_sfb); clear = 64
            if joint: clear = ig.g[int(ic.short)].start; mste = min(mste, clear)
            S.mask = 3 if d.bool(f['p_cp']) else (d.int(1, 2) if d.bool(f['p_ms']) else 0)
            w.u(S.mask, 2); ng = len(ic.groups()); d.label('cw')
            if S.mask == 1:
                S.ms = [[int(x) for x in rng.integers(0, 2, mste)] for _ in range(ng)]
                for g in range(ng):
                    for b in range(mste): w.u(S.ms[g][b], 1)
            if S.mask == 3:
                cp = CpD(); S.cp = cp; npb = (mste + 1) // 2; pu = rng.choice([1.0, 0.7, 0.3])
                cp.all = 1 if d.bool(0.5) else 0
                cp.used = [[1 if cp.all else int(x) for x in (rng.random(npb) < pu)] for _ in range(ng)]
                cp.dir = d.int(0, 1); cp.cplx = 0 if ig and ig.enf else d.int(0, 1); cp.use_prev = d.int(0, 1) if not indep else 0
                cp.dt = d.int(0, 1) if not indep else 0
                lim = d.choice([5, 12, 25])
                cp.re = rng.integers(-lim, lim + 1, (ng, npb)); cp.im = rng.integers(-lim, lim + 1, (ng, npb))
                # the previous downmix may only be referred to when its transform length is the current one (bit-stream requirement)
                pd = self.prevdmx.get(i)
                if not cp.cplx or pd is None or pd[2] != ic.short or pd[3] != ic.short: cp.use_prev = 0
                write_cp(w, cp, es, ng, mste, indep, clear)
                d.label('cp%d%d%d' % (cp.dir, cp.cplx, cp.use_prev))
            else: es.alpha_re[:clear] = 0; es.alpha_im[:clear] = 0
            if S.mask in (1, 2): d.label('ms')
            if joint: im = igf.draw_mask(w, d, rng, ig, es.alpha_re, es.alpha_im, ic, indep, wasc == ic.short); d.label('igf-joint')
        else:
            c0.ics = self.ics(s0.seq, rng); c1.ics = self.ics(s1.seq, rng)
        self.igm[i] = c0.ics.short if joint else None
        S.common_ltpf = 1 if d.bool(0.4) else 0
        w.u(S.common_ltpf, 1)
        c0.ltpf = self.draw_ltpf(s0)
        if S.common_ltpf: c1.ltpf = c0.ltpf; write_ltpf(w, c0.ltpf)
        else: c1.ltpf = self.draw_ltpf(s1)
        s0.ltpf, s1.ltpf = c0.ltpf, c1.ltpf
        t0 = t1 = 0
        if S.tns_active:
            d.label('tns')
            if S.cw: S.common_tns = d.int(0, 1); w.u(S.common_tns, 1)
            if not ig or ig.after: S.tns_on_lr = d.int(0, 1); w.u(S.tns_on_lr, 1)
            if S.common_tns:
                c0.tns = c1.tns = self.tns(c0.ics, rng); write_tns(w, c0.tns, c0.ics.short)
            else:
                both = d.int(0, 1); w.u(both, 1)
                if both: t0 = t1 = 1
                else: t1 = d.int(0, 1); t0 = 1 - t1; w.u(t1, 1)
                if t0: c0.tns = self.tns(c0.ics, rng)
                if t1: c1.tns = self.tns(c1.ics, rng)
        coefs = []; dmx_prev = self.prevdmx.get(i)
        for k, (c, st, t) in enumerate(((c0, s0, t0), (c1, s1, t1))):
            self.spec(c, c.ics, rng)
            below = None
            if S.cw and k == 1:
                pd = dmx_prev; ok = e.nf and not c.ics.short and not (S.cp is not None and S.cp.cplx) and (pd is None or indep or not pd[2] and not pd[3])
                if ok and (not self.mct or pd is None or indep) and d.bool(f['p_sfill']):
                    m = np.zeros(N); er = np.zeros(N); d.label('stereo-filling')
                    if pd is not None and not indep: m = self._prev(pd, S, c.ics); er = pd[4]
                    below = (m, er)
            c.nl = self.draw_nl(e, right_cw=2 if below else S.cw and k == 1)
            if not c.nl: below = None
            c.below = below
            if not c.ics.short and not indep and d.bool(f['p_fdp']): c.fdp = d.int(0, 255)
            c.areset = 1 if d.bool(0.2) else 0
            self._kernel(c, st, indep, False)
            was = st.seq == SHORT
            self._one(w, c, st, e, indep, S.cw, S.common_ltpf, t, i, k, rng)
            x = dequant(c, st, e.nf, self.fsidx, ig, below); x = fdp_apply(c, st, x, indep, self.fsidx, ig)
            self.track(x)
            if st.first: st.shape = c.ics.shape; st.first = False
            coefs.append(x); self.mch.append((x, c, e.nf, was, i))
        L, R = coefs; near = [None, None]
        def shape():
            for c, st, x, z in ((c0, s0, L, near[0]), (c1, s1, R, near[1])): self._shape(c, st, x, ig, not joint, z)
        def fill():
            c0.igf.err, c1.igf.err = 5e-7 * self.emag(c0), 5e-7 * self.emag(c1)
            (s0.seed, s1.seed), a = igf.joint(ig, (c0.igf, c1.igf), im, c0.ics, (L, R), (c0.Y, c1.Y), (s0.seed, s1.seed), near); self.amb(a)
        def post():
            near[:] = [getattr(c, 'near', None) for c in (c0, c1)]; self.amb(c0.unsure + c1.unsure)
            if not S.tns_on_lr: shape()
            if S.cw and S.mask:
                prev = np.zeros(128 if c0.ics.short else N)
                if dmx_prev is not None and not indep: prev = self._prev(dmx_prev, S, c0.ics)
                G = ig and ig.g[int(c0.ics.short)]; mag = abs(L) + abs(R); wide = np.convolve(mag + abs(np.resize(prev, N)), np.ones(17), 'same')
                stereo_apply(L, R, S, c0.ics, self.fsidx, mste, es, s0.shape, prev, list(zip(c0.Y, c1.Y)) if ig else (), G and G.start, (lambda g, b: im.on(g, b, G)) if im and im.kind == 3 else None)
                was = self.emag(c0) + self.emag(c1); mag = mag + was; nx = inexact(S, c0.ics, self.fsidx)
                for k, (c, x) in enumerate(((c0, L), (c1, R))):
                    # zero in double precision is zero in single precision where everything had an exact form
                    near[k] = (x == 0) & ((was > 0) | (nx == 1) & (mag > 0) | (nx == 2) & (wide > 0)) | (x != 0) & ((abs(x) < 1e-5 * mag) | (abs(x) < 3e-6 * wide))
                    c.emag = np.maximum(self.emag(c), wide if S.mask == 3 and S.cp.cplx else mag)
            if joint and not ig.after: fill()
            if S.tns_on_lr: shape()
            if joint and ig.after: fill()
            self.prevdmx[i] = (L.copy(), R.copy(), c0.ics.short, c1.ics.short, self.amf / 30 + 3e-7 * (abs(L) + abs(R) + self.emag(c0) + self.emag(c1)) + (2e-7 if c0.tns or c1.tns else 2e-8) * (abs(L).max() + abs(R).max()))
            self.out(L, c0, s0, es, 0); self.out(R, c1, s1, es, 1)
        self.post.append((i, post)); self.label(c0); self.label(c1)
    def _prev(self, p, S, ic):
        L, R, a, b, _ = p; f = -1.0 if S.cp is not None and S.cp.dir else 1.0
        n = 128 if ic.short else N
        if a != b: return np.zeros(n)
        return 0.5 * (L[-n:] + f * R[-n:])
