"""Multichannel coding tool: random payloads and their effect on the channel spectra (prediction or rotation of channel pairs, stereo filling)."""
import re
import numpy as np
from .core import BW
from .fd import sfb_off, N
SF_SCF = None
def _tab(name):
    from .core import T
    return T[name]
# angle deltas: code words given as (length, value) for indices 0..64
ANG_L = [1,4,5,5,5,6,6,7,7,7,8,8,8,8,9,9,9,9] + [10]*24 + [11,11,10,9,9,9,9,9,9,9,8,8,8,8,7,7,7,6,6,5,5,5,4]
ANG_C = [0x0,0xB,0x12,0x1B,0x1F,0x31,0x3A,0x43,0x65,0x73,0x82,0x9A,0xCE,0xEE,0x106,0x13A,0x1D9,0x1DE,0x202,0x261,0x20F,0x20E,0x263,0x266,0x272,0x271,0x277,0x276,0x334,0x325,0x326,0x327,0x324,0x323,0x335,0x322,0x320,0x321,0x273,0x270,0x267,0x260,
         0x4C4,0x4C5,0x203,0x1DF,0x1DA,0x1D8,0x19B,0x1DB,0x132,0x100,0xCF,0xCC,0x9B,0x81,0x72,0x4F,0x42,0x38,0x30,0x1E,0x1A,0x11,0xA]
from .core import scf_code
PRED, ROT = 0, 1
DEFV = {PRED: 0, ROT: 48}
MAXBOX, MAXBAND = 16, 64
class Mct:
    """tool for the channels `chans` (core channel numbers) of a signal group of `n` channels starting at `start`"""
    def __init__(self, n, start, chans, fsidx):
        self.n, self.start, self.chans, self.fsidx = n, start, chans, fsidx
        self.pairs = []; self.fb = [0] * MAXBOX; self.sfb = [[0] * MAXBAND for _ in range(MAXBOX)]; self.long = [0] * MAXBOX; self.type = 0
        self.prev = {}; self.pmag = {}; self.extra = 0.0
    def config(self):
        w = BW()
        for c in range(self.n): w.u(int(c + self.start in self.chans), 1)
        return w.bytes()
    def draw(self, d, indep, short):
        """short[c]: the channel has eight short windows. Returns the payload; the boxes are kept for apply()"""
        w = BW(); nc = len(self.chans); S = [short[c] for c in self.chans]
        allp = [(a, b) for b in range(1, nc) for a in range(b)]; ok = [p for p in allp if S[p[0]] == S[p[1]]]
        self.fill = int(d.bool(0.4)); typ = d.int(0, 1) if d.bool(0.3) or indep else self.type
        w.u(self.fill, 1); w.u(typ, 1); df = DEFV[typ]
        keep = 0
        if not indep: keep = int(all(p in ok for p in self.pairs) and d.bool()); w.u(keep, 1)
        if indep: self.fb = [df] * MAXBOX; self.sfb = [[df] * MAXBAND for _ in range(MAXBOX)]
        if not keep:
            n = min(d.weighted([(d.int(1, 4), 5), (0, 1), (d.int(1, MAXBOX), 1)]), MAXBOX) if ok else 0
            self.pairs = [d.choice(ok) for _ in range(n)]; w.esc(n, 5, 8, 16)
        for b in range(len(self.pairs), MAXBOX): self.fb[b] = df; self.sfb[b] = [df] * MAXBAND
        self.box = []; M = nc * (nc - 1) // 2 - 1; nb = max(1, M.bit_length())
        for b, p in enumerate(self.pairs):
            sh = S[p[0]]; x = dict(pair=p, type=typ, short=sh); self.box.append(x)
            # the downmix of eight short windows with rotation is not predicted
            x['fill'] = int(self.fill and d.bool(0.6) and not (sh and typ == ROT))
            if self.fill: w.u(x['fill'], 1)
            if not keep: w.u(allp.index(p), nb)
            if self.long[b] != (not sh): self.fb[b] = df; self.sfb[b] = [df] * MAXBAND
            self.long[b] = not sh
            mf = int(d.bool(0.4)); bw = int(d.bool(0.5)); w.u(mf, 1).u(bw, 1); x['mf'], x['bw'] = mf, bw
            if mf or bw:
                w.u(int(sh), 1); m = d.int(0, 8) if sh else (d.int(0, 31) if d.bool() else 24); w.u(m, 5); m *= 8 if sh else 1
            else: m = MAXBAND
            bpw = m // 8 if sh else m; x['m'], x['bpw'] = m, bpw
            x['mask'] = [1] * m
            if mf:
                x['mask'] = [int(d.bool(0.7)) for _ in range(m)]
                for v in x['mask']: w.u(v, 1)
            x['dir'] = 0
            if typ == PRED: x['dir'] = int(d.bool()); w.u(x['dir'], 1)
            dt = 0
            if not indep: dt = int(typ == self.type and d.bool()); w.u(dt, 1)
            def coef(last):
                if typ == PRED:
                    v = max(last - 60, min(last + 60, d.int(-30, 30) if d.bool(0.9) else d.int(-100, 100))); w.s(scf_code(last - v)); return v
                v = d.int(0, 64); k = (v - last) % 65; w.u(ANG_C[k], ANG_L[k]); return v
            x['c'] = [None] * m
            if not bw:
                v = coef(self.fb[b] if dt else df); x['fbc'] = v
                for k in range(m):
                    x['c'][k] = v
                    if bpw: self.sfb[b][k % bpw] = v if x['mask'][k] else df
                self.fb[b] = v
            else:
                last = 0
                for k in range(m):
                    if bpw:
                        if dt: last = self.sfb[b][k % bpw]
                        elif k % bpw == 0: last = df
                    if x['mask'][k]: last = x['c'][k] = coef(last); self.sfb[b][k % bpw] = last
                    else: self.sfb[b][k % bpw] = df
                self.fb[b] = df
            for k in range(bpw, MAXBAND): self.sfb[b][k] = df
            d.label('mct%d%d%d%d%s' % (typ, x['fill'], mf, bw, 's' if sh else 'l'))
        self.type = typ; self.indep = indep
        return w.bytes()
    def scale(self, ch, ics, nf):
        """gain of the bands that are empty, from the noise filling start on: [group][band]"""
        off = sfb_off(self.fsidx, ics.short); n = 128 if ics.short else 1024; nl = ch.nl if nf else 0; out = []; w0 = 0
        from .fd import START, SS
        if 0 < nl < 32 and ics.seq in (SS, START): nl <<= 3
        if ch.below: return [np.zeros(len(off) - 1) for _ in ics.groups()]
        for g, gl in enumerate(ics.groups()):
            row = np.zeros(len(off) - 1)
            for b in range(ics.max_sfb):
                if off[b] >= (20 if ics.short else 160) and not any(ch.q[(w0 + k) * n + off[b]:(w0 + k) * n + off[b + 1]].any() for k in range(gl)):
                    row[b] = 2.0 ** (0.25 * (int(ch.sf[g][b]) - 100 + ((nl & 31) - 16 if nf else 0)))
            out.append(row); w0 += gl
        return out
    def apply(self, X, ics, sc, wasshort, first, Y=None):
        """X[c]: spectra (changed in place), sc[c]: scale(), wasshort[c]: window class of the frame before, Y[c]: the gap filling sources"""
        self.mag = {c: np.zeros(N) for c in self.chans}
        for x in self.box:
            a, b = (self.chans[i] for i in x['pair']); sh = x['short']; n = 128 if sh else 1024; off = sfb_off(self.fsidx, sh); nb = len(off) - 1
            W = 8 if sh else 1; B = [(off[2 * k], off[min(2 * k + 2, nb)]) for k in range((nb + 1) // 2)]
            pairs = [(X[a], X[b])]
            if Y is not None and Y[a] is not None: pairs += list(zip(Y[a], Y[b]))
            if x['fill']:
                P1, P2 = [self.prev.get(c) if not self.indep and wasshort[c] == sh else None for c in (a, b)]
                dm = np.zeros(N); z = np.zeros(N)
                if x['type'] == PRED:
                    if P1 is not None and P2 is not None: dm = .5 * (P1 - P2 if x['dir'] else P1 + P2)
                else:
                    for k, (lo, hi) in enumerate(B if x['mf'] or x['bw'] else [(0, 1024)]):
                        if x['mf'] or x['bw']: i = x['c'][k] if k < x['bpw'] and x['mask'][k] else 32
                        else: i = x['fbc']
                        t = (i - 32) * np.pi / 64
                        if P1 is not None: dm[lo:hi] += P1[lo:hi] * np.cos(t)
                        if P2 is not None: dm[lo:hi] += P2[lo:hi] * np.sin(t)
                for _, R in pairs:
                    w0 = 0
                    for g, gl in enumerate(ics[b].groups()):
                        for s in range(1, nb):
                            f = sc[b][g][s]
                            if f <= 1e-8: continue
                            sl = np.concatenate([np.arange((w0 + k) * n + off[s], (w0 + k) * n + off[s + 1]) for k in range(gl)])
                            v = R[sl] * 4 / f; p = dm[sl]; tgt = float(len(sl)); e = (v * v).sum()
                            if e < tgt:
                                # a prediction that nearly cancels carries the rounding of its inputs
                                big = max([self.pmag[c] for c, P in ((a, P1), (b, P2)) if P is not None], default=0.)
                                err = 1e-7 * big * np.sqrt(len(sl)); self.extra = max(self.extra, f * min(1., err * 100, err / (np.sqrt((p * p).sum()) + 1e-8)))
                                v = v + p * min(10., np.sqrt((tgt - e) / (1e-8 + (p * p).sum()))); e = (v * v).sum()
                                if e > 0 and e != tgt: v = v * min(10., np.sqrt(tgt / (e + 1e-8)))
                                self.mag[b][sl] = np.maximum(self.mag[b][sl], big)
                            # the gain is that of the spectrum, a factor of four below the level it fills to
                            R[sl] = v * f
                        w0 += gl
                sc[b] = [r * 0 for r in sc[b]]
            for w in range(W):
                todo = []
                if not (x['mf'] or x['bw']): todo = [(0, n, x['fbc'])]
                else:
                    for k in range(min(x['bpw'], len(B))):
                        j = w * x['bpw'] + k
                        if x['mask'][j]: todo.append((B[k][0], B[k][1], x['c'][j]))
                for lo, hi, c in todo:
                    s = slice(w * n + lo, w * n + hi); m = self.mag[a][s] = self.mag[b][s] = np.maximum(np.maximum(self.mag[a][s], self.mag[b][s]), np.abs(X[a][s]) + np.abs(X[b][s]))
                    for L, R in pairs:
                        l, r = L[s].copy(), R[s].copy()
                        if x['type'] == PRED:
                            al = .1 * c; f = -1. if x['dir'] else 1.
                            L[s] = l + al * l + r; R[s] = f * (l - al * l - r)
                        else:
                            t = (c - 32) * np.pi / 64; L[s] = l * np.cos(t) - r * np.sin(t); R[s] = l * np.sin(t) + r * np.cos(t)
        for c in self.chans: self.prev[c] = X[c].copy(); self.pmag[c] = max(self.mag[c].max(), abs(X[c]).max())
