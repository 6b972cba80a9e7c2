"""Dynamic range control: writers for mpegh3daUniDrcConfig, mpegh3daLoudnessInfoSet and uniDrcGain, and the gain curve they describe.
Gains are the linear interpolation of the node gains in the linear domain; what a payload carries applies one frame later (the full-frame look-ahead of the DRC decoder)."""
import numpy as np
from .core import BW
REGULAR, FADING, CLIPPING, CONSTANT = range(4)
H01 = [(2, 3, -.125), (2, 2, .125), (3, 1, -.25), (3, 2, 0.), (4, 0, -2.), (5, 2, -.5), (5, 15, -.375), (5, 14, 1.), (6, 25, -.625), (6, 24, .25), (6, 6, .375), (7, 15, -1.), (7, 0x34, -.875), (7, 0x36, -.75), (7, 0x37, .5), (8, 0x1d, .625), (9, 0x39, -1.875), (9, 0xd5, -1.125), (9, 0xd7, .75), (9, 0xd4, .875), (10, 0x70, -1.5), (10, 0x1ac, -1.375), (10, 0x1ad, -1.25), (11, 0xe2, -1.75), (11, 0xe3, -1.625)]
H2 = [(3, 7, -.125), (4, 12, -.625), (4, 9, -.5), (4, 5, -.375), (4, 3, -.25), (4, 1, 0.), (4, 11, .125), (5, 17, -.875), (5, 14, -.75), (5, 5, .25), (5, 4, .375), (5, 8, .5), (5, 0, .625), (5, 13, .75), (5, 15, .875), (5, 16, 1.), (5, 27, 1.125), (6, 43, -1.25), (6, 40, -1.125), (6, 2, -1.), (6, 18, 1.25), (6, 24, 1.375), (6, 41, 1.5), (7, 106, -4.), (7, 84, -1.75), (7, 104, -1.625), (7, 38, -1.5), (7, 6, -1.375), (7, 50, 1.625), (8, 0xd2, -2.25), (8, 0xab, -2.125), (8, 0xaa, -2.), (8, 0x4f, -1.875), (8, 0x4e, 1.75), (8, 0xd7, 1.875), (8, 14, 2.), (9, 0x1ad, -3.625), (9, 0x1ac, -3.375), (9, 0x1a6, -3.25), (9, 0xcd, -3.125), (9, 0xce, -2.75), (9, 0x1a7, -2.625), (9, 0x1f, -2.5), (9, 0xcc, -2.375), (10, 0x3c, -3.5), (10, 0x19e, -3.), (10, 0x19f, -2.875), (11, 0x7a, -3.875), (11, 0x7b, -3.75)]
def delta_tmin(fs):
    x = int(0.5 + 0.0005 * fs); r = 1
    while r <= x: r *= 2
    return r
class GainSet:
    """gain_sets[i]: profile, one or more bands (0 for the constant profile)"""
    def __init__(self, d, bands=1):
        self.profile = d.weighted([(REGULAR, 5), (FADING, 2), (CLIPPING, 2), (CONSTANT, 1 if bands == 1 else 0)])
        self.nb = 0 if self.profile == CONSTANT else bands
        self.full = int(d.bool()); self.align = int(d.bool(0.3))
        self.btype = 1; self.cross = sorted({d.int(0, 15) for _ in range(bands - 1)})
        while len(self.cross) < bands - 1: self.cross = sorted(set(self.cross) | {d.int(0, 15)})
    def write(self, w):
        w.u(self.profile, 2); w.u(1, 1); w.u(self.full, 1); w.u(self.align, 1); w.u(0, 1)
        if self.profile == CONSTANT: return
        w.u(self.nb, 4)
        if self.nb > 1: w.u(self.btype, 1)
        for _ in range(self.nb): w.u(0, 7)
        for c in self.cross[:self.nb - 1]: w.u(c, 4)
class Instr:
    """one DRC set: id, effect bits, per-channel gain set (-1: none)"""
    def __init__(self, id, effect, chan, **k):
        self.id, self.effect, self.chan = id, effect, chan
        self.loc = 1; self.downmix = 0; self.more = []; self.target = None; self.peak = None; self.depends = None; self.noindep = 0; self.mods = {}; self.group = None; self.preset = None; self.reps = None
        self.duck = None
        self.__dict__.update(k)
    def groups(self):
        g = []
        for c in self.chan:
            if c >= 0 and c not in g: g.append(c)
        return g
    def write(self, w):
        if self.group is not None: w.u(1, 1); w.u(2 - 2, 1); w.u(self.group, 7)
        elif self.preset is not None: w.u(1, 1); w.u(1, 1); w.u(self.preset, 5)
        else: w.u(0, 1)
        w.u(self.id, 6); w.u(self.loc, 4); w.u(self.downmix, 7); w.u(int(bool(self.more)), 1)
        if self.more:
            w.u(len(self.more), 3)
            for m in self.more: w.u(m, 7)
        w.u(self.effect, 16)
        if not self.effect & 0xc00:
            w.u(int(self.peak is not None), 1)
            if self.peak is not None: w.u(self.peak, 8)
        w.u(int(self.target is not None), 1)
        if self.target is not None:
            up, lo = self.target; w.u(up + 63, 6); w.u(int(lo is not None), 1)
            if lo is not None: w.u(lo + 63, 6)
        w.u(int(self.depends is not None), 1)
        if self.depends is not None: w.u(self.depends, 6)
        else: w.u(self.noindep, 1)
        i = 0; n = len(self.chan)
        while i < n:
            j = i
            while j + 1 < n and self.chan[j + 1] == self.chan[i] and j - i < 32 and not (self.effect & 0xc00 and self.duck[j + 1] != self.duck[i]): j += 1
            if self.reps is not None: j = min(j, i + self.reps)
            w.u(self.chan[i] + 1, 6)
            if self.effect & 0xc00:
                s = self.duck[i]; w.u(int(s is not None), 1)
                if s is not None: w.u(s, 4)
            w.u(int(j > i), 1)
            if j > i: w.u(j - i - 1, 5)
            i = j + 1
        if not self.effect & 0xc00:
            for g in self.groups():
                sc, off = self.mods.get(g, (None, None)); w.u(int(sc is not None), 1)
                if sc is not None: w.u(sc[0], 4); w.u(sc[1], 4)
                w.u(int(off is not None), 1)
                if off is not None: w.u(int(off < 0), 1); w.u(int(abs(off) * 4 + .5) - 1, 5)
def config(nch, gain_sets, instrs, loc=1, exts=()):
    w = BW(); w.u(1, 3); w.u(len(instrs), 6); w.u(nch, 7)
    w.u(loc, 4); w.u(0, 1); w.u(len(gain_sets), 6)
    for g in gain_sets: g.write(w)
    for i in instrs: i.write(w)
    put_ext(w, exts); w.u(0, 1)
    return w.bytes()
def put_ext(w, exts):
    """extension list of configuration or loudness information: (type 1..15, bits)"""
    w.u(int(bool(exts)), 1)
    if exts:
        for t, bits in exts:
            n = max(4, (len(bits) - 1).bit_length()); w.u(t, 4); w.u(n - 4, 4); w.u(len(bits) - 1, n)
            for b in bits: w.u(b, 1)
        w.u(0, 4)
def loudness(infos, album=None, exts=()):
    """infos: dicts type (0..3), tid, set, downmix, peak, tpeak, meas [(method, raw value, system, reliability)]"""
    def one(w, i, typ=True):
        if typ:
            w.u(i.get('type', 0), 2)
            if i.get('type', 0) == 3: w.u(i['tid'], 5)
            elif i.get('type', 0): w.u(i['tid'], 7)
        w.u(i.get('set', 0), 6); w.u(i.get('downmix', 0), 7)
        w.u(int('peak' in i), 1)
        if 'peak' in i: w.u(i['peak'], 12)
        w.u(int('tpeak' in i), 1)
        if 'tpeak' in i: w.u(i['tpeak'], 12); w.u(1, 4); w.u(1, 2)
        w.u(len(i['meas']), 4)
        for m, v, s, r in i['meas']: w.u(m, 4); w.u(v, {7: 5, 8: 2}.get(m, 8)); w.u(s, 4); w.u(r, 2)
    w = BW(); w.u(len(infos), 6)
    for i in infos: one(w, i)
    w.u(int(album is not None), 1)
    if album is not None:
        w.u(len(album), 6)
        for i in album: one(w, i, False)
    put_ext(w, exts)
    return w.bytes()

def put_delta(w, n, nmax):
    if n == 1: w.u(0, 2)
    elif n <= 5: w.u(4 + n - 2, 4)
    elif n <= 13: w.u(16 + n - 6, 5)
    else:
        v = 1
        while (1 << v) < 2 * nmax: v += 1
        w.u(3, 2); w.u(n - 14, v)
class Track:
    """gain payloads of one gain set and the resulting per-band list of (time, dB) nodes, time in samples since the start of the first payload's frame"""
    def __init__(self, gs, fs): self.gs, self.tm, self.nodes, self.k = gs, delta_tmin(fs), [[] for _ in range(max(gs.nb, 1))], 0
    def initial(self, d, w):
        p = self.gs.profile
        if p == REGULAR: v = d.int(-96, 48) if d.bool(0.8) else d.int(-255, 72); w.u(int(v < 0), 1); w.u(abs(v), 8); return v * .125
        n = 10 if p == FADING else 8
        if d.bool(0.3): w.u(0, 1); return 0.
        v = d.int(0, 120) if d.bool() else d.int(0, (1 << n) - 1); w.u(1, 1); w.u(v, n); return -(v + 1) * .125
    def frame(self, d, w):
        gs, tm = self.gs, self.tm; off = -tm + (tm - 1) // 2 if gs.align else -1; base = 1024 * self.k; self.k += 1; nmax = 1024 // tm
        if gs.profile == CONSTANT: self.nodes[0].append((base + 1023, 0.)); return
        for b in range(gs.nb):
            if d.bool(0.3):
                w.u(0, 1); g = self.initial(d, w); self.nodes[b].append((base + 1024 + off, g)); continue
            w.u(1, 1)
            # times of the nodes inside the frame, in units of the minimum distance; the frame end is one of them or implied
            n = d.int(1, 6) if d.bool(0.8) else d.int(1, 31)
            inner = sorted({d.int(1, nmax - 1) for _ in range(n - 1)})
            if not gs.full and d.bool(): ts = inner or [d.int(1, nmax - 1)]; fe = 0
            else: ts = inner + [nmax]; fe = 1
            n = len(ts)
            for _ in range(n - 1): w.u(0, 1)
            w.u(1, 1)
            if not gs.full: w.u(fe, 1)
            p = 0
            for t in ts[:-1] if fe else ts: put_delta(w, t - p, nmax); p = t
            g = self.initial(d, w); tab = H2 if gs.profile == CLIPPING else H01
            self.nodes[b].append((base + ts[0] * tm + off, g))
            for t in ts[1:]:
                sz, cd, v = d.choice(tab) if d.bool(0.6) else tab[d.int(0, 3)]
                if g + v > 8 or g + v < -40: sz, cd, v = [x for x in tab if x[2] == (-.125 if g > 0 else .125)][0]
                w.u(cd, sz); g += v; self.nodes[b].append((base + t * tm + off, g))
    def curve(self, n, ins=None, gi=0, band=0, limit_gain=0., duck=None):
        """linear gain of samples 0..n-1 of the audio (one frame after the payload that carries it)"""
        sc, off = ins.mods.get(gi, (None, None)) if ins else (None, None); dk = 1.
        if duck is not None: dk = 1 - .125 * (1 + (duck & 7)) if duck & 8 else 1 + .125 * (1 + (duck & 7))
        def lin(g):
            r = 1.0
            if sc is not None: r = (sc[1] if g >= 0 else sc[0]) * .125
            x = 2.0 ** (r * dk * g / 6)
            if off is not None: x *= 2.0 ** (off / 6)
            if ins and ins.effect == 0x100 and ins.peak is not None:
                x *= 2.0 ** (max(0., ins.peak * .125 - limit_gain) / 6); x = min(x, 1.)
            return x
        t = [-1024.] + [x for x, _ in self.nodes[band]]; v = [lin(0.)] + [lin(g) for _, g in self.nodes[band]]
        x = np.interp(np.arange(n) - 1024., t, v)
        return x
def distinct(d, lo, hi, n):
    """n distinct integers of [lo, hi]"""
    p = list(range(lo, hi + 1))
    return [p.pop(d.int(0, len(p) - 1)) for _ in range(n)]

class Off:
    """no DRC"""
    id = 0; effect = 0; downmix = 0; depends = None; noindep = 0; target = None; peak = None; chan = []
COMPR = 0xff; NIGHT = 1; GENERAL = 32; EXPAND = 64; FADE = 0x200; DUCK = 0xc00
ORDER = [0x432160, 0x543261, 0x543162, 0x542163, 0x531264, 0x432165, 0x543216]
BONUS = [0, 0, 8, 0, 1, 3, 0, 5, 6, 7, 4, 2]
def loud_of(infos, sid, req=0):
    """programme loudness the loudness information gives for a DRC set"""
    for dm, st in ((req, sid), (0x7f, sid), (req, 0x3f), (req, 0), (0x7f, 0x3f), (0x7f, 0), (0, sid), (0, 0x3f), (0, 0)):
        for i in infos:
            if i['downmix'] == dm and i['set'] == st and not i.get('type'):
                for m in (1, 2):
                    c = [(BONUS[s] if s < 12 else -1, -k, v) for k, (mm, v, s, r) in enumerate(i['meas']) if mm == m]
                    if c: return -57.75 + max(c)[2] / 4
    return None
def peak_of(infos, ins):
    """(signal peak level in dBFS, stated explicitly)"""
    for st in (ins.id, 0x3f):
        for i in infos:
            if i['downmix'] == 0 and i['set'] == st and not i.get('type'):
                if i.get('tpeak'): return 20 - i['tpeak'] / 32, True
                if i.get('peak'): return 20 - i['peak'] / 32, True
    if ins.downmix in (0, 0x7f) and ins.peak is not None: return -ins.peak / 8, True
    return 0., False
def select(instrs, infos, eff, tgt):
    """DRC set selection for an effect request with loudness normalization on. Returns [(set, loudness gain)]: the set to use, or alternatives where the selection is not settled"""
    by = {i.id: i for i in instrs}; C = []
    def effs(i): return i.effect | (by[i.depends].effect if i.depends is not None else 0)
    for i in list(instrs) + [Off()]:
        if i.id and (i.effect in (0, FADE, 0x400, 0x800) or i.noindep): continue
        l = loud_of(infos, i.id); g = 0. if l is None else tgt - l; p, e = peak_of(infos, i); p += g; t = False
        if i.target is not None:
            up, lo = i.target; lo = -63 if lo is None else lo
            t = up >= tgt > lo
            if t and not e: p = tgt - up
            if not (t or e): continue
        C.append([i, g, p, t, e])
    S = [c for c in C if (c[3] and not c[4]) or c[2] <= 0]
    if S: return [final(S, eff, effs)]
    S = [c for c in C if c[3] and c[4]]
    if S: return [final(S, eff, effs)]
    m = min(c[2] for c in C); r = []
    for T in ([c for c in C if c[2] < m + 1], C):
        for adj in (0, 1):
            x = final([[i, g, 0. if adj else p, t, e] for i, g, p, t, e in T], eff, effs)
            if x not in r: r.append(x)
    return r
def final(S, eff, effs):
    o = ORDER[min(eff, 6)]
    for k in range(6):
        n = o >> (4 * k) & 15
        m = [c for c in S if (effs(c[0]) >> (n - 1) & 1 if n else not c[0].effect & COMPR)]
        if m: S = m; break
    if min(c[2] for c in S) <= 0: S = [c for c in S if c[2] <= 0]
    else: S = [c for c in S if c[2] == min(x[2] for x in S)]; return fin2(S)
    m = [c for c in S if c[0].downmix == 0]
    if m: S = m
    cnt = lambda c: bin(effs(c[0]) & COMPR & ~GENERAL).count('1')
    S = [c for c in S if cnt(c) == min(cnt(x) for x in S)]
    t = [c for c in S if c[3]]
    if t and len(t) < len(S): S = [c for c in S if not c[3]]
    elif t: S = [c for c in S if c[0].target[0] == min(x[0].target[0] for x in S)]
    S = [c for c in S if c[2] == max(x[2] for x in S)]
    return fin2(S)
def fin2(S):
    c = max(S, key=lambda c: c[0].id); return (c[0] if c[0].id else None, c[1])
def applied(instrs, sel):
    """the sets in force: the selected one, the one it depends on, and ducking (base layout) or fading (any downmix) sets, which always apply"""
    r = [] if sel is None else [sel] + [i for i in instrs if i.id == sel.depends]
    duck = [i for i in instrs if i.effect & DUCK and i.downmix == 0]; fade = [i for i in instrs if i.effect & FADE and i.downmix == 0x7f]
    return r + (duck[-1:] or fade[-1:])
def gains(ins, tracks, nch, n, lngain=0.):
    """per-channel linear gains of one set"""
    G = np.ones((nch, n))
    if ins.effect & 0x400:
        src = [c for c in ins.chan if c >= 0][0]
        for c in range(nch):
            if ins.chan[c] < 0: G[c] = tracks[src].curve(n, ins, None, duck=ins.duck[c])
        return G
    for c in range(nch):
        g = ins.chan[0 if ins.downmix else c]
        if g >= 0: G[c] = tracks[g].curve(n, ins, g, limit_gain=lngain, duck=ins.duck[c] if ins.effect & 0x800 else None)
    return G
