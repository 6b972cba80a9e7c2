"""Low-delay object metadata (ISO/IEC 23008-3 clause 7.5 / 8.4): writer of random metadata with its meaning, and the rendered objects."""
import math
import numpy as np
from . import vbap, cicp
from .core import *

F = ('az', 'el', 'rad', 'gain', 'width', 'height', 'depth', 'prio')
BITS = dict(az=8, el=6, rad=4, gain=7, width=7, height=5, depth=4, prio=3)
SIGNED = ('az', 'el', 'gain')


def lo_hi(f):
    b = BITS[f]
    return (-(1 << b - 1), (1 << b - 1) - 1) if f in SIGNED else (0, (1 << b) - 1)


def descale(m):
    """(azimuth, elevation, gain, spread width, spread height) of coded values"""
    cl = lambda x, a, b: min(b, max(a, x))
    return (cl(m['az'] * 1.5, -180, 180), cl(m['el'] * 3, -90, 90), cl(10 ** ((m['gain'] - 32) / 40), .004, 5.957), cl(m['width'] * 1.5, 0, 180), cl(m['height'] * 3, 0, 90))


class Oam:
    def __init__(self, d, nobj, still=False):
        """still: the metadata never changes"""
        self.d, self.n, self.still = d, nobj, still
        self.flen = d.weighted([(1024, 3), (512, 2), (256, 2)])
        self.core_len = self.flen == 1024 and d.bool(0.7)
        self.uniform = d.bool(0.3); self.prio = d.bool(0.3)
        self.screen = d.bool(0.15); self.spread = d.bool(0.4)
        self.cur = [{f: 0 for f in F} for _ in range(nobj)]
        self.fixed = {f: False for f in F}; self.started = False
        self.kinds = set(); self.coded = []      # coded values of every part in turn, None for objects without

    def config(self):
        w = BW().u(1, 1).u(self.core_len, 1)
        if not self.core_len: w.u((self.flen >> 6) - 1, 6)
        w.u(self.screen, 1)
        if self.screen: w.u(self.d.bits(self.n), self.n)
        w.u(self.prio, 1).u(self.uniform, 1)
        return w.bytes()

    def value(self, f):
        d = self.d; lo, hi = lo_hi(f)
        if f in ('az', 'el'):
            m = 120 if f == 'az' else 30
            return d.weighted([(0, 1), (1, 4)]) and d.int(-m, m) if d.bool(0.97) else d.int(lo, hi)
        if f == 'gain': return d.weighted([(32, 3), (0, 4)]) or (d.int(0, 50) if d.bool(0.9) else d.int(lo, hi))
        if f in ('width', 'height', 'depth') and not (self.spread and d.bool(0.7)): return 0
        return d.int(lo, hi)

    def put(self, w, f, v):
        w.u(v & ((1 << BITS[f]) - 1), BITS[f])

    def sub(self, w):
        """one set of metadata"""
        d = self.d; sp = ('width',) if self.uniform else ('width', 'height', 'depth')
        keep = self.still and self.started; self.sent = [True] * self.n
        if not self.started or d.bool(0.35):
            w.u(1, 1); self.started = True; self.kinds.add('intra')
            groups = [('az',), ('el',), ('rad',), ('gain',), sp] + ([('prio',)] if self.prio else [])
            for g in groups:
                if self.n == 1:
                    for f in g: self.cur[0][f] = self.cur[0][f] if keep else self.value(f); self.put(w, f, self.cur[0][f]); self.fixed[f] = False
                    continue
                kind = 'each' if self.still else d.weighted([('each', 6), ('common', 2), ('fixed', 0 if g == ('prio',) else 2)])
                for f in g: self.fixed[f] = kind == 'fixed'
                w.u(kind == 'fixed', 1)
                if kind != 'fixed': w.u(kind == 'common', 1)
                if kind != 'each': self.kinds.add(kind)
                vals = [[self.cur[o][f] if keep else self.value(f) for f in g] for o in range(self.n if kind == 'each' else 1)]
                for v in vals:
                    for f, x in zip(g, v): self.put(w, f, x)
                for o in range(self.n):
                    for f, x in zip(g, vals[o if kind == 'each' else 0]): self.cur[o][f] = x
            return
        ab = d.bool(); w.u(0, 1).u(ab, 1); self.kinds.add('absolute' if ab else 'differential')
        for o in range(self.n):
            if keep or d.bool(0.3): w.u(0, 1); self.sent[o] = False; continue
            w.u(1, 1); c = self.cur[o]
            fs = [f for f in ('az', 'el', 'rad', 'gain') + sp + (('prio',) if self.prio else ()) if not self.fixed[f]]
            if ab:
                for f in fs: c[f] = self.value(f); self.put(w, f, c[f])
                continue
            nb = d.int(2, 9); w.u(nb - 2, 3)
            for f in fs:
                if d.bool(0.4): w.u(0, 1); continue
                b = nb if f == 'az' else min(BITS[f] + 1, nb)
                # the sum stays in the range of the field
                lo, hi = lo_hi(f); lo = max(lo - c[f], -(1 << b - 1)); hi = min(hi - c[f], (1 << b - 1) - 1)
                v = d.int(lo, hi)
                if f in ('width', 'height', 'depth') and not self.spread: v = max(lo, min(hi, 0))
                w.u(1, 1).u(v & ((1 << b) - 1), b); c[f] += v

    def frame(self):
        """payload of a frame, and the metadata of its parts [part][object]"""
        w = BW(); out = []
        for k in range(1024 // self.flen):
            self.sent = [False] * self.n
            if self.flen < 1024:
                p = not self.started or self.d.bool(0.7); w.u(p, 1)
                if p: self.sub(w)
                else: self.kinds.add('absent')
            else: self.sub(w)
            self.coded.append([dict(c) if p else None for c, p in zip(self.cur, self.sent)])
            out.append([descale(c) for c in self.cur])
        return w.bytes(), out


def render(x, md, flen, ren):
    """x [object][n], md: metadata of every part in turn; returns [loudspeaker][n]"""
    y = np.zeros((ren.nreal, x.shape[1])); ini = [None] * x.shape[0]; ramp = np.arange(1, flen + 1) / flen
    for k, part in enumerate(md):
        sl = slice(k * flen, (k + 1) * flen)
        for o, (az, el, g, wd, ht) in enumerate(part):
            fin = ren.gains(az, el, wd, ht, g)
            a = fin if ini[o] is None else ini[o]; ini[o] = fin
            y[:, sl] += (a[:, None] + (fin - a)[:, None] * ramp) * x[o, sl]
    return y

# ---- random streams of objects, with or without a channel bed ----
LAY = [l for l in range(1, 21) if l in cicp.LAYOUT]


def random_list(d):
    """loudspeakers in any arrangement, often one of those that get an imaginary loudspeaker of their own"""
    from .fw import Discard
    names = [x for x in sorted(cicp.SPK) if x not in (37, 38)]; l = []
    for sub in ([0, 1, 17, 18], [34, 35, 33, 32], [4, 30, 31, 5], [8, 20, 21, 9]):
        if d.bool(.4): l += sub
    l = list(dict.fromkeys(l + [d.choice(names) for _ in range(d.int(0 if l else 1, 6))]))[:12]
    if d.bool(.6): l = [int(x) for x in d.rng().permutation(l)]
    if all(cicp.SPK[x][2] or cicp.SPK[x][1] > 40 for x in l): l[0] = 0
    l = list(dict.fromkeys(l))
    if vbap.layout(tuple(l)).close < 3e-6: raise Discard('close call in the triangulation')
    return l


def pos(lay): return cicp.LAYOUT[lay] if isinstance(lay, int) else lay


def stream(d, lay=None, nframes=None, fsidx=None, feat=None, tgt=None, exts=None):
    """tgt: target layout; s.objs [object][n], s.bed [channel][n], s.md, s.oam, s.layout; s.model is what the loudspeakers of the layout get"""
    from . import streams as S
    lay = lay or d.choice([l for l in S.LAYOUTS if l in cicp.LAYOUT]); out = pos(lay)
    bed = d.bool(0.4) and len(out) <= 12
    nobj = d.weighted([(1, 2), (2, 2), (d.int(3, 6), 3)])
    nobj = max(1, min(nobj, 16 - (len(out) if bed else 0)))
    many = len(out) > 16        # level 3: single channel elements without noise filling
    el = S.partition(d, lay) if bed else []
    ob = []; n = 0
    while n < nobj:
        if n + 1 < nobj and not many and d.bool(0.3): ob.append(Elem(CPE, nf=d.int(0, 1))); n += 2
        else: ob.append(Elem(SCE, nf=0 if many else d.int(0, 1))); n += 1
    conv = bed and tgt and tgt != lay      # the bed goes through the format converter
    m = Oam(d, nobj)
    x = Elem(EXT, ext_type=5, ext_cfg=m.config(), def_len=d.choice([None, None, 4])); elems = el + ob
    at = d.choice([0, len(elems), d.int(0, len(elems))])
    elems = elems[:at] + [x] + elems[at:]
    md = []

    def ext(g):
        p, parts = m.frame(); g.ext_payload[at] = p; md.extend(parts)
    groups = ([(0, len(out), None)] if bed else []) + [(1, nobj)]
    s = S.rand_stream(d, layouts=[lay], elems=elems, nframes=nframes or d.int(1, 6), fsidx=fsidx, ext=ext, cfgkw=dict(groups=groups, **(dict(exts=exts) if exts else {})),
                      feat=feat or dict(S.FULL, p_tns=.1, p_fdp=.05, p_ltpf=.05, ehi=d.choice([10., 12., 14.])))
    nb = len(out) if bed else 0
    s.cut = 0; s.core = s.model; s.ccpk = s.cpk; s.objs = s.model[nb:]; s.bed = s.model[:nb]; s.md = md; s.oam = m
    out = pos(tgt or lay)
    y = render(s.objs, md, m.flen, vbap.layout(tgt or (lay if isinstance(lay, int) else tuple(lay)))); it = iter(y)
    y = np.stack([np.zeros(y.shape[1]) if cicp.SPK[c][2] else next(it) for c in out])
    if conv:
        from . import fc
        a = cicp.LAYOUT[lay]; mx = fc.matrix(a, out, s.fs)
        y = np.concatenate([np.zeros((len(out), 256)), y[:, :-256]], 1) + fc.convert(s.bed.T, fc.panned(a, out, tgt) if mx is None else mx).T
        s.cut = 256
    elif bed: y = y + s.bed
    gmax = max(p[2] for part in md for p in part)
    s.sc = float(s.cpk.sum() + np.abs(s.model).max(1).sum()) * max(1, gmax)
    s.model = y; s.cpk = np.full(len(out), s.sc); s.nch = len(out)
    return s
