"""Grammar-shaped hostile input: configurations of every kind of content with random fields, access units that are valid, damaged or random."""
import numpy as np
from .core import *
from . import streams as S, gen, drc as R, dmxmtx, cicp, brir as B

def rbits(d, w, n):
    for b in d.bytes((n + 7) // 8): w.u(b, 8)
def cfg_bits(d, n): return d.bytes(n)
def oam_cfg(d):
    w = BW(); w.u(d.choice([0, 0, 1]), 1).u(d.bits(6) if d.bool(.5) else 0, 6); w.u(d.bits(12), 12).u(d.bits(16), 16)
    return w.bytes()
def rand_elem(d, kinds=((SCE, 4), (CPE, 4), (LFE, 1))):
    k = d.weighted(list(kinds)); e = Elem(k, nf=int(d.bool(.4)))
    if k != LFE:
        e.fullband_lpd = int(d.bool(.2))
        if d.bool(.35): e.igf = dict(enf=int(d.bool()), highres=int(d.bool()), whitening=int(d.bool()), after_tns=int(d.bool()), start=d.bits(5), stop=d.bits(4))
    if k == CPE:
        e.igf_indep_tiling = int(d.bool()); e.lpd_stereo = int(d.bool(.3)); e.qce = d.choice([0] * 12 + [1, 2, 3])
        if d.bool(.1): e.shift1 = d.int(1, 6)
    return e
def drc(d, nch, fs):
    """a DRC configuration and the tracks that write its payloads"""
    gs = [R.GainSet(d, d.weighted([(1, 4), (2, 1), (3, 1), (4, 1)])) for _ in range(d.weighted([(d.int(1, 3), 6), (d.int(1, 15), 1)]))]
    ins = []
    for k in range(d.weighted([(d.int(0, 3), 6), (d.int(0, 12), 1)])):
        e = d.weighted([(1 << d.int(0, 8), 6), (0x200, 1), (0x400, 1), (0x800, 1), (d.bits(12), 1)]); dm = d.choice([0, 0, 0, 0x7f, d.bits(7)])
        ch = [d.int(-1, len(gs) - 1) if d.bool(.9) else d.int(-1, 15) for _ in range(nch if dm != 0x7f else 1)]
        i = R.Instr(d.int(0, 40), e, ch, downmix=dm, loc=1 if d.bool(.95) else d.bits(4), duck=[d.choice([None, d.int(0, 15)]) for _ in range(nch)])
        if d.bool(.2): i.more = [d.bits(7) for _ in range(d.int(1, 7))]
        if d.bool(.2): i.target = (-d.int(0, 60), None)
        if d.bool(.2): i.peak = d.bits(8)
        if d.bool(.1): i.depends = d.int(0, 40)
        for g in i.groups(): i.mods[g] = ((d.bits(4), d.bits(4)) if d.bool(.2) else None, .25 * d.int(1, 30) if d.bool(.2) else None)
        ins.append(i)
    return R.config(nch if d.bool(.95) else d.bits(7), gs, ins, exts=[(d.int(1, 15), [1] * d.int(1, 30))] if d.bool(.1) else ()), [R.Track(g, fs) for g in gs]
def loudness(d):
    def one():
        i = dict(type=d.weighted([(0, 6), (d.bits(2), 2)]), tid=d.bits(5), set=d.choice([0, 0x3f, d.bits(6)]), downmix=d.choice([0, 0x7f, d.bits(7)]))
        i['meas'] = [(d.int(1, 9), 0, d.int(0, 11), 1) for _ in range(d.int(0, 3) if d.bool(.9) else d.bits(4))]
        if d.bool(.2): i['peak'] = d.bits(12)
        if d.bool(.2): i['tpeak'] = d.bits(12)
        return i
    n = lambda: d.weighted([(d.int(0, 3), 6), (d.bits(6), 1)])
    return R.loudness([one() for _ in range(n())], [one() for _ in range(n())] if d.bool(.2) else None, [(d.int(1, 15), [1] * d.int(1, 30))] if d.bool(.1) else ())
def rand_ext(d):
    t = d.weighted([(4, 4), (5, 4), (7, 4), (9, 4), (13, 3), (14, 2), (3, 2), (0, 1), (d.int(0, 20), 1)])
    n = 0 if t in (0, 3) and d.bool(.9) else d.weighted([(d.int(0, 8), 3), (d.int(4, 40), 4), (d.int(0, 300), 1)])
    e = Elem(EXT); e.ext_type = t; e.ext_cfg = oam_cfg(d) if t == 5 and d.bool(.7) else d.bytes(n)
    if t in (9,) and d.bool(.8): e.ext_cfg = bytes([d.bits(8)]) * 1 + (d.bytes(d.int(0, 4)))
    if d.bool(.2): e.def_len = d.choice([1, d.int(1, 40), 300])
    e.frag = int(d.bool(.1))
    return e
def downmix(d, lay, tgt):
    """a downmix configuration: matrices well formed, damaged, random or longer than they may be"""
    typ = d.weighted([(1, 4), (2, 3), (0, 1), (3, 1)]); w = BW().u(typ, 2)
    if typ in (0, 2):
        pas = int(d.bool(.2)); w.u(pas, 1)
        if not pas: w.u(d.bits(3), 3)
        w.u(d.bits(1), 1)
    if typ == 0: return w.bytes()
    n = d.weighted([(d.int(1, 3), 8), (d.int(0, 31), 1)]); w.u(n, 5); at = d.int(0, max(0, n - 1))
    for i in range(n):
        t = tgt if tgt in cicp.LAYOUT and i == at else d.choice(sorted(cicp.LAYOUT)); w.u(d.bits(7), 7); m = d.weighted([(1, 8), (0, 1), (2, 1), (3, 1)]); w.u(m, 2)
        if m == 0: w.u(t, 6)
        if m != 1: continue
        w.u(t, 6); c = d.weighted([(1, 8), (2, 1), (d.int(1, 8), 1)]); w.esc(c - 1, 1, 3, 0)
        for _ in range(c):
            g = d.weighted([(1, 8), (d.int(1, 17), 1)]); w.esc(g - 1, 1, 4, 4)
            for _ in range(g): w.u(d.bits(5), 5)
            src = cicp.LAYOUT[lay] if lay in cicp.LAYOUT and d.bool(.8) else cicp.LAYOUT[d.choice(sorted(cicp.LAYOUT))]
            k = d.weighted([('good', 5), ('bits', 3), ('long', 1), ('ones', 1)])
            if k == 'good': b = dmxmtx.matrix(d, src, cicp.LAYOUT[t], template=dmxmtx.TEMPLATES.get((lay, t)))[0].str()
            elif k == 'ones': b = '1' * d.int(0, 900)
            else: b = ''.join('%d%d' % (x & 1, x >> 1 & 1) for x in d.bytes(d.int(1, 300) if k == 'bits' else d.int(900, 2150)))
            if d.bool(.3): a = bytearray(b, 'ascii'); [a.__setitem__(p, 97 - a[p]) for p in d.rng().integers(0, max(1, len(a)), d.int(1, 6)) if p < len(a)]; b = a.decode()
            if d.bool(.1): b = b[:d.int(0, len(b))]
            b = b[:4360]; w.esc(len(b), 8, 8, 12).s(b)
    return w.bytes()
def brir(d, lay, fsidx):
    """impulse responses: one to three sets, well formed with arbitrary counts and lengths, then possibly damaged"""
    sets = []; fx = fsidx if fsidx in range(13) else 3
    for _ in range(d.weighted([(1, 5), (2, 2), (3, 1), (15, 1)])):
        q = B.Set(); r = d.rng(); q.cut = None; q.delay = d.choice([0, d.bits(16)]); q.fs = d.choice([48000, 44100, d.bits(24)])
        q.fmt = d.weighted([(2, 4), (0, 4), (1, 1), (3, 1)])
        kind = d.weighted([('index', 4), ('list', 3), ('hoa', 2)])
        if kind == 'index': l = lay if isinstance(lay, int) and lay in cicp.LAYOUT and d.bool(.8) else d.choice(sorted(cicp.LAYOUT)); K = len(cicp.LAYOUT[l]) if d.bool(.85) else d.int(1, 40)
        elif kind == 'list': l = [d.bits(7) if d.bool(.2) else d.int(0, 42) for _ in range(d.weighted([(d.int(1, 24), 6), (d.int(1, 60), 1)]))]; K = len(l)
        else: o = d.weighted([(d.int(0, 4), 5), (d.int(0, 37), 1)]); l = (o,); K = (o + 1) ** 2
        L = d.weighted([(1 << d.int(0, 6), 3), (d.int(0, 40), 3), (d.int(0, 1100), 1)]); late = d.weighted([(0, 5), (d.int(0, 4), 3), (d.int(0, 40), 1)])
        if K * L > 30000: L = 30000 // K
        if q.fmt == 0 and K <= 4 and d.bool(.3): L = d.int(1000, 6000)
        sc = d.choice([1., 1., 1e-3, 1e6]); t = lambda *n: (r.standard_normal(n) * sc).astype(np.float32)
        q.direct = t(2, K, L); q.late = [t(2, L) for _ in range(late)]; q.fc = np.abs(t(2, K)); q.fl = np.abs(t(late, 2)); q.wl = t(K)
        if d.bool(.2): q.name = d.bytes(d.int(0, 255))
        sets.append((fx if d.bool(.8) else d.int(0, 30), l, q))
    b = B.write(sets)
    if d.bool(.3): h = d.int(4, 60); b = damage(d, b[:h]) + b[h:]
    if d.bool(.15): b = b[:d.int(1, len(b))]
    return b
def rand_cext(d, lay=None, tgt=None):
    t = d.weighted([(1, 4), (2, 3), (3, 4), (4, 3), (6, 1), (7, 1), (d.int(0, 12), 1)])
    n = d.weighted([(d.int(0, 12), 3), (d.int(4, 60), 4), (d.int(0, 500), 1)])
    if t == 2 and d.bool(.8): return (2, loudness(d))
    if t == 1 and d.bool(.8): return (1, downmix(d, lay, tgt))
    return (t, b'\xa5' * n if t == 0 else d.bytes(n))
def rand_config(d, tgt=None):
    level = d.weighted([(3, 8), (d.int(1, 5), 1)])
    prof = d.choice([0x10, 0x11, 0x12, 0x13, 0x14, d.bits(8)]) if d.bool(.1) else None
    lay = d.choice(S.LAYOUTS + [13]) if d.bool(.8) else [d.int(0, 45) for _ in range(d.int(1, 16))]
    nch = CICP_CH[lay] if isinstance(lay, int) else len(lay)
    groups = []
    if d.bool(.7): groups.append((0, nch, None if d.bool(.8) else d.choice([1, 2, 6, [d.int(0, 42) for _ in range(d.int(1, 6))]])))
    while d.bool(.35): groups.append((d.weighted([(1, 6), (3, 4), (0, 2), (2, 1)]), d.weighted([(d.int(1, 6), 6), (d.int(1, 24), 1)]), None))
    if not groups: groups.append((d.choice([1, 3]), d.int(1, 12), None))
    n = sum(g[1] for g in groups); el = []; have = 0
    while have < n:
        e = rand_elem(d)
        if e.kind == CPE and have + 1 >= n: e = Elem(SCE)
        el.append(e); have += 2 if e.kind == CPE else 1
    if d.bool(.05): el.append(rand_elem(d))
    for t in set(g[0] for g in groups):
        if t == 1 and d.bool(.85): x = rand_ext(d); x.ext_type = 5; x.ext_cfg = oam_cfg(d); el.insert(d.int(0, len(el)), x)
        if t == 3 and d.bool(.85): x = rand_ext(d); x.ext_type = 7; x.ext_cfg = d.bytes(d.int(3, 12)); el.insert(d.int(0, len(el)), x)
    while d.bool(.3): el.insert(d.int(0, len(el)), rand_ext(d))
    ex = []; fs = d.choice([3, 3, 4, 5, 6, 7, 8]) if d.bool(0.95) else d.bits(5)
    for e in el:
        if e.kind == EXT and e.ext_type == 4 and d.bool(.85) and nch <= 32: e.ext_cfg, e.tracks = drc(d, nch, FS.get(fs, 48000) if isinstance(FS, dict) else FS[min(fs, len(FS) - 1)])
    while len(ex) < 6 and d.bool(.3): ex.append(rand_cext(d, lay if isinstance(lay, int) else None, tgt))
    if fs == 31: fs = 30
    return Config(fsidx=fs, layout=lay, groups=groups, elems=el, exts=ex, level=level, profile=prof, elem_len=int(d.bool(.2)), recv_delay=int(d.bool(.8)))
def frames(d, c, n):
    """access units for c: valid core data where the generator can write it, random bits elsewhere"""
    try: g = gen.FdGen(d, c.fsidx if c.fsidx in range(3, 9) else 4, c.elems, dict(S.FULL, ehi=16.0)); g.elem_len = c.elem_len
    except Exception: g = None
    out = []
    for _ in range(n):
        if g is None or d.bool(.15): out.append(d.bytes(d.int(1, 800))); continue
        for i, e in enumerate(c.elems):
            if e.kind == EXT and getattr(e, 'tracks', None):
                w = BW()
                for t in e.tracks: t.frame(d, w)
                w.u(0, 1); g.ext_payload[i] = damage(d, w.bytes()) if d.bool(.2) else w.bytes()
            elif e.kind == EXT: g.ext_payload[i] = None if d.bool(.15) else d.bytes(d.weighted([(d.int(0, 6), 3), (d.int(2, 40), 5), (d.int(0, 400), 1)]))
        f = g.frame()
        if any(e.igf or e.fullband_lpd for e in c.elems) and d.bool(.8):
            k = d.int(0, min(12, len(f))); f = f[:k] + d.bytes(d.int(4, 700))       # the model writes neither IGF nor LPD data
        out.append(f)
    return out
def damage(d, b, rate=None):
    if not b: return b
    m = d.weighted([('flip', 5), ('byte', 3), ('cut', 2), ('dup', 1), ('zero', 1), ('ones', 1), ('ins', 1)])
    a = bytearray(b); r = d.rng(); n = len(a); p = int(r.integers(0, n)); k = int(r.integers(1, 12))
    if m == 'flip':
        for _ in range(k): a[int(r.integers(0, n))] ^= 1 << int(r.integers(0, 8))
    elif m == 'byte':
        for _ in range(k): a[int(r.integers(0, n))] = int(r.integers(0, 256))
    elif m == 'cut': a = a[:p]
    elif m == 'dup': a = a[:p] + a[max(0, p - k):]
    elif m == 'zero': a[p:p + k] = bytes(len(a[p:p + k]))
    elif m == 'ones': a[p:p + k] = b'\xff' * len(a[p:p + k])
    else: a = a[:p] + bytearray(r.integers(0, 256, k, dtype=np.uint8).tobytes()) + a[p:]
    return bytes(a)
