"""Dynamic range control: the DRC set an effect request selects is applied with the gains the stream transmits, sample by sample."""
import numpy as np
from ..fw import Session, Violation
from .. import streams as S, drc as R
from ..core import *
ID = 'C27'; QUICK = 1500; THOROUGH = 30000
RULE = 'a case counts when the selected DRC set changes the level of a channel that is not silent by more than 0.1 dB'
def infos(d, ids, tgt):
    """loudness information: at most one entry per DRC set and downmix"""
    r = []
    for sid in d.choice([[0x3f], [0], [0x3f, 0], []]) + [i for i in ids if d.bool(0.4)]:
        for dm in d.choice([[0x7f], [0], [0x7f, 0]]):
            i = dict(set=sid, downmix=dm, meas=[])
            v = d.int(max(0, int((tgt - 8 + 57.75) * 4)), max(0, int((tgt + 20 + 57.75) * 4))); v = min(v, 255)
            for _ in range(d.int(1, 3) if d.bool(0.9) else 0):
                i['meas'].append((d.choice([1, 1, 2, 3, 4, 5, 6, 9]), min(255, max(0, v + d.int(-6, 6))), d.choice([1, 2, 3, 3]), 3))
            if dm == 0 and d.bool(0.4): i['peak'] = d.int(500, 1200)
            if dm == 0 and d.bool(0.4): i['tpeak'] = d.int(500, 1200)
            r.append(i)
    return r
def stream(d, lay=None, fs=None, nframes=None):
    """stream with random DRC sets; s.tgt, s.ins, s.li, s.tr say which"""
    lay = lay or d.choice(S.LAYOUTS); el = S.partition(d, lay); fs = fs or d.choice([3, 4, 4, 5, 6, 7, 8]); n = S.nch(el)
    x = Elem(EXT, ext_type=4); pos = d.int(0, len(el)); el.insert(pos, x)
    gs = [R.GainSet(d) for _ in range(d.int(1, 4))]
    ids = R.distinct(d, 1, 31, 6); ins = []; tgt = -d.int(10, 36)
    def mods(i):
        for g in i.groups():
            i.mods[g] = ((d.int(0, 15), d.int(0, 15)) if d.bool(0.3) else None, d.choice([-1, 1]) * .25 * d.int(1, 32) if d.bool(0.25) else None)
        if d.bool(0.2): i.reps = d.int(0, 3)
        return i
    for k in range(d.int(1, 4)):
        e = 1 << d.int(0, 5)
        if d.bool(0.25): e |= 1 << d.int(0, 8)
        elif d.bool(0.15): e = 1 << d.int(6, 8)
        anyd = d.bool(0.15)
        if d.bool(0.3): ch = [d.int(0, len(gs) - 1)] * n
        else: ch = [d.int(-1, len(gs) - 1) for _ in range(n)]
        if max(ch) < 0: ch[d.int(0, n - 1)] = d.int(0, len(gs) - 1)
        i = R.Instr(ids[k], e, [d.int(0, len(gs) - 1)] if anyd else ch, downmix=0x7f if anyd else 0)
        if d.bool(0.2): i.target = (-d.int(0, 40), None)
        if i.target and d.bool(): i.target = (i.target[0], max(-63, i.target[0] - d.int(1, 25)))
        if d.bool(0.2): i.peak = d.int(0, 120)
        base = [j for j in ins if j.depends is None and not j.downmix]
        if anyd and base and d.bool(): i.depends = d.choice(base).id
        elif d.bool(0.1): i.noindep = 1
        ins.append(mods(i))
    if d.bool(0.15): ins.insert(d.int(0, len(ins)), mods(R.Instr(ids[4], R.FADE, [d.int(0, len(gs) - 1)], downmix=0x7f)))
    if d.bool(0.2):
        if n > 1 and d.bool(): 
            q = d.int(0, len(gs) - 1); ch = [d.choice([-1, q]) for _ in range(n)]; k = d.int(0, n - 1); ch[k] = q; ch[k - 1] = -1; e = 0x400
        else: ch = [d.int(0 if n == 1 else -1, len(gs) - 1) for _ in range(n)]; ch[d.int(0, n - 1)] = 0; e = 0x800
        ins.insert(d.int(0, len(ins)), R.Instr(ids[5], e, ch, duck=[d.choice([None, d.int(0, 15)]) for _ in range(n)]))
    x.ext_cfg = R.config(n, gs, ins)
    li = infos(d, [i.id for i in ins], tgt)
    tr = [R.Track(g, FS[fs]) for g in gs]
    def ext(g):
        w = BW()
        for t in tr: t.frame(d, w)
        w.u(0, 1); g.ext_payload[pos] = w.bytes()
    s = S.rand_stream(d, layouts=[lay], fsidx=fs, elems=el, ext=ext, cfgkw=dict(exts=[(2, R.loudness(li))]), nframes=nframes or d.int(2, 6), feat=dict(S.FULL, ehi=12.0))
    s.tgt, s.ins, s.li, s.tr = tgt, ins, li, tr
    return s
def case(d, ctx, idx):
    s = stream(d); tgt, ins, li, tr, lay = s.tgt, s.ins, s.li, s.tr, s.layout
    eff = d.int(0, 8)
    o = S.decode(ctx, s, lset=1, loud=-tgt*4, effect=eff)
    best = None; N = s.model.shape[1]
    alt = R.select(ins, li, eff, tgt)
    for sel, L in alt:
        G = np.full((s.nch, N), 10 ** (L / 20))
        for i in R.applied(ins, sel): G *= R.gains(i, tr, s.nch, N, L)
        sm = s.model; ck = s.cpk
        s.model = sm * G; s.cpk = ck * G.max(1)
        what = 'effect %d, target %d, DRC sets %s, loudness %s, selected %s with gain %.2f dB: output' % (eff, tgt, [(k.id, '%x' % k.effect, k.downmix, k.depends) for k in ins], [(k['set'], k['downmix'], k['meas'], k.get('peak'), k.get('tpeak')) for k in li], sel.id if sel else None, L)
        try: S.compare(o, s, what=what); best = (sel, G)
        except Violation as v: best = best or v
        s.model, s.cpk = sm, ck
        if not isinstance(best, Violation): break
    if isinstance(best, Violation): raise best
    i, G = best
    nt = i is not None and any(np.abs(s.model[c]).max() > 10 and np.abs(np.log10(np.maximum(G[c], 1e-9)) * 20).max() > 0.1 for c in range(s.nch))
    return dict(nontrivial=nt, key=idx, sample='%s %d Hz %d frames effect %d sets %s selected %s' % (lay, s.fs, len(s.frames), eff, [(k.id, '%x' % k.effect) for k in ins], i.id if i else None))
