"""Format conversion: with a target layout, the output is the decoded signal passed through the standard's downmix rules, equalisers and active downmix."""
import numpy as np
from ..fw import Violation, Discard
from .. import streams as S, fc, cicp
from ..core import *
ID = 'C16'; QUICK = 1500; THOROUGH = 30000; VARIANTS = ['plain', 'asan']
RULE = 'a case counts when some source channel is not simply copied and the decoded signal is not silent'
PAIRS = [(s, t) for s in S.LAYOUTS if s in cicp.LAYOUT for t in cicp.LAYOUT if s != t and fc.matrix(cicp.LAYOUT[s], cicp.LAYOUT[t], 48000) is not None]
EQUAL = [p for p in PAIRS if len(cicp.LAYOUT[p[0]]) == len(cicp.LAYOUT[p[1]])]
PANNED = [(s, t) for s in S.LAYOUTS if s in cicp.LAYOUT for t in cicp.LAYOUT if s != t and (s, t) not in PAIRS]
TOP = [p for p in PAIRS if 25 in cicp.LAYOUT[p[0]] and 25 not in cicp.LAYOUT[p[1]]]
def case(d, ctx, idx):
    lay, tgt = d.choice(d.weighted([(PAIRS, 5), (TOP, 1), (PANNED, 2), (EQUAL, 1)]))
    exts = d.weighted([([], 3), ([(0, b'\xa5' * d.int(0, 20))], 1), ([(6, bytes([d.bits(3) << 5 | d.bits(1) << 4]))], 1), ([(11, d.bytes(d.int(0, 9)))], 1)])      # nothing that concerns the conversion
    f = dict(S.FULL, p_tns=.1, p_fdp=.05, p_ltpf=.05, p_mct=.1, ehi=d.choice([10., 12., 14.])); fx = d.choice([3, 4, 4, 5, 6, 7]); n = d.int(1, 6)
    if d.bool(.2):
        # several groups of channels, each with its own layout; without a target they are converted to the reference layout
        ref = d.choice([l for l in cicp.LAYOUT if l not in (8, 13)]); room = 16; gs = []; cfg = dict(cicp=tgt) if d.bool(.6) else {}
        for _ in range(d.int(1 if cfg else 2, 4)):
            c = [l for l in cicp.LAYOUT if l != 8 and len(cicp.LAYOUT[l]) <= room]
            if not c: break
            l = ref if ref in c and d.bool(.4) else d.choice(c); gs.append(l); room -= len(cicp.LAYOUT[l])
        exts = [(t, d.bytes(len(gs) + 1 >> 1) if t == 6 else b) for t, b in exts]
        if len(gs) < 2 and not cfg: cfg = dict(cicp=tgt)
        src = sum((cicp.LAYOUT[l] for l in gs), []); out = cicp.LAYOUT[cfg.get('cicp', ref)]; f['p_mct'] = 0
        el = sum((S.partition(d, l) for l in gs), [])
        m = fc.matrix(src, out, FS[fx])
        if m is None: raise Discard('a group needs panning')
        s = S.rand_stream(d, layouts=[ref], fsidx=fx, nframes=n, elems=el, cfgkw=dict(exts=exts, groups=[(0, len(cicp.LAYOUT[l]), None if l == ref else l) for l in gs]), feat=f)
        what = 'groups %r, reference layout %d converted to %d at %d Hz, extensions %r' % (gs, ref, cfg.get('cicp', ref), s.fs, [t for t, _ in exts]); key = 'groups'; d.label('%d groups' % len(gs))
    else:
        cfg = dict(cicp=tgt)
        s = S.rand_stream(d, layouts=[lay], fsidx=fx, nframes=n, cfgkw=dict(exts=exts), feat=f)
        src, out = cicp.LAYOUT[lay], cicp.LAYOUT[tgt]
        m = fc.matrix(src, out, s.fs)
        if m is None: m = fc.panned(src, out, tgt)
        what = 'layout %d converted to %d at %d Hz, extensions %r' % (lay, tgt, s.fs, [t for t, _ in exts]); key = '%d-%d' % (lay, tgt)
    nt = bool(np.abs(s.model).max() > 10) and any(sorted(r) != [0] * (len(out) - 1) + [1] for r in m.max(0).tolist())
    y = fc.convert(s.model.T, m).T
    sc = float((s.cpk + np.abs(s.model).max(1)).sum())
    s.nch = len(out); s.model = y; s.cpk = np.full(len(out), sc)
    o = S.decode(ctx, s, variant='asan' if idx % 16 == 15 else 'plain', **cfg)
    e, g = S.expected(s); e = e[:, 256:]
    if o.shape != e.shape: raise Violation('%s: %r samples instead of %r' % (what, o.shape, e.shape))
    tol = 3e-5 * sc + 0.01 if g.min() >= 1 else 3e-4 * 32768
    err = np.abs(o - e)
    if not err.max() <= tol:
        c, n = np.unravel_index(err.argmax(), err.shape)
        raise Violation('%s: channel %d sample %d is %.6g, the model gives %.6g (tolerance %.3g)' % (what, c, n, o[c, n], e[c, n], tol), key=key)
    for c in src: d.label('src%d' % c)
    d.label('tgt%d' % tgt)
    return dict(nontrivial=nt, key=(lay, tgt, s.fs, idx), sample=what)
