"""A downmix matrix in the stream for the target layout replaces the conversion rules."""
import numpy as np
from ..fw import Violation
from .. import streams as S, fc, cicp, dmxmtx
from ..core import *
ID = 'C28'; QUICK = 1500; THOROUGH = 30000; VARIANTS = ['plain', 'asan']
RULE = 'a case counts when a transmitted matrix for the target layout has two different gains and the decoded signal is not silent'
L = [l for l in S.LAYOUTS if l in cicp.LAYOUT and l != 8]
TEMPLATES = [(14, 6), (12, 6), (7, 6), (13, 6), (13, 14), (13, 12), (13, 7), (13, 2)]
TP = [p for p in TEMPLATES if p[0] in L]


def case(d, ctx, idx):
    lay = d.choice(L); tgt = d.choice([t for t in cicp.LAYOUT if t != lay])
    if TP and d.bool(.2): lay, tgt = d.choice(TP)
    src, out = cicp.LAYOUT[lay], cicp.LAYOUT[tgt]; fs = d.choice([3, 4, 4, 5, 6, 7])
    c = dmxmtx.config(d, lay, tgt, d.bool(.9))
    if c is None: return dict(nontrivial=False, key=idx, sample='matrix too long')
    ext, G, eq, kinds = c
    s = S.rand_stream(d, layouts=[lay], fsidx=fs, nframes=d.int(1, 5), cfgkw=dict(exts=[(1, ext)]), feat=dict(S.FULL, p_tns=.1, p_fdp=.05, p_ltpf=.05, p_mct=.1, ehi=d.choice([10., 12., 14.])))
    if G is None:
        m = fc.matrix(src, out, s.fs)
        if m is None: m = fc.panned(src, out, tgt)
    else: m = dmxmtx.bins(G, eq, s.fs)
    nt = bool(np.abs(s.model).max() > 10) and G is not None and len(set(G.ravel().tolist())) > 2
    y = fc.convert(s.model.T, m).T; top = max(1., float(np.abs(m).max()))
    sc = float((s.cpk + np.abs(s.model).max(1)).sum()) * top
    s.nch = len(out); s.model = y; s.cpk = np.full(len(out), sc)
    o = S.decode(ctx, s, variant='asan' if idx % 16 == 15 else 'plain', cicp=tgt)
    e, g = S.expected(s); e = e[:, 256:]
    what = 'layout %d converted to %d at %d Hz, %s' % (lay, tgt, s.fs, 'matrix: ' + ', '.join(sorted(kinds)) if G is not None else 'no matrix for the target')
    if o.shape != e.shape: raise Violation('%s: %r samples instead of %r' % (what, o.shape, e.shape))
    tol = 3e-5 * sc + 0.01 if g.min() >= 1 else 3e-4 * 32768
    err = np.abs(o - e)
    if not err.max() <= tol:
        c, t = np.unravel_index(err.argmax(), err.shape)
        raise Violation('%s: channel %d sample %d is %.6g, the model gives %.6g (tolerance %.3g)' % (what, c, t, o[c, t], e[c, t], tol), key=str(sorted(kinds)))
    for k in kinds: d.label(k)
    d.label('hit' if G is not None else 'no hit')
    return dict(nontrivial=nt, key=(lay, tgt, s.fs, idx), sample=what)

