"""Ambisonics: what the transport channels mean, rendered for the loudspeakers and added to the channels."""
import numpy as np
from ..fw import Violation
from .. import streams as S, hoa, cicp, fc
from ..core import *
ID = 'C29'; QUICK = 1500; THOROUGH = 30000; VARIANTS = ['plain', 'asan']
RULE = 'a case counts when the decoded ambisonics signal at the loudspeakers is not silent'
L = [l for l in S.LAYOUTS if l in cicp.LAYOUT]
# second order on these layouts: the matrix is not determined (equal singular values), the decoder's depends on rounding
LOOSE = {(7, 2), (11, 2), (12, 2), (15, 2), (16, 2), (19, 2), (20, 2), (20, 3)}


def case(d, ctx, idx):
    lay = d.choice(L); tgt = d.choice([t for t in L if t != lay]) if d.bool(.2) and lay != 8 else None; N = d.weighted([(1, 3), (2, 3), (3, 4), (d.int(4, 6), 3)])
    if (tgt or lay, N) in LOOSE: N = 1
    out = cicp.LAYOUT[lay]; bed = d.bool(.35) and len(out) <= 12 and not tgt; room = 16 - (len(out) if bed else 0)
    M = d.choice([m for m in range(0, min(N, 3) + 1) if (m + 1) ** 2 <= room])
    h = hoa.Hoa(d, N, M, min(room, (M + 1) ** 2 + (d.weighted([(0, 1), (1, 2), (2, 2), (d.int(0, 15), 2)]) if N > M else 0)))
    el = (S.partition(d, lay) if bed else []); n = 0; tr = []
    while n < h.nt:
        if n + 1 < h.nt and d.bool(.3): tr.append(Elem(CPE, nf=d.int(0, 1))); n += 2
        else: tr.append(Elem(SCE, nf=d.int(0, 1))); n += 1
    el = el + tr; at = d.choice([0, len(el), d.int(0, len(el))]); el = el[:at] + [Elem(EXT, ext_type=7, ext_cfg=h.config(), def_len=d.choice([None, None, 4]))] + el[at:]

    def ext(g): g.ext_payload[at] = h.frame()
    s = S.rand_stream(d, layouts=[lay], elems=el, nframes=d.int(1, 6), ext=ext, cfgkw=dict(groups=([(0, len(out), None)] if bed else []) + [(3, h.nt)]),
                      feat=dict(S.FULL, p_tns=.1, p_fdp=.05, p_ltpf=.05, ehi=d.choice([10., 12., 14.])))
    nb = len(out) if bed else 0; R = hoa.matrix(tgt or lay, N); c = h.coefficients(s.model[nb:]); y = R @ c
    nt = bool(np.abs(y).max() > 1); top = float(np.abs(s.model[nb:]).max(1) @ np.ones(h.nt))
    sc = float(s.cpk.sum() + np.abs(s.model).max(1).sum()) * 8 * max(1., float(np.abs(R).sum(1).max()) * (N + 1) / 4)
    if bed: y = y + s.model[:nb]
    if tgt: out = cicp.LAYOUT[tgt]
    s.model = y; s.cpk = np.full(len(out), sc); s.nch = len(out)
    o = S.decode(ctx, s, variant='asan' if idx % 16 == 15 else 'plain', **(dict(cicp=tgt) if tgt else {})); e, g = S.expected(s)
    what = 'order %d (ambience of order %d, %d more signals) on layout %d at %d Hz%s' % (N, M, h.add, lay, s.fs, (' with its channels' if bed else '') + (' for layout %d' % tgt if tgt else ''))
    if o.shape != e.shape: raise Violation('%s: %r samples instead of %r' % (what, o.shape, e.shape))
    tol = 2e-5 * sc + 0.01 + 1e-4 * np.abs(c).max() * (N + 1) if g.min() >= 1 else 3e-4 * 32768
    err = np.abs(o - e)
    if not err.max() <= tol:
        k, t = np.unravel_index(err.argmax(), err.shape)
        raise Violation('%s: loudspeaker %d sample %d is %.6g, the model gives %.6g (tolerance %.3g)' % (what, k, t, o[k, t], e[k, t], tol), key='%s bed %d tgt %d vlen %d' % (','.join(sorted(h.labels)), bed, bool(tgt), h.vlen))
    for k in h.labels: d.label(k)
    d.label('order %d' % N); d.label('bed' if bed else 'no bed'); d.label('limited' if g.min() < 1 else 'unlimited'); d.label('tight' if tol < .02 * np.abs(e).max() else 'loose')
    return dict(nontrivial=nt, key=(lay, N, M, h.add, idx), sample=what)
