"""Noise filling, temporal noise shaping, frequency-domain prediction and long-term postfilter against an independent decode."""
from .. import streams as S
ID = 'C10'; QUICK = 3000; THOROUGH = 25000
RULE = 'a case counts when at least one frame uses noise filling, TNS, frequency-domain prediction or the long-term postfilter and the output is not silent'
ASSUME = ['noise levels of zero combined with a non-zero noise offset are not generated', 'TNS filters have bounded gain and end above band 0', 'post-filter lags stay inside the stored history']
def case(d, ctx, idx):
    x = d.int(0, 4)
    f = dict(p_ms=0.3, p_cp=0.2, p_tns=0.5 if x in (1, 4) else 0, p_fdp=0.6 if x in (2, 4) else 0, p_ltpf=0.6 if x in (3, 4) else 0, p_indep=0.15, p_trans=0.3)
    s = S.rand_stream(d, nframes=d.int(2, 7), nf=1 if x == 0 else None, feat=f, layouts=[1, 1, 2, 2, 3, 4, 5, 6, 9, 12, 16])
    S.compare(S.decode(ctx, s), s)
    on = {k: v for k, v in d.labels.items() if k in ('tns', 'fdp', 'ltpf', 'noise')}
    return dict(nontrivial=bool(on) and bool((abs(s.model) > 1).any()), key=idx, sample='cicp %d, %d Hz, %d frames: %s' % (s.layout, s.fs, len(s.frames), on))
