"""Intelligent gap filling, alone and together with the stereo and multichannel tools, against an independent decode."""
from .. import streams as S, igf
from ..core import *
ID = 'C11'; QUICK = 3000; THOROUGH = 20000
RULE = 'a case counts when at least one channel of a frame has gaps filled and the output is not silent'
ASSUME = ['a spectrum line where single precision decides differently which power of two flattens it, or whether a band needs filling at all, is not compared exactly', 'channels of a multichannel coding tool share one gap filling range, without whitening and temporal flattening']
def case(d, ctx, idx):
    lay = d.choice([1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 9, 12]); fs = d.choice([3, 4, 4, 5, 6, 7, 8]); mct = lay > 1 and d.bool(.15)
    el = igf.equip(d, S.partition(d, lay, p_sce=.3), same=mct); hook = None
    if mct: [e.igf.update(whitening=0, enf=0) for e in el if e.igf]
    if mct and sum({SCE: 1, CPE: 2}.get(e.kind, 0) for e in el) > 1:
        m, el, at = S.tool(d, el, 0, fs)
        def hook(g): g.mct = [(at, m)]
    x = d.int(0, 3)
    s = S.rand_stream(d, nframes=d.int(2, 6), layouts=[lay], fsidx=fs, elems=el, ext=hook,
                      feat=dict(p_cw=.8, p_ms=.4, p_cp=.3, p_tns=.4 if x & 1 else 0, p_fdp=.3 if x & 2 else 0, p_trans=.3, p_indep=.25, p_sync=.9 if mct else 0, elo=8, ehi=14))
    S.compare(S.decode(ctx, s), s, 4e-5)
    b = {k: v for k, v in d.labels.items() if k.startswith(('igf', 'wh'))}
    return dict(nontrivial=any(k in b for k in ('igf-l', 'igf-lt', 'igf-s')) and bool((abs(s.model) > 1).any()), key=idx, sample='cicp %d, %d Hz, %d frames: %s' % (s.layout, s.fs, len(s.frames), b))
