"""Joint stereo: M/S and complex prediction of channel pairs against an independent decode."""
from .. import streams as S
from ..core import *
ID = 'C09'; QUICK = 3000; THOROUGH = 25000
RULE = 'a case counts when at least one frame of a channel pair uses M/S or complex prediction and the output is not silent'
ASSUME = ['the previous-frame downmix is only referred to when both frames use the same transform length (a bit-stream requirement)']
def case(d, ctx, idx):
    lay = d.choice([2, 2, 2, 3, 5, 6, 9, 10, 12])
    s = S.rand_stream(d, nframes=d.int(2, 7), layouts=[lay], nf=d.choice([0, 0, None]), p_sce=0.05, feat=dict(p_cw=0.92, p_ms=0.6, p_cp=d.choice([0.2, 0.9]), p_tns=d.choice([0, 0, 0.3]), p_trans=0.3, p_indep=0.15))
    S.compare(S.decode(ctx, s), s)
    nt = any(k == 'ms' or k.startswith('cp') for k in d.labels)
    return dict(nontrivial=nt and bool((abs(s.model) > 1).any()), key=idx, sample='cicp %d, %d Hz, %d frames: %s' % (s.layout, s.fs, len(s.frames), {k: v for k, v in d.labels.items() if k == 'ms' or k.startswith('cp')}))
