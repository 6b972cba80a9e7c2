"""Frequency-domain core: the decoder's output equals an independent double-precision decode of the same random access units."""
from .. import streams as S
ID = 'C08'; QUICK = 3000; THOROUGH = 30000
RULE = 'a case counts when the reference decode is not silent; labels count the window sequences and element types covered'
ASSUME = ['windows follow the transitions the standard allows; long-window kernels are all DCT-IV (zero aliasing-symmetry bits)']
def case(d, ctx, idx):
    s = S.rand_stream(d, nframes=d.int(1, 6), nf=0, feat=dict(p_ms=0, p_cp=0, p_tns=0, p_fdp=0, p_ltpf=0, p_cw=0.4, p_trans=0.5))
    S.compare(S.decode(ctx, s), s)
    d.label('fs%d' % s.fs, 'cicp%d' % s.layout)
    return dict(nontrivial=bool((abs(s.model) > 1).any()), key=idx, sample='cicp %d, %d Hz, elements %s, %d frames, peak %.4g' % (s.layout, s.fs, ''.join('SCLE'[e.kind] for e in s.elems), len(s.frames), abs(s.model).max()))
