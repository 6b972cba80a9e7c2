"""Multichannel coding tool: prediction and rotation of channel pairs of any elements, with stereo filling, against an independent decode."""
from .. import streams as S
from ..core import *
ID = 'C12'; QUICK = 3000; THOROUGH = 15000
RULE = 'a case counts when at least one frame has a box of the multichannel coding tool and the output is not silent'
ASSUME = ['both channels of a box have the same transform length (a bit-stream requirement)', 'previous spectra are not rotated for eight short windows (their band indices are not defined by the payload)', 'the payload is present in every frame']
def case(d, ctx, idx):
    two = d.bool(0.25); lay = d.choice([2, 3, 5, 6] if two else [2, 3, 4, 5, 6, 7, 9, 10, 12, 11, 14]); fs = d.choice([4, 5, 6, 7] if two else [3, 4, 4, 5, 6, 7])
    n = CICP_CH[lay]; el = []; mct = []; mute = set(); quiet = d.int(0, 1)
    for g in range(2 if two else 1):
        e = S.partition(d, lay, p_sce=0.5)
        if not two or g != quiet or d.bool(0.7): m, e, at = S.tool(d, e, g * n, fs); mct.append((len(el) + at, m))
        if two and g == quiet: mute |= set(range(len(el), len(el) + len(e)))
        el += e
    def hook(g): g.mct = mct; g.mute = mute
    s = S.rand_stream(d, nframes=d.int(2, 6), layouts=[lay], fsidx=fs, elems=el, ext=hook, cfgkw=dict(groups=[(0, n), (0, n)]) if two else None,
                      feat=dict(p_cw=0.8, p_ms=0.4, p_cp=0.2, p_tns=d.choice([0, 0, 0.3]), p_fdp=d.choice([0, 0.15]), p_trans=0.3, p_indep=0.2, p_sync=d.choice([1, 1, 0.7, 0]), p_silent=0.1, **(dict(elo=8, ehi=13) if two else {})))
    if two:
        # two groups for the same loudspeakers are mixed; with one of them silent the mix is the other, 256 samples late (and the first ones cut)
        s.model = (s.model[:n] + s.model[n:])[:, :-256]; s.cpk = s.cpk[:n] + s.cpk[n:]; d.label('two')
    S.compare(S.decode(ctx, s), s, 2e-4 if two else 2e-5)
    b = [k for k in d.labels if k.startswith('mct')]
    return dict(nontrivial=bool(b) and bool((abs(s.model) > 1).any()), key=idx, sample='cicp %d x%d, %d Hz, %d frames, channels %s: %s' % (s.layout, 1 + two, s.fs, len(s.frames), [m.chans for _, m in mct], b[:8]))
