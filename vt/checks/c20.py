"""Peak limiter at 48 kHz: threshold, delay, gain trajectory against a reference model."""
import numpy as np
from ..fw import Violation, Session, pcm_int
from .. import streams as S, lim
ID = 'C20'; QUICK = 2000; THOROUGH = 25000
RULE = 'a case counts when the signal exceeds the threshold, so that the gain falls below one; label "pass" counts streams the limiter must pass unchanged'
def case(d, ctx, idx):
    k = d.weighted([(0, 1), (1, 4), (2, 3)])
    f = [dict(elo=0.0, ehi=14.0), dict(elo=14.0, ehi=d.choice([18.5, 20.0, 22.0])), dict(elo=18.0, ehi=d.choice([22.0, 24.0]))][k]
    f.update(p_silent=d.choice([0.03, 0.4]))
    s = S.rand_stream(d, nframes=d.int(1, 8), layouts=[1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12, 15, 16, 17, 18, 19, 20], fsidx=3, feat=f)
    o = S.decode(ctx, s); g = S.compare(o, s)
    if np.abs(o).max() > lim.THR + 0.01: raise Violation('output peak %.6g beyond the limiter threshold' % np.abs(o).max())
    wd = d.choice([16, 24])
    r = ctx.run(Session().create(pcm=wd).bind(s.bytes()).steps().delete()); q = S.pcm(r, s.nch, wd)
    if q.shape != o.shape or np.abs(q - o).max() > 1.01: raise Violation('%d-bit output differs from the 32-bit output behind the limiter' % wd)
    over = g.min() < 1
    d.label('limited' if over else 'pass')
    return dict(nontrivial=bool(over), key=idx, sample='cicp %d, %d frames, input peak %.4g, smallest gain %.3f' % (s.layout, len(s.frames), np.abs(s.model).max(), g.min()))
