"""Audio objects: rendered to the loudspeakers by their metadata."""
import numpy as np
from ..fw import Violation
from .. import streams as S, oam
from ..core import *
ID = 'C15'; QUICK = 2000; THOROUGH = 20000; VARIANTS = ['plain', 'asan']
RULE = 'a case counts when some object is not silent and its metadata changes during the stream or spreads it'
def case(d, ctx, idx):
    lay = oam.random_list(d) if d.bool(.2) else d.choice(oam.LAY); tgt = d.choice([t for t in oam.LAY if t != lay]) if isinstance(lay, int) and lay != 8 and d.bool(0.2) else None
    ex = d.weighted([([], 5), ([(0, b'\xa5' * d.int(0, 9))], 1), ([(6, d.bytes(1))], 1), ([(11, d.bytes(d.int(0, 9))), (0, b'')], 1)])
    s = oam.stream(d, lay, tgt=tgt, exts=ex, fsidx=d.choice([3, 4, 5, 6, 7]) if tgt else None); md, m = s.md, s.oam; nobj, bed = len(s.objs), len(s.bed); lay, sc = s.layout, s.sc
    nt = bool(np.abs(s.objs).max() > 10) and any(a[o] != b[o] or b[o][3] for a, b in zip(md, md[1:] or md) for o in range(nobj))
    o = S.decode(ctx, s, variant='asan' if idx % 16 == 15 else 'plain', cicp=tgt or 0)
    e, g = S.expected(s); e = e[:, s.cut:]
    what = '%d objects%s, layout %r, metadata every %d samples' % (nobj, ' and channels' if bed else '', lay, m.flen)
    if tgt: what += ', target layout %d' % tgt
    if o.shape != e.shape: raise Violation('%s: %r samples instead of %r' % (what, o.shape, e.shape))
    tol = 3e-5 * sc + 0.01 if g.min() >= 1 else 3e-4 * 32768
    err = np.abs(o - e)
    if not err.max() <= tol:
        c, n = np.unravel_index(err.argmax(), err.shape)
        raise Violation('%s: channel %d sample %d is %.6g, the model gives %.6g (tolerance %.3g)' % (what, c, n, o[c, n], e[c, n], tol), key='%s' % sorted(m.kinds))
    for k in m.kinds: d.label(k)
    d.label('lay%d' % lay if isinstance(lay, int) else 'list'); d.label('target' + ('+bed' if bed else '') if tgt else 'no target'); d.label('spread' if any(p[3] for part in md for p in part) else 'point')
    return dict(nontrivial=nt, key=(str(lay), nobj, bool(bed), idx), sample=what)
