"""PCM output formats: 16/24/32-bit output of the same stream are roundings of one signal, saturated at full scale with the right sign."""
import numpy as np
from ..fw import Session, Violation, pcm_int
from .. import streams as S
ID = 'C06'; QUICK = 1500; THOROUGH = 9000
RULE = 'a case counts when the output is not silent; label "clip" counts those in which at least one sample is beyond full scale'
ASSUME = ['44.1 kHz and lower rates: no peak limiter in the path, so signals beyond full scale reach the output stage']
def case(d, ctx, idx):
    loud = d.bool(0.6)
    f = dict(elo=14.0, ehi=d.choice([20.0, 23.0, 26.0])) if loud else dict(elo=d.choice([-2.0, 2.0, 9.0]), ehi=15.0)
    s = S.rand_stream(d, nframes=d.int(1, 3), layouts=[1, 2, 3, 4, 5, 6, 9, 12, 19], fsidx=d.choice([4, 5, 6, 7, 8]), feat=f)
    b = s.bytes(); v = {}; n = {}
    for wd in (16, 24, 32):
        r = [x for x in ctx.run(Session().create(pcm=wd).bind(b).steps().delete()) if x.tag == 's']
        for x in r:
            if x.err: raise Violation('%d-bit output: status %#x' % (wd, x.err & 0xffffffff))
            if x.init_done and x.wdsz != wd: raise Violation('reported word size %d, requested %d' % (x.wdsz, wd))
        n[wd] = [x.nout for x in r]; v[wd] = np.concatenate([pcm_int(x.data, wd) for x in r])
    if [k * 2 for k in n[16]] != [k * 4 // 3 for k in n[24]] or [k * 2 for k in n[16]] != n[32]: raise Violation('bytes per call do not scale with the word size: %r' % n)
    a, c, e = v[16], v[24], v[32]
    m = s.model.T.reshape(-1); tol = 2e-5 * (s.peak + np.abs(m).max()) + 1.0
    if len(m) != len(a): raise Violation('%d samples instead of %d' % (len(a), len(m)))
    hi, lo = m > 32768 + tol, m < -32768 - tol
    for wd, x in v.items():
        full = 1 << (wd - 1)
        # the largest positive single-precision value below 2^31 is 2^31-128
        if (x[hi] < full - (130 if wd == 32 else 1)).any() or (x[lo] > -full + (130 if wd == 32 else 1)).any():
            i = int(np.nonzero(np.where(hi, x < full - 130, 0) | np.where(lo, x > -full + 130, 0))[0][0])
            raise Violation('%d-bit sample %d is %d where the signal is %.6g times full scale: not saturated' % (wd, i, x[i], m[i] / 32768))
        err = np.abs(np.where(hi | lo, 0, x / float(1 << (wd - 16)) - np.clip(m, -32768, 32768)))
        if err.max() > tol: raise Violation('%d-bit sample %d is %g, reference %g' % (wd, int(err.argmax()), x[int(err.argmax())] / float(1 << (wd - 16)), m[int(err.argmax())]))
    # one signal, three truncations (towards zero) - except where a format saturates
    def tr(x, sh): return np.where(x < 0, -((-x) >> sh), x >> sh)
    ok = np.abs(e) < (1 << 31) - 65536
    if (tr(e, 8) != c)[ok].any(): i = int(np.nonzero((tr(e, 8) != c) & ok)[0][0]); raise Violation('sample %d: 24-bit %d is not the truncation of 32-bit %d' % (i, c[i], e[i]))
    if (tr(e, 16) != a)[ok].any(): i = int(np.nonzero((tr(e, 16) != a) & ok)[0][0]); raise Violation('sample %d: 16-bit %d is not the truncation of 32-bit %d' % (i, a[i], e[i]))
    clip = int((hi | lo).sum())
    if clip: d.label('clip')
    return dict(nontrivial=bool(a.any() or e.any()), key=idx, sample='layout %d %d Hz, peak %.4g, %d clipped samples' % (s.layout, s.fs, np.abs(m).max(), clip))
