"""Output resampling is one fixed interpolation of the decoded signal."""
import random
import numpy as np
from ..fw import Session, Violation, Draw
from .. import streams as S
from ..core import *
ID = 'C19'; QUICK = 1500; THOROUGH = 25000
RULE = 'a case counts when at least two frames that are not silent were resampled'
ASSUME = ['sampling rates the decoder documents as convertible: 32000, 24000, 16000 to 48000 Hz, 22050 to 44100 Hz']
RATIO = {5: (48000, 3, 2), 6: (48000, 2, 1), 8: (48000, 3, 1), 7: (44100, 2, 1)}
K = 48                      # input samples the interpolation may look back at
H = {}
def dec(ctx, s, wd, **k):
    r = ctx.run(Session().create(pcm=wd, **k).bind(s.bytes()).steps().delete())
    for e in S.errors(r): raise Violation('a valid stream fails with status %#x (%r)' % (e, k))
    n = [x for x in r if x.tag == 's' and x.nout]
    return S.pcm(r, n[0].f['chan'], wd), n
def rows(x, m): # [len(m)][K]: x[m], x[m-1], ...
    xp = np.concatenate([np.zeros(K), x]); return xp[(m[:, None] + K) - np.arange(K)[None, :]]
def calibrate(ctx, fi):
    """response per output phase, from one mono noise stream; its defects are reported by every case of the ratio"""
    out, L, M = RATIO[fi]; d = Draw(random.Random(1000 + fi))
    s = S.rand_stream(d, layouts=[1], fsidx=fi, nframes=6, elems=[Elem(SCE)], feat=dict(p_silent=0, p_short=0, p_zero=0, elo=10.0, ehi=11.0))
    x, _ = dec(ctx, s, 32); y, _ = dec(ctx, s, 32, resamp=1, outfs=out); x = x[0]; y = y[0]
    if len(y) * M != len(x) * L: return 'a stream of %d samples gives %d at ratio %d/%d' % (len(x), len(y), L, M)
    h = np.zeros((L, K)); n = np.arange(len(y))
    for p in range(L):
        i = n[p::L]; A = rows(x, i * M // L); sol = np.linalg.lstsq(A, y[i], rcond=1e-9)[0]; h[p] = sol
        r = np.abs(A @ sol - y[i]).max()
        if r > 1e-4 * np.abs(y).max(): return 'the output is not a fixed interpolation of the decoded signal: residual %.3g at a peak of %.3g (phase %d of %d)' % (r, np.abs(y).max(), p, L)
    H[fi] = h
    # the interpolation filter at L times the input rate
    f = np.zeros(L * K)
    for p in range(L):
        # y[n]: n*M = L*m + q at the upsampled rate
        q = (p * M) % L; f[q::L] = h[p] if M == 1 else h[p]
    fs = L; w = np.linspace(0, 0.5, 4001); R = np.abs(np.exp(-2j * np.pi * np.outer(w, np.arange(len(f)))) @ f) / L
    H[fi, 'R'] = R; H[fi, 'f'] = f
    return None
def quality(fi):
    out, L, M = RATIO[fi]; R, f = H[fi, 'R'], H[fi, 'f']; w = np.linspace(0, 0.5, 4001) * L      # in units of the input rate
    if abs(R[0] - 1) > 2e-3: return 'gain %.5f at zero frequency' % R[0]
    pb = R[w <= 0.4]
    if pb.min() < 10 ** (-3.0 / 20) or pb.max() > 10 ** (0.5 / 20): return 'pass band between %.2f and %.2f dB' % (20 * np.log10(pb.min()), 20 * np.log10(pb.max()))
    sb = R[w >= 0.62 if M == 1 else w >= 0.65]
    if sb.max() > 10 ** (-50 / 20): return 'images are only %.1f dB down' % (20 * np.log10(sb.max()))
    nz = np.flatnonzero(np.abs(f) > 1e-5); g = f[nz[0]:nz[-1] + 1]
    e = np.abs(g - g[::-1]).max()
    return None if e < 1e-4 else 'phase is not linear: asymmetry %.3g' % e
def setup(exes):
    from ..fw import Ctx
    ctx = Ctx(exes)
    for fi in RATIO:
        try: H[fi, 'bad'] = calibrate(ctx, fi) or quality(fi)
        except Violation as v: H[fi, 'bad'] = str(v)
    ctx.close()
def case(d, ctx, idx):
    fi = d.choice([5, 6, 7, 8]); out, L, M = RATIO[fi]; wd = d.choice([16, 24, 32, 32, 32])
    if H[fi, 'bad']: raise Violation('resampling %d to %d Hz: %s' % (FS[fi], out, H[fi, 'bad']))
    cfg = {}; lays = S.LAYOUTS
    if fi != 8 and d.bool(0.3): cfg['cicp'] = d.choice([1, 2, 3, 6, 7, 10, 12, 16, 19]); lays = [x for x in lays if x != 8]
    s = S.rand_stream(d, layouts=lays, fsidx=fi, nframes=d.int(1, 6), feat=dict(S.FULL, ehi=d.choice([10.0, 12.0])))
    x, rx = dec(ctx, s, 32, **cfg); y, ry = dec(ctx, s, wd, resamp=1, outfs=out, **cfg)
    if np.abs(x).max() > 30000: return dict(nontrivial=False)
    desc = 'layout %r target %s %d to %d Hz' % (s.layout, cfg.get('cicp'), s.fs, out)
    if len(rx) != len(ry): raise Violation('%s: %d frames resampled, %d not' % (desc, len(ry), len(rx)))
    for a, b in zip(rx, ry):
        if b.f['fs'] != out: raise Violation('%s: rate %d is reported' % (desc, b.f['fs']))
        if a.f['chan'] != b.f['chan']: raise Violation('%s: %d channels, %d without resampling' % (desc, b.f['chan'], a.f['chan']))
    skip = 1024 * len(rx) - x.shape[1]; ys = 1024 * len(rx) * L // M - y.shape[1]
    if cfg and skip:    # delay compensation drops samples at the start of the output, counted at the output rate
        if ys != skip: raise Violation('%s: %d samples, expected %d' % (desc, y.shape[1], 1024 * len(rx) * L // M - skip))
    elif ys: raise Violation('%s: %d samples, %d expected' % (desc, y.shape[1], 1024 * len(rx) * L // M))
    n = np.arange(ys, y.shape[1] + ys); pk = np.abs(x).max(); tol = 3e-5 * pk + (1.02 if wd == 16 else 0.02)
    for c in range(x.shape[0]):
        xx = np.concatenate([np.zeros(skip), x[c]]); e = np.zeros(len(n))
        for p in range(L):
            k = np.flatnonzero(n % L == p); m = n[k] * M // L
            e[k] = rows(xx, m) @ H[fi][p]
        k = np.arange(len(n)) if not skip else np.flatnonzero(n * M // L >= skip + K)
        if not len(k): continue
        er = np.abs(e[k] - y[c][k]); b = int(er.argmax())
        if er[b] > tol: raise Violation('%s: channel %d sample %d (frame %d) is %.6g, the interpolation of the decoded signal gives %.6g (tolerance %.3g)' % (desc, c, k[b], n[k[b]] * M // L // 1024, y[c][k[b]], e[k[b]], tol))
    d.label('%d/%d' % (L, M)); d.label('%d bit' % wd)
    if cfg: d.label('target layout')
    return dict(nontrivial=len(rx) > 1 and pk > 1, key=idx, sample=desc)
