"""Binaural rendering: the two ear signals are the loudspeaker signals convolved with the impulse responses the application hands in."""
import numpy as np
from ..fw import Session, Violation, Discard
from .. import streams as S, brir, cicp, oam
from ..core import *
ID = 'C18'; QUICK = 600; THOROUGH = 20000; VARIANTS = ['plain', 'asan']; SHRINK = dict(budget_s=25)
RULE = 'a case counts when at least two blocks with sound in them were rendered, or when an unusable set was refused'
ASSUME = ['the loudspeaker signals are taken from a decode of the same stream without binaural rendering (C01, C12, C14, C16 judge those)', 'at least 1024 samples of direct part for plain impulse responses over 1024 taps (shorter ones are refused)']
TGT = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20]
def taps(d, rng, K, n, on=0):
    t = n / d.choice([3., 6., 10., 30.]); h = rng.normal(0, 1, (2, K, n)) * np.exp(-np.arange(n) / t)
    h *= rng.uniform(.2, 1, (2, K, 1)) / np.sqrt((h ** 2).sum(2)).max() / K
    if d.bool(.15): h[d.int(0, 1), d.int(0, K - 1)] = 0
    if on: h = np.concatenate([np.zeros((2, K, on)), h[:, :, :n - on]], 2)
    return h.astype(np.float32).astype(float)
def filters(d, K, budget):
    """(set as sent, set as rendered)"""
    rng = d.rng(); q = brir.Set(); q.cut = None; q.delay = 0
    if d.bool(.35):
        q.fmt = 0; n = d.int(1, 1024) if budget < 4 or d.bool(.4) else d.int(1025, d.choice([3000, 6000, 20000] if K <= 4 else [3000, 6000]))
        q.direct = taps(d, rng, K, n, on=d.choice([0, 0, d.int(1, min(300, n - 1))]) if n > 1 else 0)
        if d.bool(.6) and n > 1024:
            F = np.fft.rfft(q.direct, axis=2); F[:, :, int(F.shape[2] * d.choice([.75, .4, .25])):] *= 1e-3; q.direct = np.fft.irfft(F, n, axis=2).astype(np.float32).astype(float)
        if d.bool(.3): q.cut = np.stack([np.full(2, 20000.)] * K)
        r = brir.design(q.direct)
        if r == 'short': return q, None
        if getattr(r, 'close', 1) < 3e-6: raise Discard('close call in the filter design')
        return q, r
    q.fmt = 2; late = d.weighted([(0, 5), (1, 2), (2, 2)]); top = 8192 if budget >= 16 else 2048
    L = 1 << d.int(4, top.bit_length() - 1) if late or d.bool(.4) else d.weighted([(d.int(1, 40), 1), (d.int(1, 1100), 2), (d.int(1, top), 2)])
    q.direct = taps(d, rng, K, L); q.delay = d.choice([0, 0, d.int(0, 65535)])
    q.fc = np.ones((2, K)) if d.bool(.5) else np.float32(rng.uniform(.1, 1.1, (2, K)))
    q.late = [taps(d, rng, 1, L)[:, 0] * .5 ** (i + 1) for i in range(late)]; q.late = [b.astype(np.float32).astype(float) for b in q.late]
    q.fl = np.float32(rng.uniform(.1, 1.1, (late, 2))); q.wl = np.float32(rng.uniform(0, 1, K)) if late else np.zeros(K, np.float32)
    return q, q
def case(d, ctx, idx):
    kind = d.weighted([('index', 4), ('list', 2), ('target', 2), ('objects', 2)]); fx = d.choice([3, 4, 4, 5, 6, 7, 8]) if kind != 'target' else d.choice([3, 4, 5, 6, 7])
    big = d.bool(.3); nf = d.int(14, 26) if big else d.int(4, 10); cfg = {}; tgt = 0
    f = dict(S.FULL, ehi=12.0, p_ltpf=.03, p_fdp=.03)
    if kind == 'objects':
        s = oam.stream(d, nframes=nf, fsidx=fx, feat=dict(f, ehi=10.)); lay = s.layout
    else:
        lay = d.choice([l for l in S.LAYOUTS if l in cicp.LAYOUT])
        if kind == 'list': lay = [d.choice([x for x in sorted(cicp.SPK) if x not in (37, 38)]) for _ in range(d.int(1, 8))]
        def ext(g):     # what the format converter delivers before its delay has passed is not known
            g.mute = set() if getattr(g, 'begun', 0) else set(range(64)); g.begun = 1
        s = S.rand_stream(d, nframes=nf, fsidx=fx, layouts=[lay], feat=f, ext=ext if kind == 'target' else None)
        if kind == 'target': tgt = d.choice(TGT); cfg['cicp'] = tgt
    pos = lay if kind == 'list' else cicp.LAYOUT[tgt or lay]
    # the loudspeakers of the set: the layout itself, or a list that has them in any order among others
    if kind != 'list' and d.bool(.4): bl = tgt or lay; names = pos
    else:
        names = list(dict.fromkeys(pos)); extra = [x for x in sorted(cicp.SPK) if x not in names and x not in (37, 38)]
        for _ in range(d.int(0, 3)):
            if len(names) < 21 and extra: x = d.choice(extra); extra.remove(x); names.insert(d.int(0, len(names)), x)
        if d.bool(.5): names = d.rng().permutation(names).tolist()
        bl = names
    geo = [cicp.SPK[x] for x in names]; refuse = None
    if bl is names and len(names) > 1 and d.bool(.08):
        g = cicp.SPK[pos[0]]; names = [x for x in names if cicp.SPK[x] != g] or [25 if g != (0, 90, 0) else 2]; bl = names; geo = [cicp.SPK[x] for x in names]
    cmap = []
    for p in pos:
        g = cicp.SPK[p]; m = [i for i, x in enumerate(geo) if x == g] or ([i for i, x in enumerate(geo) if x[2]] if g[2] else [])
        if not m: refuse = 'loudspeaker %d has no filter' % p
        cmap.append(m[0] if m else -1)
    if len(set(cmap)) < len(cmap) and not refuse: raise Discard('two channels share a position')
    q, r = filters(d, len(names), nf)
    if r is None: refuse = 'direct part under 1024 taps'
    if d.bool(.2): q.name = d.bytes(d.int(1, 100))
    bfs = fx
    if d.bool(.05): bfs = d.choice([i for i in range(13) if i != fx]); refuse = 'filters for %d Hz, stream at %d' % (FS[bfs], s.fs)
    elif d.bool(.1): q.fs = s.fs; bfs = None
    sets = [(bfs, bl, q)]
    if d.bool(.1) and not refuse:
        # a further set in front, for another sampling rate
        z = brir.Set(); z.fmt = 2; z.delay = 0; z.late = []; z.fl = []; z.wl = [0]; z.fc = np.ones((2, 1)); z.direct = np.ones((2, 1, 4)); sets.insert(0, (d.choice([i for i in range(13) if i != fx]), 1, z))
    behind = not refuse and len(sets) == 1 and (d.bool(.03) or idx == 0)
    if behind:
        z = brir.Set(); z.fmt = 2; z.delay = 0; z.late = []; z.fl = []; z.wl = [0]; z.fc = np.ones((2, 1)); z.direct = np.ones((2, 1, 4)); sets.append((d.choice([i for i in range(13) if i != fx]), 1, z))
    blob = brir.write(sets); variant = 'asan' if idx % 8 == 0 else 'plain'
    if d.bool(.2): cfg.update(lset=1, loud=-4 * d.int(10, 36))
    pol = [len(SYNC)] + [1 << 20] * 63 if d.bool(.15) else []       # the configuration comes with the second call
    o = ctx.run(Session().create(pcm=32, binaural=1, blobs={8: blob}, **cfg).bind(s.bytes(), policy=pol).steps(nf + 6).delete(), variant)
    if pol and [x for x in o if x.tag == 's']: o.remove([x for x in o if x.tag == 's'][0])
    er = S.errors(o); what = '%s layout %r, target %d, %d Hz, set for %r, %s with %d taps' % (kind, lay, tgt, s.fs, bl, 'responses' if q.fmt == 0 else 'parameters', q.direct.shape[2])
    d.label(kind, 'fmt%d' % q.fmt)
    if refuse:
        d.label('refused')
        if not er or any(x.tag == 's' and x.nout for x in o): raise Violation('%s: %s, but rendering goes ahead (status %s)' % (what, refuse, [hex(e) for e in er][:2]))
        return dict(nontrivial=True, key=('refused', refuse.split()[0], str(lay)), sample='%s refused: %s' % (what, refuse))
    if behind and er: raise Violation('%s: a further set for another rate behind the fitting one, and rendering is refused with status %#x' % (what, er[0]), key='fitting set not last, refused %#x' % er[0])
    if er: raise Violation('%s: decoding with binaural rendering gives status %#x' % (what, er[0]))
    rec = [x for x in o if x.tag == 's' and x.nout]
    if any(x.chan != 2 for x in rec): raise Violation('%s: output with %r channels' % (what, [x.chan for x in rec]))
    y = S.pcm(o, 2)
    ref = ctx.run(Session().create(pcm=32, **cfg).bind(s.bytes()).steps().delete(), 'plain')
    if S.errors(ref): raise Violation('%s: decoding fails with status %#x' % (what, S.errors(ref)[0]))
    x = S.pcm(ref, len(pos)); B = 2
    while B < r.direct.shape[2]: B *= 2
    X = np.zeros((len(names), nf * 1024)); skip = nf * 1024 - x.shape[1]; lim = 240 if s.fs == 48000 else 0; D = skip - lim
    if D not in (0, 256): raise Violation('%s: %d samples per channel without binaural rendering for %d frames' % (what, x.shape[1], nf))
    X[cmap, D:nf * 1024 - lim] = x; X = X[:, :nf * 1024]
    if D and x.size and abs(x[:, :64]).max() > 1e-4: raise Discard('sound before the first sample that is known')
    if abs(x).max() > 20000: raise Discard('loud enough for the limiter')
    best = None
    for lag in (min(B, 2048), 0, 2048):
        m = brir.render(np.concatenate([np.zeros((len(X), lag)), X], 1), list(range(len(X))), r)
        n = (lag + nf * 1024) // B * B; m = m[:, D:n] if n > D else m[:, :0]
        m = np.clip(m, -32768, 32768); e = 0
        if m.shape[1] != y.shape[1]: v = '%d samples per ear, expected %d' % (y.shape[1], m.shape[1])
        else:
            # with the limiter's delay the last samples of the other decode are not known
            k = m.shape[1]
            if lim: k = min(k, (lag + nf * 1024 - lim) // B * B - D)
            k = max(k, 0); tol = 1e-5 * (abs(X).max(1) * np.sqrt((r.direct ** 2).sum(2)).max(0)).sum() * 3 + 1e-3 + 1e-5 * abs(m).max() if m.size else 1
            dif = abs(y[:, :k] - m[:, :k])
            if not (k and dif.max() > tol) and not np.isnan(dif).any(): best = None; break
            i = int(dif.max(0).argmax()); ear = int(dif[:, i].argmax()); v = 'ear %d sample %d is %.6g, the convolution gives %.6g (tolerance %.2g, %d taps, %d late blocks)' % (ear, i, y[ear, i], m[ear, i], tol, r.direct.shape[2], len(r.late))
        best = best or v
    if best: raise Violation('%s: %s' % (what, best))
    lv = [abs(m[:, j:j + B]).max() for j in range(0, m.shape[1], B)]
    d.label('late%d' % len(r.late), 'B%d' % B)
    if 'lset' in cfg: d.label('loudness')
    return dict(nontrivial=sum(v > 1 for v in lv) >= 2, key=(kind, str(lay), tgt, q.fmt, B, len(r.late)), sample='%s: %d blocks of %d, %d late' % (what, len(lv), B, len(r.late)))
