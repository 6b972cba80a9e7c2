"""What the decoder reports about its output (rate, channels, word size, loudspeaker positions) against the stream's configuration and the request."""
from ..fw import Session, Violation
from .. import streams as S, cicp
from ..core import FS, CICP_CH
ID = 'C07'; QUICK = 3000; THOROUGH = 40000
RULE = 'a case counts when initialisation succeeded and audio was delivered; labels count the loudspeaker descriptions and requests covered'
ASSUME = ['loudspeaker lists of up to 16 loudspeakers; target layouts only for streams with a layout index']
RS = {24000: (48000,), 32000: (48000,), 16000: (48000,), 22050: (44100,)}
TGT = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20]
def case(d, ctx, idx):
    kind = d.weighted([('index', 3), ('list', 3), ('target', 3)])
    if kind == 'list':
        n = d.int(1, 12); lay = [d.choice(sorted(cicp.SPK)) for _ in range(n)]
        # CICP indices 11, 12 and the screen-relative loudspeakers are not used as positions
        lay = [x if x not in (37, 38) else 15 for x in lay]
    else: lay = d.choice(S.LAYOUTS)
    if lay == 8: lay = 2
    nf = d.int(1, 3)
    fx = d.choice([3, 4, 5, 6, 7]) if kind == 'target' else None   # the format converter is not available at 16 kHz
    s = S.rand_stream(d, nframes=nf, fsidx=fx, layouts=[lay], feat=dict(p_ltpf=0, p_fdp=0, p_tns=0))
    wd = d.choice([16, 24, 32]); cfg = dict(pcm=wd); tgt = 0
    if kind == 'target': tgt = d.choice(TGT); cfg['cicp'] = tgt
    outfs = s.fs
    if kind == 'index' and d.bool(0.3):
        o = d.choice(list(RS.get(s.fs, (48000,)))); cfg.update(resamp=1, outfs=o)
        if o in RS.get(s.fs, ()): outfs = o
    else: o = 0
    r = ctx.run(Session().create(**cfg).bind(s.bytes()).steps().delete())
    er = S.errors(r)
    if er and not (o and er[0] & 0xF0000000 == 0): raise Violation('decoding a valid stream (%s layout %r, target %d, resample to %d from %d) gives status %#x' % (kind, lay, tgt, o, s.fs, er[0]))
    i = [x for x in r if x.tag == 's' and x.isinit][-1]; g = [x for x in r if x.tag == 'g']
    if not g: raise Violation('initialisation did not finish')
    g = g[0]; e = [x for x in r if x.tag == 's' and not x.isinit]
    if not e: raise Violation('no call delivered audio')
    e = e[-1]
    pos = cicp.LAYOUT[tgt or lay] if kind != 'list' else lay
    want = [cicp.SPK[p] for p in pos]
    for nm, got, exp in (('sampling rate', i.fs, outfs), ('channels at initialisation', i.chan, s.nch), ('channels', e.chan, len(want)), ('sampling rate with the first output', e.fs, outfs), ('word size', i.wdsz, wd), ('loudspeakers', g.num_spk, len(want)),
                         ('layout type', g.layout, 1 if kind == 'list' else 0), ('layout index', g.cicp, -1 if kind == 'list' else (tgt or lay)), ('binaural flag', g.binaural, 0)):
        if got != exp: raise Violation('%s reported as %d instead of %d (%s layout %r, target %d)' % (nm, got, exp, kind, lay, tgt))
    for k, (az, el, lfe) in enumerate(want):
        gl, ga, ge = g.spk[k]
        if (ga, ge, gl) != (az, el, lfe): raise Violation('loudspeaker %d of %s layout %r is reported at azimuth %d elevation %d lfe %d instead of %d %d %d' % (k, kind, tgt or lay, ga, ge, gl, az, el, lfe))
    ns = [x.nout for x in r if x.tag == 's' and not x.isinit]
    unit = len(want) * wd // 8
    if any(n % unit for n in ns): raise Violation('%r bytes per call are not whole sampling instants of %d channels at %d bits' % (ns, len(want), wd))
    if len(ns) != nf: raise Violation('%d calls for %d access units' % (len(ns), nf))
    if any(n != 1024 * outfs // s.fs * unit for n in ns[1:]): raise Violation('%r bytes per call; %d are one frame' % (ns, 1024 * outfs // s.fs * unit))
    d.label(kind, 'fs%d' % s.fs, 'wd%d' % wd)
    if outfs != s.fs: d.label('resampled')
    return dict(nontrivial=sum(ns) > 0, key=(kind, str(lay), s.fs, tgt, wd, o), sample='%s layout %r, %d -> %d Hz, target %d, %d bit: %d loudspeakers' % (kind, lay, s.fs, outfs, tgt, wd, len(want)))
