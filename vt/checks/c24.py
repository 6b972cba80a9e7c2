"""The transport does not change the audio: raw access units (as carried by MP4 files) against MHAS packets."""
from ..fw import Session, Violation
from .. import streams as S, rich
from ..core import *
ID = 'C24'; QUICK = 2000; THOROUGH = 30000
RULE = 'a case counts when at least two access units with audio that is not silent were decoded through both transports'
def case(d, ctx, idx):
    cfg = dict(pcm=d.choice([16, 24, 32]))
    fs = None; lays = S.LAYOUTS
    if d.bool(0.2): cfg['cicp'] = d.choice([1, 2, 3, 6, 10, 12, 16]); fs = d.choice([3, 4, 5, 6, 7]); lays = [x for x in lays if x != 8]
    elif d.bool(0.2): fs, out = d.choice([(5, 48000), (6, 48000), (8, 48000), (7, 44100)]); cfg.update(resamp=1, outfs=out)
    s = rich.stream(d, layouts=lays, fsidx=fs, nframes=d.int(1, 5), feat=dict(ehi=d.choice([16.0, 20.0])), cfg=cfg)
    a = ctx.run(Session().create(**cfg).bind(s.bytes(sync=d.bool(), label=d.int(1, 9))).steps().delete())
    mode = d.choice(['one', 'all', 'tail']); lens = [len(s.cfg)] + [len(f) for f in s.frames]
    junk = d.bytes(d.int(0, 40)) if mode == 'tail' else b''
    pol = [] if mode == 'all' else lens if mode == 'one' else [n + d.int(0, 64) for n in lens]
    data = s.cfg + b''.join(s.frames)
    b = ctx.run(Session().create(raw=1, **cfg).bind(data, policy=pol).steps(len(lens)).delete())
    A = [x for x in a if x.tag == 's' and not x.isinit and x.consumed]; Bx = [x for x in b if x.tag == 's']
    for e in S.errors(a) + S.errors(b): raise Violation('a valid stream is refused with status %#x' % e)
    pos = 0
    for i, x in enumerate(Bx):
        if x.consumed != lens[i]: raise Violation('raw transport (%s): call %d consumed %d bytes, the %s has %d' % (mode, i, x.consumed, 'configuration' if i == 0 else 'access unit', lens[i]))
    if len(Bx) != len(lens): raise Violation('raw transport: %d calls for a configuration and %d access units' % (len(Bx), len(lens) - 1))
    ga = [x for x in a if x.tag == 'g'][0].f; gb = [x for x in b if x.tag == 'g'][0].f
    if ga != gb: raise Violation('the reported output layout depends on the transport: %r with packets, %r without' % (ga, gb))
    A = [x for x in A if x.f['nout'] or True]; B2 = Bx[1:]
    A = A[-len(B2):]
    for i, (x, y) in enumerate(zip(A, B2)):
        for f in ('nout', 'chan', 'fs', 'wdsz', 'cicp'):
            if x.f[f] != y.f[f]: raise Violation('frame %d: %s is %d with packets and %d with raw access units' % (i, f, x.f[f], y.f[f]))
        if x.data != y.data: raise Violation('frame %d (%s): the audio differs between packet and raw transport' % (i, mode))
    d.label(mode)
    return dict(nontrivial=len(s.frames) > 1 and any(x.data.strip(b'\0') for x in B2), key=idx, sample='layout %r %d Hz %s %r' % (s.layout, s.fs, mode, cfg))
