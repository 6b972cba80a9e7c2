"""MHAS transport: packets that carry no audio, labels, repeated configurations and sync packets do not change the decoded audio."""
from ..fw import Session, Violation
from .. import streams as S, rich
from ..core import *
ID = 'C04'; QUICK = 2000; THOROUGH = 12000
RULE = 'a case counts when at least one packet was inserted or one label / header form changed and the output is not silent'
ASSUME = ['inserted packets are well formed; every access unit and the packets before it fit in the input buffer']
SKIP = [0, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 30, 127, 128, 255, 261, 262, 263, 300, 500, 517]
def case(d, ctx, idx):
    cfg = dict(pcm=16)
    s = rich.stream(d, nframes=d.int(2, 6), layouts=[1, 2, 3, 4, 5, 6, 9, 10], fsidx=3 if d.bool(0.2) else None, cfg=cfg)
    plain = [SYNC + mhas(PT_CONFIG, s.cfg)] + [mhas(PT_FRAME, f) for f in s.frames]
    ref = [r for r in ctx.run(Session().create(**cfg).bind(b''.join(plain)).steps().delete()) if r.tag == 's']
    pk = []; nins = 0; rng = d.rng(); labs = []
    label = d.weighted([(1, 3), (0, 1), (2, 1), (3, 1), (200, 1), (257, 1), (258, 1), (70000, 1)])
    def junk():
        nonlocal nins
        out = b''
        for _ in range(d.weighted([(0, 4), (1, 3), (2, 2), (4, 1)])):
            nins += 1
            if d.bool(0.25): out += SYNC; continue
            t = d.choice(SKIP); n = d.weighted([(0, 2), (1, 2), (d.int(0, 60), 4), (d.int(2046, 2049), 1), (d.int(3000, 6000), 1)])
            out += mhas(t, rng.integers(0, 256, n, dtype='u1').tobytes(), d.choice([0, 1, 2, 3, 100, 257, label]))
            labs.append((t, n))
        return out
    # the configuration packet may be repeated unchanged
    rep = set()
    for i, f in enumerate(s.frames):
        if i and d.bool(0.12): rep.add(len(pk)); nins += 1; labs.append('config'); pk.append(junk() + mhas(PT_CONFIG, s.cfg, label))
        if i == 0: pk.append(junk() + mhas(PT_CONFIG, s.cfg, label))
        pk.append(junk() + mhas(PT_FRAME, f, label))
    tail = junk() if d.bool(0.3) else b''
    r = [x for x in ctx.run(Session().create(**cfg).bind(b''.join(pk) + tail).steps(len(pk) + 40).delete()) if x.tag == 's']
    if len(r) < len(pk): raise Violation('%d calls for %d packets with audio; inserted %r' % (len(r), len(pk), labs))
    ri = iter(ref)
    for i, p in enumerate(pk):
        y = r[i]
        if i in rep:
            if y.err or y.nout or y.consumed != len(p): raise Violation('call %d: an unchanged configuration gave status %#x, %d bytes of audio, consumed %d of %d' % (i, y.err & 0xffffffff, y.nout, y.consumed, len(p)))
            continue
        x = next(ri)
        if y.err: raise Violation('call %d fails with %#x after packets %r were inserted (label %d)' % (i, y.err & 0xffffffff, labs, label))
        if y.consumed != len(p): raise Violation('call %d consumed %d instead of %d bytes (label %d, inserted %r)' % (i, y.consumed, len(p), label, labs))
        if x.data != y.data: raise Violation('call %d: output differs after packets %r were inserted (label %d)' % (i, labs, label))
    for x in r[len(pk):]:
        if x.nout and x.err == 0: raise Violation('output without an access unit')
    return dict(nontrivial=(nins or label != 1) and any(x.data.strip(b'\0') for x in ref), key=idx, sample='label %d, inserted %s' % (label, labs))
