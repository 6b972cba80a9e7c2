"""A new configuration in the middle of the stream: from there on everything is as if a new decoder had been started."""
from ..fw import Session, Violation
from .. import streams as S, rich
from ..core import *
ID = 'C25'; QUICK = 1500; THOROUGH = 25000
RULE = 'a case counts when the configuration changed at least once and audio that is not silent followed the change'
ASSUME = ['no output resampling; the configuration packet is followed by an independent access unit']
SM = [1, 2, 3, 4, 5, 6, 9, 10, 11, 12]
def case(d, ctx, idx):
    k = d.int(2, 4); st = []; cfg = dict(pcm=d.choice([16, 24, 32]))
    tgt = d.choice([1, 2, 6, 10, 12, 16]) if d.bool(0.25) else 0
    if tgt: cfg['cicp'] = tgt
    elif d.bool(.25): cfg['extrend'] = 1
    if d.bool(.2): cfg.update(lset=1, loud=-4 * d.int(10, 36))
    for i in range(k):
        fs = None if not tgt else d.choice([3, 4, 5, 6, 7])
        if st and d.bool(0.3): fs = st[-1].fsidx
        lay = [st[-1].layout] if st and d.bool(0.3) else SM + [15, 16, 19] if d.bool(0.2) else SM
        st.append(rich.stream(d, nframes=d.int(1, 3), layouts=lay, fsidx=fs, feat=dict(p_ltpf=d.choice([.1, .6]), elo=9.0, ehi=d.choice([16.0, 20.0])), cfg=cfg))
    for i in range(1, k):
        if st[i].cfg == st[i - 1].cfg: return dict(nontrivial=False)
    alone = []; whole = []
    for s in st:
        whole.append(ctx.run(Session().create(**cfg).bind(s.bytes()).steps().delete())); r = [x for x in whole[-1] if x.tag == 's']
        er = S.errors(r)
        if er: raise Violation('a fresh decoder refuses %r with status %#x' % ((s.layout, s.fs), er[0]))
        alone.append(r)
    data = b''
    for i, s in enumerate(st): data += (s.bytes(sync=d.bool(), label=d.choice([1, i + 1])))
    R = ctx.run(Session().create(**cfg).bind(data).steps(60).delete()); r = [x for x in R if x.tag == 's']
    desc = [(s.layout, s.fs, len(s.frames)) for s in st]
    if cfg.get('extrend'):
        ext = lambda rs: [y for x, y in zip(rs, rs[1:]) if x.tag == 's' and x.nout and y.tag == 'x']
        a = [x for al in whole for x in ext(al)]; b = ext(R)
        for k, (x, y) in enumerate(zip(a, b)):
            for n, p, q in zip(('signals', 'channel metadata', 'object metadata', 'ambisonics metadata'), x.parts, y.parts):
                if p[:-1] != q[:-1]: raise Violation('external rendering, frame %d after the start: the %s differ from those of a fresh decoder: streams %r' % (k, n, [(s.layout, s.fs, len(s.frames)) for s in st]), key='extrend ' + n)
        if len(a) != len(b): raise Violation('external rendering: %d frames instead of %d' % (len(b), len(a)))
    er = S.errors(r)
    if er: raise Violation('status %#x after a change of configuration: streams (layout, rate, frames) %r target %d' % (er[0], desc, tgt))
    if r[-1].pos + r[-1].consumed != len(data): raise Violation('%d of %d bytes consumed: streams %r' % (r[-1].pos + r[-1].consumed, len(data), desc))
    got = [x for x in r if x.nout]
    want = [(i, j, x) for i, a in enumerate(alone) for j, x in enumerate([y for y in a if y.nout])]
    if len(got) != len(want): raise Violation('%d calls delivered audio, %d were expected: streams %r' % (len(got), len(want), desc))
    for y, (i, j, x) in zip(got, want):
        for f in ('nout', 'chan', 'fs', 'wdsz'):
            if x.f[f] != y.f[f]: raise Violation('stream %d of %r, frame %d: %s is %d after the change of configuration, a fresh decoder gives %d' % (i, desc, j, f, y.f[f], x.f[f]))
        if x.data != y.data: raise Violation('stream %d of %r (target %d), frame %d: the audio differs from that of a fresh decoder' % (i, desc, tgt, j))
    d.label('changes%d' % (k - 1))
    if any(a.fs != b.fs for a, b in zip(st, st[1:])): d.label('rate change')
    if any(a.layout != b.layout for a, b in zip(st, st[1:])): d.label('layout change')
    if tgt: d.label('target layout')
    return dict(nontrivial=any(x.data.strip(b'\0') for i, j, x in want if i), key=idx, sample='%r target %d' % (desc, tgt))
