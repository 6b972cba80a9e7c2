"""Data the decoder has no use for - unknown, fill, compatibility and pre-roll extensions - never disturbs the audio around it."""
from ..fw import Session, Violation
from .. import streams as S, oam, cicp
from ..core import *
ID = 'C26'; QUICK = 1800; THOROUGH = 30000
RULE = 'a case counts when at least one extension with a payload was transmitted and the audio is not silent'
ASSUME = ['pre-roll carries the configuration already in force', 'extension payloads up to 1000 bytes']
UNK = [1, 2, 6, 8, 10, 11, 12, 15, 16, 100, 127, 128, 269, 270, 271, 5000]
def plen(d): return d.choice([0, 1, 2, d.int(3, 40), d.int(3, 40), d.int(240, 252), 253, 254, 255, 256, d.int(257, 300), d.int(300, 1000)])
def case(d, ctx, idx):
    lay = oam.random_list(d) if d.bool(.15) else d.choice(S.LAYOUTS); el = S.partition(d, lay); pre = d.bool(0.25); exts = []
    tgt = d.choice([t for t in cicp.LAYOUT if t != lay]) if isinstance(lay, int) and lay in cicp.LAYOUT and lay != 8 and d.bool(.25) else None
    for _ in range(d.int(0 if pre else 1, 4)):
        e = Elem(EXT)
        if d.bool(0.3): e.ext_type = 0
        else: e.ext_type = d.choice(UNK); e.ext_cfg = d.bytes(d.choice([0, 1, d.int(2, 14), 15, 16, d.int(17, 300)])) ; e.frag = int(d.bool(0.3))
        if d.bool(0.4): e.def_len = d.choice([1, 2, d.int(3, 60), 255, 256, 257, d.int(258, 600)])
        el.insert(d.int(0, len(el)), e); exts.append(e)
    if pre: el.insert(0, Elem(EXT, ext_type=3))
    cx = []
    while len(cx) < 5 and d.bool(0.35):
        t = d.choice([0, 0, 5, 6, 7, 8, 15, 16, 200, 270, 999])
        n = d.choice([0, 1, d.int(2, 14), 15, 16, d.int(17, 200)])
        if t == 0: b = b'\xa5' * n
        elif t == 6: b = d.bytes(1 + d.choice([0, 0, d.int(1, 5)]))      # one signal group: 4 bits, rest reserved
        elif t == 7:
            k = d.int(1, 16); b = bytes([(k - 1) << 4 | d.int(0, 15)]) + bytes(d.choice([0x0d, 0x0e, 0x0f, 0x20, 0x55, 1]) for _ in range(k)) + d.bytes(d.choice([0, 0, 1, d.int(2, 20)]))
        else: b = d.bytes(n)
        cx.append((t, b))
    pay = []
    kw = dict(elem_len=int(d.bool()), exts=cx)
    def ext(g):
        for i, e in enumerate(el):
            if e.kind != EXT: continue
            if e.ext_type == 3:
                if not d.bool(0.7): g.ext_payload[i] = None; continue
                w = BW(); c = Config(fsidx=fs, layout=lay, elems=el, **kw).write(); w.esc(len(c), 4, 4, 8)
                for x in c: w.u(x, 8)
                w.u(0, 2); au = g.plain[-1] if g.plain and d.bool(0.5) else d.bytes(d.int(1, 60)); np_ = d.int(0, 1)
                w.esc(np_, 2, 4, 0)
                if np_:
                    w.esc(len(au), 16, 16, 0)
                    for x in au: w.u(x, 8)
                g.ext_payload[i] = w.bytes()
                if len(g.ext_payload[i]) > 1500: g.ext_payload[i] = None
            elif d.bool(0.25): g.ext_payload[i] = None
            else: g.ext_payload[i] = d.bytes(e.def_len if e.def_len and d.bool(0.5) else plen(d))
            if g.ext_payload[i]: pay.append((e.ext_type, len(g.ext_payload[i])))
    fs = d.choice([3, 4, 4, 5, 6, 7, 8] if not tgt else [3, 4, 4, 5, 6, 7])
    if pre and len(Config(fsidx=fs, layout=lay, elems=el, **kw).write()) > 250: return dict(nontrivial=False)
    s = S.rand_stream(d, layouts=[lay], fsidx=fs, elems=el, ext=ext, cfgkw=kw, feat=dict(S.FULL, ehi=16.0))
    pc = Config(fsidx=s.fsidx, layout=lay, elems=[e for e in el if e.kind != EXT]).write()
    cfg = dict(pcm=d.choice([16, 24, 32]), **(dict(cicp=tgt) if tgt else {}))
    p = SYNC + mhas(PT_CONFIG, pc) + b''.join(mhas(PT_FRAME, f) for f in s.plain)
    a = ctx.run(Session().create(**cfg).bind(s.bytes()).steps().delete()); b = ctx.run(Session().create(**cfg).bind(p).steps().delete())
    d.label('list' if not isinstance(lay, int) else 'target' if tgt else 'plain')
    desc = 'elements %s (extension type, length: %r), config extensions %r, element lengths %d' % (' '.join('SCLX'[e.kind] if e.kind != EXT else 'X%d[config %d default %s frag %d]' % (e.ext_type, len(e.ext_cfg), e.def_len, e.frag) for e in el), pay[:8], [(t, len(x)) for t, x in cx], kw['elem_len'])
    for e in S.errors(b): raise Violation('the stream without extensions fails with status %#x' % e)
    for e in S.errors(a): raise Violation('the stream with extensions fails with status %#x: %s' % (e, desc))
    A = [x for x in a if x.tag == 's' and x.nout]; B = [x for x in b if x.tag == 's' and x.nout]
    if len(A) != len(B): raise Violation('%d frames with extensions, %d without: %s' % (len(A), len(B), desc))
    for i, (x, y) in enumerate(zip(A, B)):
        if x.data != y.data: raise Violation('frame %d differs from the same stream without extensions: %s' % (i, desc))
    if pre: d.label('pre-roll')
    if kw['elem_len']: d.label('element lengths')
    for t, x in cx: d.label('config ext %d' % min(t, 8))
    for e in exts: d.label('fill' if e.ext_type == 0 else 'unknown')
    return dict(nontrivial=bool(pay) and any(x.data.strip(b'\0') for x in A), key=idx, sample=desc)
