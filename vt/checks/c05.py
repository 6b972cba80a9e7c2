"""Hostile input: no access outside the decoder's memory, no hang, no broken report - whatever the bytes and the settings."""
from ..fw import Session, Violation
from .. import streams as S, fuzz
from ..core import *
ID = 'C05'; QUICK = 4000; THOROUGH = 60000
VARIANTS = ['asan']
RULE = 'a case counts when the decoder accepted the configuration or decoded at least one call'
ASSUME = ['memory accesses are judged by AddressSanitizer on the memory the decoder was given and by bounds checks on its arrays']
def settings(d):
    c = dict(pcm=d.choice([16, 24, 32])); bl = {}
    if d.bool(.3): c['cicp'] = d.choice(S.LAYOUTS + [13])
    if d.bool(.2): c.update(lset=1, loud=d.int(0, 255) if d.bool(.9) else -d.int(0, 255))
    if d.bool(.2): c['effect'] = d.int(0, 12)
    if d.bool(.1): c['preset'] = d.int(0, 31)
    if d.bool(.1): c['extrend'] = 1
    if d.bool(.2): c.update(resamp=1, outfs=d.choice([48000, 44100]))
    for t in (1, 2, 3, 4, 5, 6, 7):
        if d.bool(.06): bl[t] = d.bytes(d.int(1, 64))
    return c, bl
def case(d, ctx, idx):
    c, bl = settings(d)
    kind = d.weighted([('grammar', 6), ('valid', 2), ('noise', 1)])
    if kind == 'noise': data = (SYNC if d.bool() else b'') + b''.join(mhas(d.choice([1, 2, d.int(0, 30)]), d.bytes(d.int(0, 400))) for _ in range(d.int(1, 5)))
    else:
        if kind == 'valid': s = S.rand_stream(d, nframes=d.int(1, 3), feat=dict(S.FULL, p_mct=0.3)); cfg, fr = s.cfg, s.frames
        else: cc = fuzz.rand_config(d, c.get('cicp')); cfg = cc.write(); fr = fuzz.frames(d, cc, d.int(1, 3))
        if d.bool(.15): c['binaural'] = 1; bl[8] = fuzz.brir(d, c.get('cicp') or (s.layout if kind == 'valid' else cc.layout), s.fsidx if kind == 'valid' else cc.fsidx)
        if d.bool(.25): cfg = fuzz.damage(d, cfg)
        fr = [fuzz.damage(d, f) if d.bool(.4) else f for f in fr]
        pk = [(PT_CONFIG, cfg)] + [(PT_FRAME, f) for f in fr]
        if d.bool(.1): pk.insert(d.int(0, len(pk)), (d.choice([3, 4, 5, 7, 8, 9, 17, 20, 21, 22, d.int(0, 40)]), d.bytes(d.int(0, 60))))
        raw = d.bool(.15)
        if raw: c['raw'] = 1; data = cfg + b''.join(fr)
        else: data = SYNC + b''.join(mhas(t, x) for t, x in pk)
    if d.bool(.1): data = fuzz.damage(d, data)
    pol = [] if d.bool(.8) else [d.int(1, 3000) for _ in range(3)]
    r = ctx.run(Session().create(blobs=bl, **c).bind(data, policy=pol).steps(40).delete(), 'asan')
    st = [x for x in r if x.tag == 's']
    for i, x in enumerate(st):
        if not 0 < x.consumed <= x.given: raise Violation('call %d consumed %d of %d bytes (status %#x)' % (i, x.consumed, x.given, x.err & 0xffffffff))
    d.label(kind)
    ok = [x for x in st if x.init_done and x.err == 0]
    if ok: d.label('accepted ' + kind)
    if any(x.nout for x in ok): d.label('decoded ' + kind)
    return dict(nontrivial=bool(ok), key=idx, sample='%s %r %d bytes: %r' % (kind, c, len(data), [(x.err & 0xffffffff, x.consumed, x.nout) for x in st[:6]]))
