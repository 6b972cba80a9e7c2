"""Call protocol: what is consumed and produced does not depend on how much more input is offered; every call returns and makes progress."""
from ..fw import Session, Violation
from .. import streams as S, rich
from ..core import *
ID = 'C03'; QUICK = 2000; THOROUGH = 12000
RULE = 'a case counts when at least 3 calls were compared under a different chunking, or a damaged stream was driven to its end'
ASSUME = ['streams are offered without gaps; a call is offered at least the rest of the current access unit where equality is required']
OKBYTES = (1, 2, 3, 4)
def case(d, ctx, idx):
    cfg = dict(pcm=d.choice([16, 24, 32]))
    s = rich.stream(d, nframes=d.int(2, 6), layouts=[1, 2, 3, 4, 5, 6, 9, 10], cfg=cfg)
    pk = [SYNC + mhas(PT_CONFIG, s.cfg)] + [mhas(PT_FRAME, f) for f in s.frames]
    b = b''.join(pk)
    mode = d.weighted([('chunk', 5), ('trunc', 3), ('small', 3), ('flip', 3)])
    ref = ctx.run(Session().create(**cfg).bind(b).steps().delete()); ref = [r for r in ref if r.tag == 's']
    if [r.consumed for r in ref] != [len(p) for p in pk]: raise Violation('consumed %r for packets of %r bytes' % ([r.consumed for r in ref], [len(p) for p in pk]))
    per = s.nch * 1024 * cfg['pcm'] // 8
    if mode == 'chunk':
        # call 0: config (plus some); call i: packet i plus a random surplus
        pol = []
        lead = d.bool(.2)                   # the sync packet arrives alone
        if lead: pol.append(len(SYNC))
        for p in [pk[0][len(SYNC):]] + pk[1:] if lead else pk: pol.append(len(p) + d.choice([0, 0, 1, 2, 3, d.int(0, 40), d.int(0, 4000)]))
        r = [x for x in ctx.run(Session().create(**cfg).bind(b, policy=pol).steps().delete()) if x.tag == 's']
        if lead:
            if not r or r[0].consumed != len(SYNC) or r[0].err & 0xffffffff not in (0, 0x1000): raise Violation('the sync packet alone: %r' % [(x.err & 0xffffffff, x.consumed) for x in r[:2]])
            r = r[1:]; ref[0].f["consumed"] -= len(SYNC); pk[0] = pk[0][len(SYNC):]; pol = pol[1:]
        if len(r) != len(ref): raise Violation('%d calls instead of %d when each call is offered one packet plus a surplus' % (len(r), len(ref)))
        for i, (x, y) in enumerate(zip(ref, r)):
            if (x.err, x.consumed, x.data) != (y.err, y.consumed, y.data):
                raise Violation('call %d: offered %d of a packet of %d bytes: err %#x consumed %d, %s output' % (i, y.given, len(pk[i]), y.err & 0xffffffff, y.consumed, 'same' if x.data == y.data else 'different'))
        return dict(nontrivial=len(r) >= 3, key=(idx,), sample='chunk %s' % pol)
    if mode == 'trunc':
        cut = d.int(0, len(b) - 1); data = b[:cut]; pol = []
    elif mode == 'small': data = b; pol = [d.choice([1, 2, 3, 7, 16, 33, 100, 500]) for _ in range(d.int(1, 3))]
    else:
        rng = d.rng(); a = bytearray(b)
        for _ in range(d.int(1, 6)): a[int(rng.integers(0, len(a)))] ^= 1 << int(rng.integers(0, 8))
        data = bytes(a); pol = [] if d.bool(0.5) else [d.int(50, 4000)]
    limit = len(data) + 8
    r = [x for x in ctx.run(Session().create(**cfg).bind(data, policy=pol).steps(limit).delete()) if x.tag == 's']
    pos = 0; whole = 0
    for p in pk:
        if pos + len(p) > len(data): break
        pos += len(p); whole += 1
    for i, x in enumerate(r):
        if not 0 < x.consumed <= x.given: raise Violation('call %d consumed %d of %d bytes (status %#x)' % (i, x.consumed, x.given, x.err & 0xffffffff))
        if x.err == 0 and not x.isinit and x.nout < 0: raise Violation('call %d produced %d bytes' % (i, x.nout))
        e = x.err & 0xffffffff
        if e and not (e >> 31) and e > 0x1FFF: raise Violation('call %d: status %#x is neither a fatal nor a non-fatal code' % (i, e))
    if sum(x.consumed for x in r) != len(data): raise Violation('the calls stopped after %d of %d bytes' % (sum(x.consumed for x in r), len(data)))
    if mode == 'trunc' and whole >= 1:
        # everything before the cut decodes as in the whole stream
        if whole > 1:
            for i in range(whole):
                if i >= len(r) or (r[i].err, r[i].consumed, r[i].data) != (ref[i].err, ref[i].consumed, ref[i].data): raise Violation('truncation at %d changed call %d, which lies before it' % (cut, i))
        if whole < len(r) and r[whole].err == 0 and r[whole].nout: raise Violation('output produced from a packet of which only %d of %d bytes were there' % (len(data) - pos, len(pk[whole])))
    return dict(nontrivial=len(r) >= 1, key=(idx,), sample='%s %d bytes, %d calls' % (mode, len(data), len(r)))
