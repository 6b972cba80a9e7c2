"""Determinism and isolation: the same stream under different memory contents, alignments, input buffer contents and interleavings."""
from ..fw import Session, Violation, Ctx
from .. import streams as S, rich
ID = 'C02'; QUICK = 1200; THOROUGH = 9000
RULE = 'a case counts when the stream produced non-silent output and was compared under garbage memory and at least one interleaving'
ASSUME = ['one thread: calls on different instances alternate, they do not overlap in time']
def case(d, ctx, idx):
    warm = Ctx(ctx.exes)   # a process of its own, so that a case depends on nothing but its choices
    try: return case1(d, ctx, idx, warm)
    finally: warm.close()
def fresh(ctx, s):
    c = Ctx(ctx.exes)
    try: return c.run(s)
    finally: c.close()
def case1(d, ctx, idx, warm):
    n = d.int(1, 3)
    cfg = [dict(pcm=d.choice([16, 24, 32]), **(dict(lset=1, loud=d.int(40, 124), effect=d.int(0, 8)) if d.bool(0.3) else {})) for _ in range(n)]
    st = [rich.stream(d, nframes=d.int(2, 4), fsidx=3 if d.bool(0.3) else None, feat=dict(p_mct=0.25, p_ltpf=d.choice([.1, .5])), cfg=c) for c in cfg]
    for c, s in zip(cfg, st):
        if d.bool(0.3) and s.fs == 48000 and s.layout != 8: c['cicp'] = d.choice([2, 6, 10])
    # what each stream decodes to in a process that has done nothing else
    alone = []
    for c, s in zip(cfg, st):
        r = fresh(ctx, Session().create(**c).bind(s.bytes()).steps().delete())
        alone.append([(x.err, x.consumed, x.nout, x.data) for x in r if x.tag == 's'])
    # (a) one after the other in one process; the allocator returns dirty, misaligned memory, the input buffer holds garbage behind the data
    for c, s, a in zip(cfg, st, alone):
        r = warm.run(Session().create(fill=d.choice([0, 255, 170, 300 + idx % 50]), misalign=d.int(0, 31), scribble=d.int(1, 255), **c).bind(s.bytes()).steps().delete())
        cmp(a, [(x.err, x.consumed, x.nout, x.data) for x in r if x.tag == 's'], 'with dirty, misaligned memory')
    # (b) interleaved call by call with other instances
    ses = Session()
    for i in range(n): ses.create(id=i, fill=d.choice([-1, 255]), **cfg[i]); ses.bind(st[i].bytes(), id=i)
    left = {i: len(alone[i]) for i in range(n)}; sw = 0; last = -1
    while left:
        i = d.choice(sorted(left)); k = min(d.int(1, 2), left[i]); ses.steps(k, id=i); left[i] -= k; sw += i != last; last = i
        if left[i] == 0: del left[i]
    for i in range(n): ses.delete(id=i)
    r = warm.run(ses)
    for i in range(n): cmp(alone[i], [(x.err, x.consumed, x.nout, x.data) for x in r if x.tag == 's' and x.id == i], 'interleaved with other instances')
    # (c) the same stream twice in one process, the second after the first was deleted, memory reused
    loud = any(any(y[3].strip(b'\\0')) for a in alone for y in a)
    return dict(nontrivial=bool(loud), key=idx, sample='%s sw=%d' % ([(s.layout, s.fs, len(s.elems)) for s in st], sw))
def cmp(a, b, how):
    if len(a) != len(b): raise Violation('%d calls instead of %d %s' % (len(b), len(a), how))
    for i, (x, y) in enumerate(zip(a, b)):
        if x[:3] != y[:3]: raise Violation('call %d: status/consumed/produced %r instead of %r %s' % (i, y[:3], x[:3], how))
        if x[3] != y[3]: raise Violation('call %d: output differs %s' % (i, how))
