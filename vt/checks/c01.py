"""Lifecycle: random histories of create / decode / delete on many instances with injected allocation failures."""
from ..fw import Session, Violation
from .. import streams as S
ID = 'C01'; QUICK = 2000; THOROUGH = 12000
RULE = 'a history counts when it holds at least two live instances at some point and at least one injected allocation failure or one delete before the end of the stream'
ASSUME = ['the caller honours the documented protocol: buffers of the size reported by create, num_inp_bytes within the input buffer']
FAIL = 0xFFFF8000
def case(d, ctx, idx):
    pool = [S.rand_stream(d, nframes=d.int(1, 3), layouts=[1, 2, 3, 6, 9, 10], feat=dict(S.FULL, p_mct=0.2)) for _ in range(d.int(1, 2))]
    ref = []
    for s in pool:
        r = ctx.run(Session().create(pcm=16).bind(s.bytes()).steps().delete())
        ref.append(b''.join(x.data for x in r if x.tag == 's'))
        if not ref[-1]: raise Violation('a valid stream produced no output: %r' % [hex(e) for e in S.errors(r)])
    na = ctx.run(Session().create().delete())[0].malloc_count
    if na < 1: raise Violation('malloc_count is %d' % na)
    ses = Session(); live = {}; exp = []; nfail = early = 0; maxlive = 0
    for _ in range(d.int(3, 14)):
        op = d.weighted([('new', 4), ('step', 4), ('del', 3), ('early', 1)])
        if op == 'new':
            free = [i for i in range(8) if i not in live]
            if not free: continue
            i = d.choice(free); fa = d.int(0, na + 1) if d.bool(0.4) else -1
            ses.create(id=i, pcm=16, failat=fa, fill=d.choice([-1, 0, 255, 300 + i]), misalign=d.int(0, 15))
            if 0 <= fa < na: exp.append(('c', i, FAIL)); nfail += 1; live[i] = None
            else:
                exp.append(('c', i, 0)); k = d.raw(len(pool)); live[i] = [k, 0]
                ses.bind(pool[k].bytes(), id=i)
            maxlive = max(maxlive, len(live))
        elif live:
            i = d.choice(sorted(live))
            if op == 'del':
                if live[i] is not None: early += 1
                ses.delete(id=i); exp.append(('d', i)); del live[i]
            elif live[i] is None: continue
            elif op == 'step':
                n = d.int(1, 4); live[i][1] = 1; ses.steps(n, id=i); exp.append(('s', i, n))
            elif op == 'early' and live[i][1] == 0:
                ses.early_exec(id=i); exp.append(('E', i)); live[i][1] = 1
    # whatever is still alive is decoded to the end and deleted
    for i in sorted(live):
        if live[i] is not None: ses.steps(id=i)
        ses.delete(id=i); exp.append(('d', i))
    recs = ctx.run(ses)
    if sum(r.tag == 'd' for r in recs) != sum(e[0] == 'd' for e in exp): raise Violation('an API call did not return')
    ce = [e for e in exp if e[0] == 'c']; cr = [r for r in recs if r.tag == 'c']
    for e, r in zip(ce, cr):
        if (r.err & 0xffffffff) != e[2]: raise Violation('create returned %#x, expected %#x' % (r.err & 0xffffffff, e[2]))
        if e[2] == 0 and (r.malloc_count != na or r.bad): raise Violation('create reported inconsistent memory tables (count %d, flags %d)' % (r.malloc_count, r.bad))
    for r in recs:
        if r.tag == 'd':
            if r.err: raise Violation('delete returned %#x' % (r.err & 0xffffffff))
            if r.left: raise Violation('delete left %d blocks allocated' % r.left)
            if r.badfree: raise Violation('delete released a block that was not allocated or was already released')
    if recs and recs[-1].tag == "d" and recs[-1].diff: raise Violation('%d blocks unbalanced after all instances were deleted' % recs[-1].diff)
    # outputs: what an instance produced before it was deleted is a prefix of what the same stream gives alone
    cur = {}
    for r in recs:
        if r.tag == 'c': cur[r.id] = b''
        elif r.tag == 's':
            if r.err == 0: cur[r.id] += r.data
            elif r.isinit: raise Violation('decoding of a valid stream failed: %#x' % (r.err & 0xffffffff))
        elif r.tag == 'd':
            o = cur.get(r.id, b'')
            if o and not any(x.startswith(o) for x in ref): raise Violation('an instance of the history produced other samples than the same stream alone')
    return dict(nontrivial=maxlive >= 2 and (nfail or early), key=tuple(map(str, exp)), sample='%d ops, %d live, %d alloc failures, %d early deletes' % (len(exp), maxlive, nfail, early))
