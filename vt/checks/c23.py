"""External rendering: the decoded signals and the metadata of the stream are handed out."""
import numpy as np
from ..fw import Violation, Session, pcm_int
from .. import streams as S, oam
from ..core import *
ID = 'C23'; QUICK = 2000; THOROUGH = 20000; VARIANTS = ['plain', 'asan']
RULE = 'a case counts when some signal handed out is not silent and the stream carries objects'


class BR:
    def __init__(self, b): self.v = int.from_bytes(b, 'big'); self.n = len(b) * 8; self.p = 0; self.short = False
    def u(self, n):
        self.p += n
        if self.p > self.n: self.short = True; return 0
        return (self.v >> (self.n - self.p)) & ((1 << n) - 1)
    def esc(self, a, b, c):
        v = self.u(a)
        if v == (1 << a) - 1:
            x = self.u(b); v += x
            if x == (1 << b) - 1: v += self.u(c)
        return v


def sx(v, n): return v - (1 << n) if v >> n - 1 else v


def channels(b, dmx):
    r = BR(b); o = dict(frame=r.u(6) * 64, trunc=r.u(2), groups=[])
    for _ in range(r.u(9)):
        g = dict(n=r.u(16), type=r.u(2))
        if g['type'] == 0: g['layout'] = r.u(6)
        elif g['type'] == 1: g['layout'] = [r.u(7) for _ in range(r.esc(5, 8, 16) + 1)]
        for _ in range(g['n']): r.u(9)
        g['fixed'] = r.u(1); g['prio'] = r.u(3); r.u(8)
        g['dmx'] = r.u(1)
        if g['dmx']:
            g['dmxtype'] = r.u(2); g['passive'] = r.u(1)
            if not g['passive']: g['align'] = r.u(3)
            g['immersive'] = r.u(1)
        g['ext'] = r.u(3); o['groups'].append(g)
    o['rest'] = (r.short, len(b) * 8 - r.p >= 8)
    return o


def objects(b):
    r = BR(b); o = dict(frame=r.u(6) * 64, trunc=r.u(2), objs=[])
    for _ in range(r.u(9)):
        q = dict(id=r.u(9), prio=r.u(1), uniform=r.u(1), parts=[])
        for _ in range(r.u(6)):
            if not r.u(1): q['parts'].append(None); continue
            m = dict(az=sx(r.u(8), 8), el=sx(r.u(6), 6), rad=r.u(4), gain=sx(r.u(7), 7))
            if q['prio']: m['prio'] = r.u(3)
            m['width'] = r.u(7)
            if not q['uniform']: m['height'] = r.u(5); m['depth'] = r.u(4)
            q['parts'].append(m)
        q['fixed'] = r.u(1); q['gprio'] = r.u(3)
        q['enh'] = (r.u(7), r.u(7), r.u(6), r.u(4)); o['objs'].append(q)
    o['ext'] = r.u(3); o['rest'] = (r.short, len(b) * 8 - r.p >= 8)
    return o


def near(s, k):
    """what rounding may turn over in this frame and the previous one"""
    a = getattr(s, 'amb', None)
    return a[max(0, k - 1):k + 1].max(0) if a is not None and len(a) > k and a.shape[1] == len(s.core) else 0


def case(d, ctx, idx):
    lay = oam.random_list(d) if d.bool(.15) else d.choice(oam.LAY)
    exts = []; groups = None; dm = None
    if isinstance(lay, int) and d.bool(.6):
        gi = [(d.int(0, 7), d.int(0, 1)) for _ in range(2)]; w = BW()
        for p, f in gi: w.u(p, 3).u(f, 1)
        exts = [(6, w.bytes())]
    else: gi = [(7, 1)] * 2
    if isinstance(lay, int) and d.bool(.15):
        dm = dict(type=0, passive=d.int(0, 1), align=0, immersive=d.int(0, 1)); w = BW().u(0, 2).u(dm['passive'], 1)
        if not dm['passive']: w.u(dm['align'], 3)
        w.u(dm['immersive'], 1); exts.insert(d.int(0, len(exts)), (1, w.bytes()))
    tgt = d.choice([t for t in oam.LAY if t != lay]) if isinstance(lay, int) and lay != 8 and not dm and d.bool(.2) else None; fi = d.choice([3, 4, 5, 6, 7]) if tgt else None
    if d.bool(.2) and (not isinstance(lay, int) or lay in S.LAYOUTS):
        s = S.rand_stream(d, layouts=[lay], nframes=d.int(1, 5), fsidx=fi, cfgkw=dict(exts=exts) if exts else {}, feat=dict(S.FULL))
        s.core, s.ccpk, s.bed, s.objs = s.model, s.cpk, s.model, []; m = None
    else: s = oam.stream(d, lay, exts=exts, tgt=tgt, fsidx=fi); m = s.oam
    nb, no = len(s.bed), len(s.objs); np_ = 1024 // m.flen if m else 0
    what = '%d channels, %d objects, layout %r' % (nb, no, s.layout)
    if m: what += ', metadata every %d samples' % m.flen
    cfg = dict(pcm=32, cicp=tgt or 0, loud=d.choice([-24, -60])); var = 'asan' if idx % 16 == 15 else 'plain'
    r = ctx.run(Session().create(extrend=1, **cfg).bind(s.bytes()).steps().delete(), var)
    q = ctx.run(Session().create(**cfg).bind(s.bytes()).steps().delete(), var)
    er = S.errors(r)
    if er: raise Violation('%s: decoding of a valid stream fails with status %#x' % (what, er[0]), key='status')
    a, b = [[x.data for x in z if x.tag == 's' and x.nout > 0] for z in (r, q)]
    if a != b: raise Violation('%s: the output differs from the one without external rendering' % what, key='output')
    # one record per frame that was decoded
    recs = [x for x in r if x.tag in 'sx']
    X = [y.parts for x, y in zip(recs, recs[1:]) if x.tag == 's' and y.tag == 'x']
    n = s.core.shape[1] // 1024; X = X[-n:]
    if len(X) != n: raise Violation('%s: %d frames handed out instead of %d' % (what, len(X), n), key='frames')
    for k, (pc, ch, ob, ho) in enumerate(X):
        if len(pc) != 3 * 1024 * (nb + no): raise Violation('%s, frame %d: %d bytes of PCM instead of %d' % (what, k, len(pc), 3 * 1024 * (nb + no)), key='pcm length')
        o = pcm_int(pc, 24).reshape(1024, nb + no).T; w = s.core[:, k * 1024:k * 1024 + 1024] * 256.
        err = np.abs(o - np.clip(w, -1 << 23, (1 << 23) - 1)); tol = 1.5 + 2e-5 * 256 * (s.ccpk + np.abs(s.core).max(1) + near(s, k))[:, None]
        if (err > tol).any():
            c, t = np.unravel_index((err - tol).argmax(), err.shape)
            raise Violation('%s, frame %d: signal %d sample %d is %d, decoded %.1f' % (what, k, c, t, o[c, t], w[c, t]), key='pcm')
        if nb:
            g = channels(ch, dm); want = dict(n=nb, type=0 if isinstance(s.layout, int) else 1, layout=s.layout if isinstance(s.layout, int) else list(s.layout), fixed=gi[0][1], prio=gi[0][0], dmx=int(dm is not None), ext=0)
            if dm: want.update(dmxtype=0, passive=dm['passive'], immersive=dm['immersive'], **({} if dm['passive'] else dict(align=dm['align'])))
            w = dict(frame=1024, trunc=0, groups=[want], rest=(False, False))
            if g != w: raise Violation('%s, frame %d: channel metadata %r instead of %r' % (what, k, g, w), key='channels')
        elif ch: raise Violation('%s: channel metadata without channels' % what, key='channels')
        if not m:
            if ob: raise Violation('%s: object metadata without objects' % what, key='objects')
            continue
        g = objects(ob); w = dict(frame=m.flen, trunc=0, objs=[], ext=0, rest=(False, False))
        for i in range(no):
            z = dict(id=nb + i, prio=int(m.prio), uniform=int(m.uniform), parts=[], fixed=gi[bool(nb)][1], gprio=gi[bool(nb)][0], enh=(0, 0, 0, 0))
            for p in m.coded[k * np_:k * np_ + np_]:
                c = p[i]
                z['parts'].append(c and {f: c[f] for f in ('az', 'el', 'rad', 'gain') + (('prio',) if m.prio else ()) + (('width',) if m.uniform else ('width', 'height', 'depth'))})
            w['objs'].append(z)
        if g != w:
            what += ', frame %d' % k
            for i, (x, y) in enumerate(zip(g['objs'], w['objs'])):
                if x != y: raise Violation('%s: metadata of object %d is %r instead of %r' % (what, i, x, y), key='objects')
            raise Violation('%s: metadata %r instead of %r' % (what, {a: b for a, b in g.items() if a != 'objs'}, {a: b for a, b in w.items() if a != 'objs'}), key='objects')
    d.label('channels only' if not no else 'bed' if nb else 'objects only'); d.label('groups' if gi != [(7, 1)] * 2 else 'default groups'); d.label('downmix' if dm else 'no downmix')
    d.label('target' if tgt else 'no target')
    for x in m.kinds if m else (): d.label(x)
    return dict(nontrivial=bool(np.abs(s.core).max() > 1) and bool(no), key=(str(s.layout), no, bool(nb), idx), sample=what)
