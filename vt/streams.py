"""Random complete streams (config + FD frames) with their reference decode."""
import numpy as np
from . import core, fd, gen, lim
from .mct import Mct
from .core import *

LAYOUTS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20]
def partition(d, layout, nf=None, igf=None, p_sce=0.35):
    """core coder elements covering the channels of a layout in order"""
    n = CICP_CH[layout] if isinstance(layout, int) else len(layout)
    lfe = set(CICP_LFE[layout]) if isinstance(layout, int) else {i for i, s in enumerate(layout) if s in (3, 26, 36)}
    out = []; i = 0
    while i < n:
        f = (nf if nf is not None else d.int(0, 1))
        if i in lfe and d.bool(0.85): out.append(Elem(LFE)); i += 1
        elif i + 1 < n and not d.bool(p_sce) and not ({i, i + 1} & lfe): out.append(Elem(CPE, nf=f)); i += 2
        else: out.append(Elem(SCE, nf=f)); i += 1
    return out
def nch(elems): return sum({SCE: 1, LFE: 1, CPE: 2, EXT: 0}[e.kind] for e in elems)

def tool(d, el, start, fs):
    """a multichannel coding tool for a group with the given elements; the elements with the tool's extension element among them, and its place"""
    ch = [e.kind for e in el for _ in range(2 if e.kind == CPE else 1)]; n = len(ch)
    use = [c for c in range(n) if ch[c] != LFE and d.bool(0.8)]; rest = [c for c in range(n) if ch[c] != LFE and c not in use]
    while len(use) < 2: use.append(rest.pop(0))
    m = Mct(n, start, [start + c for c in sorted(use)], fs)
    x = Elem(EXT, ext_type=9, ext_cfg=m.config(), def_len=d.choice([None, None, 3])); at = d.choice([0, 0, d.int(0, len(el) - 1)])
    return m, el[:at] + [x] + el[at:], at
class Stream:
    """cfg, packets [(type, payload)], model [nch][samples]"""
    def __init__(self, cfg, frames, model, peak, fsidx): self.cfg, self.frames, self.model, self.peak, self.fsidx = cfg, frames, model, peak, fsidx
    def bytes(self, sync=True, label=1, order=None):
        return (SYNC if sync else b'') + mhas(PT_CONFIG, self.cfg, label) + b''.join(mhas(PT_FRAME, f, label) for f in self.frames)
FULL = dict(p_tns=.25, p_fdp=.15, p_ltpf=.1)
def rand_stream(d, nframes=None, layouts=LAYOUTS, fsidx=None, feat=None, elems=None, cfgkw=None, p_sce=0.35, nf=None, ext=None):
    layout = d.choice(layouts); fsidx = d.choice([3, 4, 4, 5, 6, 7, 8]) if fsidx is None else fsidx
    elems = elems if elems is not None else partition(d, layout, p_sce=p_sce, nf=nf)
    f = dict(FULL if feat is None else feat); mct = []; pm = f.pop('p_mct', 0)
    if pm and ext is None and sum(1 if e.kind == SCE else 2 if e.kind == CPE else 0 for e in elems) > 1 and d.bool(pm):
        m, elems, at = tool(d, elems, 0, fsidx); mct = [(at, m)]; f['p_sync'] = 0.8
    n = nframes or d.int(1, 5)
    c = Config(fsidx=fsidx, layout=layout, elems=elems, **(cfgkw or {}))
    g = gen.FdGen(d, fsidx, elems, f); fr = []; m = []; am = []; g.elem_len = c.elem_len; g.mct = mct
    for _ in range(n):
        if ext is not None: ext(g)
        fr.append(g.frame()); m.append(np.stack(g.cur)); am.append([g.apk[i] for i in range(len(g.cur))])
    s = Stream(c.write(), fr, np.concatenate(m, 1), g.peak, fsidx); s.plain = g.plain; s.layout = layout; s.elems = elems; s.nch = CICP_CH[layout] if isinstance(layout, int) else len(layout)
    s.fs = FS[fsidx]; s.cpk = np.array([g.cpk[i] for i in range(len(m[0]))]); s.amb = np.array(am); k = np.nonzero(np.isinf(s.amb).any(1))[0]
    if len(k): s.amb[k[0]:] = np.inf
    return s

def pcm(recs, nch, wd=32, id=None):
    """planar PCM of all frames, in 16-bit units"""
    from .fw import pcm_int
    x = [pcm_int(r.data, wd) for r in recs if r.tag == 's' and len(r.data) and (id is None or r.id == id)]
    x = np.concatenate(x) if x else np.zeros(0)
    return x.reshape(-1, nch).T / float(1 << (wd - 16))
def errors(recs, id=None): return [r.err & 0xffffffff for r in recs if r.tag == 's' and r.err and (id is None or r.id == id)]

def expected(s):
    """reference decode as it leaves the decoder at 32-bit PCM (16-bit units): peak limiter at 48 kHz, saturation elsewhere"""
    if s.fs == 48000:
        e, g = lim.limit(s.model); return e[:, 240:], g
    return np.clip(s.model, -32768, 32768), np.ones(1)
def compare(o, s, rel=2e-5, what='output'):
    """decoder output against the reference decode, channel by channel"""
    from .fw import Violation
    e, g = expected(s)
    if o.shape != e.shape: raise Violation('%s: %d channels x %d samples, expected %d x %d' % ((what,) + o.shape + e.shape))
    if g.min() < 1.0:
        # a limited signal depends on every channel through the common gain
        r = float(np.max(rel * (s.cpk + s.amb.max(0)))) / float(np.abs(s.model).max())
        tol = np.full(o.shape[0], 3e-4 * 32768 if r < 1e-3 else 7e4)
    else: tol = rel * (s.cpk + np.abs(s.model).max(1)) + 0.01
    dif = np.abs(o - e); amb = getattr(s, 'amb', None)
    if amb is not None and amb.shape[1] == len(dif) and amb.any():
        # what rounding may turn over in a frame reaches from its first sample to the end of the overlap
        for f in range(len(amb)): dif[:, max(0, f * 1024 - 256):(f + 2) * 1024] -= rel * amb[f][:, None]
    err = dif.max(1)
    for c in range(o.shape[0]):
        if not err[c] <= tol[c]:
            n = int(dif[c].argmax())
            raise Violation('%s: channel %d sample %d (frame %d) is %.6g, the reference decode gives %.6g (tolerance %.3g)' % (what, c, n, n // 1024, o[c][n], e[c][n], tol[c]))
    return g
def decode(ctx, s, variant='plain', **cfg):
    from .fw import Session, Violation
    r = ctx.run(Session().create(pcm=32, **cfg).bind(s.bytes()).steps().delete(), variant); er = errors(r)
    if er: raise Violation('decoding of a valid stream fails with status %#x' % er[0])
    return pcm(r, s.nch)
