"""Random streams of every kind the generators know: channels, multichannel coding, objects, DRC."""
from . import streams as S, oam, igf, dmxmtx, cicp
from .core import *


def extensions(d, lay, cfg):
    """configuration extensions of every kind there is a writer for"""
    from . import drc as R
    ex = []; t = (cfg or {}).get('cicp')
    if isinstance(lay, int) and lay in cicp.LAYOUT and d.bool(.5):
        t = t if t in cicp.LAYOUT and t != lay and d.bool(.8) else d.choice([x for x in cicp.LAYOUT if x != lay])
        c = dmxmtx.config(d, lay, t)
        if c is not None and len(c[0]) < 1000: ex.append((1, c[0]))
    if d.bool(.3): ex.append((0, b'\xa5' * d.int(0, 30)))
    if d.bool(.3): ex.append((6, bytes([d.bits(4) << 4])))
    if d.bool(.4): ex.append((2, R.loudness([dict(type=0, set=0, downmix=0, meas=[(1, d.int(100, 220), d.int(0, 11), d.int(0, 3))])])))
    if d.bool(.2): ex.append((7, bytes([0, d.choice([0x0d, 0x0e, 0x0f])])))
    if d.bool(.2): ex.append((11, d.bytes(d.int(0, 20))))
    return ex[:5]


def stream(d, layouts=S.LAYOUTS, fsidx=None, nframes=None, feat=None, cfg=None):
    """cfg: decoder settings, extended by what the stream needs"""
    lay = d.choice(layouts); kind = d.weighted([('plain', 5), ('objects', 2), ('drc', 2)])
    if kind == 'objects' and lay in oam.LAY:
        s = oam.stream(d, lay, nframes=nframes, fsidx=fsidx)
        s.nch = len(s.model)
    elif kind == 'drc':
        from .checks import c27
        s = c27.stream(d, lay, fsidx, nframes)
        if cfg is not None and d.bool(0.8): cfg.setdefault('lset', 1); cfg.setdefault('loud', -4 * s.tgt); cfg.setdefault('effect', d.int(0, 8))
    else:
        kind = 'plain'
        ex = extensions(d, lay, cfg) if d.bool(.3) else []; kw = dict(cfgkw=dict(exts=ex)) if ex else {}
        gap = d.bool(.2); el = igf.equip(d, S.partition(d, lay)) if gap else None; kind = 'gaps' if gap else kind
        s = S.rand_stream(d, nframes=nframes, layouts=[lay], fsidx=fsidx, elems=el, **kw, feat={**S.FULL, "p_mct": .15, **(feat or {}), **({"p_mct": 0} if gap else {})})
    s.kind = kind; d.label('stream ' + kind)
    return s
