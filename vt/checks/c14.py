"""Loudness normalisation: with a target loudness, the output is the decoded signal times target minus the programme loudness the stream states."""
import numpy as np
from ..fw import Violation
from .. import streams as S, drc as R
from ..core import *
ID = 'C14'; QUICK = 2000; THOROUGH = 40000; VARIANTS = ['plain', 'asan']
RULE = 'a case counts when the loudness information asks for a gain other than 0 dB and the decoded signal is not silent'
def bits(d): return [d.int(0, 1) for _ in range(d.int(1, 40))]
def exts(d): return [(d.int(1, 15), bits(d)) for _ in range(1)] if d.bool(0.15) else []
def one(d, sid, dm, mid, typ=0):
    i = dict(type=typ, set=sid, downmix=dm, meas=[])
    if typ: i['tid'] = d.int(0, 31)
    for _ in range(d.int(1, 4) if d.bool(0.9) else d.choice([0, 15])):
        m = d.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9]); v = {7: 31, 8: 3}.get(m, 255)
        i['meas'].append((m, min(v, max(0, mid + d.int(-12, 12))), d.int(0, 11), d.int(0, 3)))
    if d.bool(0.3): i['peak'] = d.int(1, 4095)
    if d.bool(0.3): i['tpeak'] = d.int(1, 4095)
    return i
def case(d, ctx, idx):
    lay = d.choice(S.LAYOUTS); el = S.partition(d, lay); fs = d.choice([3, 4, 4, 5, 6, 7, 8]); n = S.nch(el)
    pos = None
    if d.bool(0.95): pos = d.int(0, len(el)); el.insert(pos, Elem(EXT, ext_type=4, ext_cfg=R.config(n, [], [], exts=exts(d))))
    raw = 4 * d.int(10, 40) if d.bool(.9) else 4 * d.int(0, 63); mid = int((-raw / 4 + 57.75) * 4)
    prog = []
    for k in range(d.weighted([(1, 4), (2, 3), (3, 2), (4, 2), (0, 1)])):
        key = (d.choice([0, 0x3f, 0, 0, 0x3f, 5, 62]), d.choice([0, 0x7f, 0, 0, 0, 0x7f, 3]))
        if key not in [(i['set'], i['downmix']) for i in prog]: prog.append(one(d, *key, mid))
    crowd = d.bool(0.08)
    typed = [one(d, 0 if crowd else d.choice([0, 0x3f, 1]), 0 if crowd else d.choice([0, 0x7f]), d.int(0, 255), d.int(1, 3)) for _ in range(d.int(12, 30) if crowd else d.int(1, 8) if d.bool(0.3) else 0)]
    li = list(prog)
    for t in typed: li.insert(d.int(0, len(li)), t)
    alb = [one(d, d.choice([0, 0x3f]), d.choice([0, 0x7f]), d.int(0, 255)) for _ in range(d.int(0, 8))] if d.bool(0.25) else None
    cx = [(2, R.loudness(li, alb, exts(d)))]
    s = S.rand_stream(d, layouts=[lay], fsidx=fs, elems=el, cfgkw=dict(exts=cx), nframes=d.int(1, 4), feat=dict(S.FULL, ehi=12.0),
                      ext=(lambda g: g.ext_payload.__setitem__(pos, b'\0')) if pos is not None else None)
    on = d.bool(0.95); eff = d.int(0, 8)
    o = S.decode(ctx, s, variant='asan' if idx % 8 == 7 else 'plain', **(dict(lset=1, loud=raw) if on else {}), effect=eff)
    l = R.loud_of(li, 0); g = -raw / 4 - l if l is not None and on and pos is not None else 0.
    nt = abs(g) > .1 and np.abs(s.model).max() > 100
    s.model = s.model * 10 ** (g / 20); s.cpk = s.cpk * 10 ** (g / 20)
    what = 'target %s dB, loudness information %s, album %s: gain %.2f dB; output' % (-raw / 4 if on else None, [(i['type'], i['set'], i['downmix'], i['meas']) for i in li], alb and len(alb), g)
    S.compare(o, s, what=what)
    return dict(nontrivial=nt, key=idx, sample='%s %d Hz target %.2f gain %.2f dB, %d infos, album %s' % (lay, s.fs, -raw / 4, g, len(li), alb and len(alb)))
