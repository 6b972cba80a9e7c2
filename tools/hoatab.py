"""Writes vt/hoa.npz: grid directions (tables of the standard, from the decoder's ROM) and the rendering matrices, measured by sending every coefficient alone.
tools/hoacheck.py holds the matrices against what rendering has to do."""
import sys, os, re, random; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import numpy as np
from vt import streams as S, fw, hoa, build as B, cicp
from vt.core import *
src = open(B.REPO + '/decoder/impeghd_hoa_rom.c', encoding='latin1').read(); T = {}
def tab(name):
    m = re.search(name + r'\[[^=]*=\s*\{(.*?)\};', src, re.S).group(1); return np.array([float(v) for v in re.findall(r'-?\d+\.\d*', m)])
hoa.TAB = T
ctx = fw.Ctx({'plain': B.build('plain')})
for M in range(1, 4): T['az%d' % M] = tab('ia_hoa_azimuths_%d' % M); T['inc%d' % M] = np.arctan2(tab('ia_hoa_sin_inclinations_%d' % M), tab('ia_hoa_cos_inclinations_%d' % M))
for lay in [l for l in S.LAYOUTS if l in cicp.LAYOUT]:
    for N in range(1, 7):
        K = (N + 1) ** 2; R = np.zeros((len(cicp.LAYOUT[lay]), K)); at = 0; bad = None
        while at < K:
            n = min(15, K - 1, max(1, K - at)); use = list(range(max(1, at), min(K, max(1, at) + 15))); d = fw.Draw(rnd=random.Random(7)); h = hoa.Hoa(d, N, 0, 1 + len(use))
            h.kind = [2] * len(use); h.coef = list(use); h.vlen = 0; el = [Elem(SCE, nf=0) for _ in range(h.nt)] + [Elem(EXT, ext_type=7, ext_cfg=h.config(), def_len=None)]
            def ext(g): g.ext_payload[h.nt] = h.frame()
            s = S.rand_stream(d, layouts=[lay], elems=el, nframes=6, fsidx=3, ext=ext, cfgkw=dict(groups=[(3, h.nt)]), feat=dict(p_tns=0, p_fdp=0, p_ltpf=0, ehi=10.)); s.nch = len(cicp.LAYOUT[lay])
            r = ctx.run(Session().create(pcm=32).bind(s.bytes()).steps().delete()) if 0 else ctx.run(fw.Session().create(pcm=32).bind(s.bytes()).steps().delete()); er = S.errors(r)
            if er: bad = er[0]; break
            o = S.pcm(r, s.nch); y = h.coefficients(s.model)[:, :o.shape[1]]; ids = [0] + use
            X = np.linalg.lstsq(y[ids].T, o.T, rcond=None)[0]; e = np.abs(y[ids].T @ X - o.T).max(); R[:, ids] = X.T; at = use[-1] + 1
            if e > 1e-3: print('residual', lay, N, e)
        if bad: print(lay, N, 'error', hex(bad)); continue
        T['R%d_%d' % (lay, N)] = R.astype(np.float32)
    print(lay, flush=True)
np.savez_compressed(os.path.join(V, 'vt', 'hoa.npz'), **T)
