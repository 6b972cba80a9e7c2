"""Reference model of the format converter (ISO/IEC 23008-3, 10.3): downmix rules, equalisers and the active downmix in the STFT domain."""
import math, os
import numpy as np
from . import cicp, vbap
_T = np.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.npz'))
RULES = {}
for _r in _T['fc_rules'].tolist(): RULES.setdefault(_r[0], []).append(_r[1:])
PAN, ALLU, ALLM, AUTO = 100, 101, 102, 103
# upper edges (in STFT bins) of the 58 ERB bands
ERB = list(range(1, 34)) + [36, 39, 43, 47, 51, 55, 60, 65, 70, 77, 84, 91, 98, 106, 115, 125, 136, 148, 160, 174, 189, 205, 222, 241, 256]
MID = {2, 0, 1, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 34, 35, 41, 42}      # loudspeakers of the middle layer
UP = {17, 18, 19, 20, 21, 22, 23, 24, 30, 31, 32, 33}                       # of the upper layer
PEAK = {1: [(12000, .3, -2., 1.)], 2: [(12000, .3, -3.5, 1.)], 3: [(200, .3, -6.5, .7), (1300, .5, 1.8, 0), (600, 1., 2., 0)],
        4: [(5000, 1., 4.5, -3.1), (1100, .8, 1.8, 0)], 5: [(35, .25, -1.3, 1.)]}
def band_centres(fs):
    """Centre frequencies of the bands: bins lo..hi of the band on the 512-point grid (as the standard tabulates: 257 points from 0 to fs/2)."""
    c = []; lo = 0
    for k, hi in enumerate(ERB):
        h = hi if k < 57 else 257
        c.append((lo + h - 1) / 2 * fs / 2 / 257); lo = hi
    return np.array(c)
def eq(idx, fs):
    """Gain of equaliser idx in each ERB band (second-order peak filters)."""
    f = band_centres(fs); g = np.ones(58)
    for fc, q, pk, gain in PEAK[idx]:
        v = 10 ** (abs(pk) / 20)
        a = f ** 4 + fc ** 4 + (1 / q ** 2 - 2) * f ** 2 * fc ** 2; b = f ** 4 + fc ** 4 + (v * v / q ** 2 - 2) * f ** 2 * fc ** 2
        g *= np.sqrt(a / b if pk < 0 else b / a) * 10 ** (gain / 20)
    return g
def rule(ch, out):
    """[(target index, gain, equaliser)] for source channel ch, or None when no rule fits."""
    if ch in out: return [(out.index(ch), 1., 0)]
    for o1, o2, gain, kind, a0, a1, e in RULES.get(ch, []):
        g = gain / 100
        if kind in (ALLU, ALLM):
            t = [i for i, c in enumerate(out) if c in (UP if kind == ALLU else MID)]
            if t: return [(i, g / math.sqrt(len(t)), e) for i in t]
            continue
        if o1 not in out or (o2 >= 0 and o2 not in out): continue
        i = out.index(o1)
        if o2 < 0: return [(i, g, e)]
        j = out.index(o2)
        if kind == AUTO:
            a, b, t = cicp.SPK[o1][0], cicp.SPK[o2][0], cicp.SPK[ch][0]
            a0 = abs(a - b) / 2; a1 = (a + b) / 2 - t
            if a > b: a1 = -a1
        a0, a1 = math.radians(a0), math.radians(a1)
        r = (math.tan(a0) + math.tan(a1) + 1e-10) / (math.tan(a0) - math.tan(a1) + 1e-10)
        n = math.hypot(r, 1)
        return [(i, g * r / n, e), (j, g / n, e)]
    return None
def panned(src, out, cidx):
    """When some source channel has no rule: every source loudspeaker is panned to the target (layout index cidx) by VBAP, gains up to 0.3 are
    dropped keeping the energy, LFEs go to the first LFE of the target when there is one."""
    m = np.zeros((257, len(src), len(out))); r = vbap.layout(cidx)
    lfe = [i for i, c in enumerate(out) if cicp.SPK[c][2]]
    for s, ch in enumerate(src):
        az, el, l = cicp.SPK[ch]
        if l and lfe: g = np.zeros(len(out)); g[lfe[0]] = 1
        else:
            g = vbap.full(cidx, r.gains(az, el))
            h = np.where(g > .3, g, 0)
            g = h * math.sqrt((g @ g) / (h @ h))
        m[:, s] = g
    return m
def matrix(src, out, fs):
    """Downmix matrix [bin 0..256][source][target], or None when a source has no rule (then the conversion is by VBAP)."""
    m = np.zeros((257, len(src), len(out)))
    for s, ch in enumerate(src):
        r = rule(ch, out)
        if r is None: return None
        for d, g, e in r:
            if e:
                q = eq(e, fs); lo = 0
                for b, hi in enumerate(ERB): m[lo:hi, s, d] = g * q[b]; lo = hi
                m[256, s, d] = g * q[57]
            else: m[:, s, d] = g
    return m
WIN = np.sin(np.pi * (np.arange(512) + .5) / 512)
BAND = np.zeros(257, int)
_lo = 0
for _b, _hi in enumerate(ERB): BAND[_lo:_hi] = _b; _lo = _hi
BAND[256] = 57
ALPHA = 0.0435; QMAX = 10 ** (8 / 20); QMIN = 10 ** (-10 / 20)
def convert(x, m):
    """x: [n][source] with n a multiple of 256; returns [n][target], delayed by 256 samples."""
    n, ns = x.shape; nd = m.shape[2]; slots = n // 256
    y = np.zeros((n + 256, nd)); xp = np.vstack([np.zeros((256, ns)), x])
    te = np.zeros((58, nd)); re = np.zeros((58, nd))
    oh = np.zeros((58, 257)); oh[BAND, np.arange(257)] = 1
    for k in range(slots):
        X = np.fft.rfft(xp[256 * k:256 * k + 512] * WIN[:, None], axis=0)
        P = m * X[:, :, None]
        Y = P.sum(1)
        t = oh @ (np.abs(P) ** 2).sum(1); r = oh @ (np.abs(Y) ** 2)
        te = ALPHA * t + (1 - ALPHA) * te; re = ALPHA * r + (1 - ALPHA) * re
        g = np.clip(np.sqrt(te / (re + 1e-35)), QMIN, QMAX)
        y[256 * k:256 * k + 512] += np.fft.irfft(Y * g[BAND], axis=0) * WIN[:, None]
    return y[:n]
if __name__ == '__main__':
    for s in sorted(cicp.LAYOUT):
        bad = [t for t in cicp.LAYOUT if matrix(cicp.LAYOUT[s], cicp.LAYOUT[t], 48000) is None]
        print(s, bad)
