"""Binaural room impulse responses (ISO/IEC 23008-3, 13): random sets in their bit-stream form, and what rendering with them gives."""
import numpy as np
from .core import BW, FS
from .cicp import LAYOUT, SPK

def f32(*a): return b''.join(np.asarray(x, np.float32).astype('>f4').tobytes() for x in a)

class Set:
    """direct[ear][k]: taps of the k-th loudspeaker of the set; fc: share of the spectrum used; late: blocks[b][ear], wl[k]: weight of the loudspeaker in the late part"""

def write(sets):
    """sets: (sampling rate index or None, layout index or list of loudspeakers or order of a sound field, Set) per representation"""
    w = BW(); n = getattr(sets[0][2], 'name', b'')
    w.u(0x46495242, 32).u(1, 8).u(len(n), 8)
    for b in n: w.u(b, 8)
    w.u(0, 1).u(len(sets), 4); raw = b''
    for fsidx, lay, s in sets:
        if fsidx is None: w.u(31, 5).u(s.fs, 24)
        else: w.u(fsidx, 5)
        K = len(s.direct[0]); L = len(s.direct[0][0])
        if isinstance(lay, tuple): w.u(1, 1).esc(lay[0], 3, 5, 0)
        elif isinstance(lay, int): w.u(0, 1).u(0, 2).u(lay, 6).esc(K - 1, 5, 8, 0)
        else:
            w.u(0, 1).u(1, 2).esc(len(lay) - 1, 5, 8, 16)
            for k in lay: w.u(k, 7)
        w.u(s.fmt, 2).align()
        if s.fmt == 0:
            w.u(L, 24); q = [np.stack([s.direct[0][k], s.direct[1][k]], 1) for k in range(K)]
            q = f32(*q) + (b'\0\0\0\0' + f32(s.cut) if s.cut is not None else (20000).to_bytes(4, 'big'))
        else:
            w.u(s.delay, 16).u(L, 16).u(len(s.late), 8)
            q = f32(np.stack([s.fc[0], s.fc[1]], 1), s.fl, s.wl, *[np.stack([s.direct[0][k], s.direct[1][k]], 1) for k in range(K)], *[np.stack([b[0], b[1]], 1) for b in s.late])
        raw += w.bytes() + q; w = BW()
    return raw

def render(x, cmap, s):
    """x: channels; cmap: loudspeaker of the set for every channel -> two ears, whole blocks"""
    L = len(s.direct[0][0]); B = 2
    while B < L: B *= 2
    n = -(-x.shape[1] // B); X = np.zeros((len(s.direct[0]), n * B)); X[cmap, :x.shape[1]] = x
    cutf = lambda h, fc: np.fft.rfft(h, 2 * B) * ((np.arange(B + 1) < max(1, int(np.float32(min(1., fc)) * np.float32(B)))) | (np.arange(B + 1) == B))
    H = [[cutf(s.direct[e][k], s.fc[e][k]) for k in range(len(X))] for e in (0, 1)]
    D = [[cutf(b[e], s.fl[i][e]) for e in (0, 1)] for i, b in enumerate(s.late)]
    out = np.zeros((2, (n + 1) * B)); S = []
    for t in range(n):
        F = np.fft.rfft(X[:, t * B:(t + 1) * B], 2 * B); S.append((F * np.asarray(s.wl)[:, None]).sum(0))
        for e in (0, 1):
            y = sum(F[k] * H[e][k] for k in range(len(X)))
            for i in range(len(D)):
                j = t - i - 1
                if j >= 0: y = y + S[j] * D[i][e]
            out[e, t * B:(t + 2) * B] += np.fft.irfft(y, 2 * B)
    return out[:, :n * B]


def design(taps):
    """filters given as plain impulse responses (2, K, n): the set a renderer works with, or None where a decision is a close call"""
    taps = np.asarray(taps, np.float32).astype(float); n = taps.shape[2]; K = taps.shape[1]; s = Set(); s.late = []; s.fl = []; s.wl = np.zeros(K); s.fc = np.ones((2, K))
    L = 1
    if n <= 1024:
        while L < n: L *= 2
        s.direct = np.zeros((2, K, L)); s.direct[:, :, :n] = taps
        return s
    e = taps ** 2; tot = e.sum(2); zero = int((tot == 0).sum()) // 2; close = []
    def near(a, t):  # a monotone curve against a threshold: where it is crossed, noting close calls
        i = int(np.argmax(a >= t)) if (a >= t).any() else len(a); close.append(min([abs(a[j] / t - 1) for j in (i - 1, i) if 0 <= j < len(a)] + [1])); return i
    begin = min([near(np.cumsum(e[r, k]) / tot.max(), 1e-5) for r in (0, 1) for k in range(K)] + [n - 1])
    def back(a, db):
        if a.sum() <= 0: return 0
        return len(a) - 1 - near(np.cumsum(a[::-1]), 10 ** (db / 10) * a.sum())
    last = lambda db: max(begin + back(e[r, k, begin:], db) if e[r, k, begin:].sum() > 0 else 0 for r in (0, 1) for k in range(K))
    ld = last(-15) - begin
    while L < ld: L *= 2
    L = min(L, 8192)
    if L < 1024: return 'short'
    pad = np.concatenate([taps, np.zeros((2, K, 4 * L))], 2)
    def top(h):
        m = abs(np.fft.rfft(h)) ** 2; return back(m, -20)
    six = lambda i: np.ceil(np.float32(i / (L // 2)) * np.float32(6)) / 6
    s.fc = np.array([[six(top(pad[r, k, begin:begin + L])) for k in range(K)] for r in (0, 1)])
    nb = 0
    if L < n:
        m = last(-19) - (begin + L - 1)
        while nb * L < m: nb += 1
        nb = min(nb, 2)
    s.direct = pad[:, :, begin:begin + L].copy()
    if L >= n: s.direct = s.direct[:, :, :L]
    if nb:
        fl = [[max(top(pad[r, k, begin + (b + 1) * L:begin + (b + 2) * L]) for k in range(K)) for r in (0, 1)] for b in range(nb)]
        s.fl = [[six(v) or 1 / 6 for v in f] for f in fl]
        d = pad[:, :, begin + L:begin + L + nb * L].copy(); d[:, :, -512:] *= ((np.cos(np.pi * (1 - (np.arange(512) + 1) / 512)) + 1) / 2)[::-1]
        en = (d ** 2).sum(2); g = np.where(en[:, :, None] > 0, d / np.sqrt(np.where(en > 0, en, 1))[:, :, None], 0).sum(1) / (K - zero)
        eg = (g ** 2).sum(1); w = np.sqrt(eg[:, None] / np.where(en > 0, en, 1)); s.wl = np.where((en > 0).all(0), 2 / np.where((en > 0).all(0), w.sum(0), 1), 0)
        g *= 0.501187233627272; s.late = [[g[r, b * L:(b + 1) * L] for r in (0, 1)] for b in range(nb)]
    s.close = min(close)
    return s
