"""Reference model of the peak limiter (look-ahead gain computer with attack/release smoothing)."""
import numpy as np
from scipy.ndimage import maximum_filter1d
THR = float(np.float32(0.89125094)) * 32768
def limit(x, fs=48000):
    """x [ch][n] -> delayed and limited signal of the same length, gains"""
    n = x.shape[1]; A = 5 * fs // 1000; R = 50 * fs // 1000
    m = np.abs(x).max(0)
    pm = np.concatenate([np.zeros(A), m]); mx = np.array([0.0])
    # maximum over the last A+1 samples
    mx = maximum_filter1d(pm, A + 1, origin=A // 2, mode='constant')[A:] if (A + 1) % 2 else None
    ac, rc = 0.1 ** (1 / (A + 1)), 0.1 ** (1 / (R + 1))
    g = np.minimum(1.0, THR / np.maximum(mx, 1e-9)).tolist()
    out = np.ones(n)
    if min(g) < 1.0:
        gm = pre = 1.0; o = []
        for v in g:
            gm = min(gm, (v - 0.1 * pre) * 1.11111111) if v < pre else v
            if gm >= pre: pre = gm + rc * (pre - gm)
            else: pre = max(gm + ac * (pre - gm), v)
            o.append(pre)
        out = np.array(o)
    d = np.concatenate([np.zeros((x.shape[0], A)), x], 1)[:, :n]
    return np.clip(d * out, -THR, THR), out
