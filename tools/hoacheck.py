"""Holds the matrices of vt/hoa.npz against what rendering has to do: left-right symmetry, a plane wave comes from its direction, its loudness does not depend on it."""
import sys, os; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import numpy as np
from vt import hoa, cicp, streams as S
for lay in [l for l in S.LAYOUTS if l in cicp.LAYOUT]:
    out = [cicp.SPK[c] for c in cicp.LAYOUT[lay]]; az = np.radians([o[0] for o in out]); el = np.radians([o[1] for o in out]); sp = np.array([not o[2] for o in out]); U = np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)])
    pair = {i: j for i in range(len(out)) for j in range(len(out)) if out[j][1] == out[i][1] and (out[j][0] + out[i][0]) % 360 == 0 and out[i][2] == out[j][2]}
    for N in range(1, 7):
        R = hoa.matrix(lay, N); sg = np.array([-1 if m < 0 else 1 for n in range(N + 1) for m in range(-n, n + 1)]); sym = max([np.abs(R[i] - R[pair[i]] * sg).max() for i in pair] or [0])
        a = np.radians(np.arange(0, 360, 5)); Y = hoa.harmonics(N, a, np.full(len(a), np.pi / 2)); g = (R @ Y)[sp]; E = (g ** 2).sum(0); r = (U[:, sp] @ g ** 2) / E
        ang = np.degrees(np.abs(np.angle(np.exp(1j * (np.arctan2(r[1], r[0]) - a)))))
        print(lay, N, 'asymmetry %.4f' % sym, 'LFE %.4f' % np.abs(R[~sp]).max(initial=0), 'energy %.3f..%.3f' % (E.min(), E.max()), 'direction off by up to %.0f, median %.0f' % (ang.max(), np.median(ang)))
