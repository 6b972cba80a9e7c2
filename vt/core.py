"""Bit-stream construction for MPEG-H 3D Audio LC (ISO/IEC 23008-3) - independent of /repo: MHAS packets, mpegh3daConfig,
frequency-domain core elements."""
import ctypes as C, os, subprocess, hashlib, fcntl
import numpy as np
from . import build as B
T = {k: v for k, v in np.load(os.path.join(os.path.dirname(__file__), 'tables.npz')).items()}

class BW:
    """MSB-first bit writer"""
    __slots__ = ('p', 'n')
    def __init__(self): self.p = []; self.n = 0
    def u(self, v, n):
        if n:
            self.p.append(format(int(v) & ((1 << n) - 1), '0%db' % n)); self.n += n
        return self
    def s(self, bits): self.p.append(bits); self.n += len(bits); return self
    def esc(self, v, a, b, c):
        m = (1 << a) - 1
        if v < m: return self.u(v, a)
        self.u(m, a); v -= m; m = (1 << b) - 1
        if v < m or not c and v <= m: return self.u(v, b)
        self.u(m, b); return self.u(v - m, c)
    def str(self): return ''.join(self.p)
    def align(self):
        if self.n % 8: self.u(0, 8 - self.n % 8)
        return self
    def bytes(self):
        s = self.str(); s += '0' * (-len(s) % 8)
        return int(s, 2).to_bytes(len(s) // 8, 'big') if s else b''

# ---------------------------------------------------------------- MHAS
PT_FILL, PT_CONFIG, PT_FRAME, PT_ASI, PT_SYNC = 0, 1, 2, 3, 6
def mhas(ptype, payload, label=1):
    w = BW(); w.esc(ptype, 3, 8, 8); w.esc(label, 2, 8, 32); w.esc(len(payload), 11, 24, 24); w.align()
    return w.bytes() + payload
SYNC = mhas(PT_SYNC, b'\xa5', 0)

# ---------------------------------------------------------------- config
FS = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]
SFBL = ['96', '96', '64', '48', '48', '32', '24', '24', '16', '16', '16', '8', '8']
SFBS = ['96', '96', '64', '48', '48', '48', '24', '24', '16', '16', '16', '8', '8']
PROFILE = {1: 0x0B, 2: 0x0C, 3: 0x0D, 4: 0x0E, 5: 0x0F}
SCE, CPE, LFE, EXT = 0, 1, 2, 3
CICP_CH = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 8, 8: 2, 9: 3, 10: 4, 11: 7, 12: 8, 13: 24, 14: 8, 15: 12, 16: 10, 17: 12, 18: 14, 19: 12, 20: 14}
CICP_LFE = {1: [], 2: [], 3: [], 4: [], 5: [], 6: [3], 7: [3], 8: [], 9: [], 10: [], 11: [3], 12: [3], 14: [3], 15: [3, 6], 16: [3], 17: [3], 18: [3], 19: [3], 20: [3], 13: [3, 9]}

class Elem:
    """core coder element.  kind; nf: noise filling; igf: None or dict; mct etc. set on EXT elements (ext type, cfg bytes)"""
    def __init__(self, kind, nf=0, igf=None, len_present=False, **k):
        self.kind, self.nf, self.igf, self.shift1, self.lpd_stereo, self.qce = kind, nf, igf, 0, 0, 0
        self.fullband_lpd = 0; self.igf_indep_tiling = 1
        self.ext_type, self.ext_cfg, self.def_len, self.frag = 0, b'', None, 0
        self.__dict__.update(k)
    def write(self, w, nsig):
        w.u(self.kind, 2)
        if self.kind in (SCE, CPE):
            w.u(0, 1).u(self.fullband_lpd, 1).u(self.nf, 1).u(1 if self.igf else 0, 1)
            if self.igf:
                g = self.igf; w.u(g['enf'], 1).u(g['highres'], 1).u(g['whitening'], 1).u(g['after_tns'], 1).u(g['start'], 5).u(g['stop'], 4)
        if self.kind == CPE:
            if self.igf: w.u(self.igf_indep_tiling, 1)
            w.u(self.qce, 2)
            w.u(1 if self.shift1 else 0, 1)
            if self.shift1: w.u(self.shift1, nbits_for(nsig))
            w.u(self.lpd_stereo, 1) if not self.qce else None
        if self.kind == EXT:
            w.esc(self.ext_type, 4, 8, 16).esc(len(self.ext_cfg), 4, 8, 16)
            w.u(0 if self.def_len is None else 1, 1)
            if self.def_len is not None: w.esc(self.def_len - 1, 8, 16, 0)
            w.u(self.frag, 1)
            for b in self.ext_cfg: w.u(b, 8)

def nbits_for(nsig):
    b = 0
    while (1 << b) < nsig: b += 1
    return b

def spk_cfg(w, spk):
    """spk: int -> CICP layout index; list of ints -> list of CICP speaker indices"""
    if isinstance(spk, int): w.u(0, 2).u(spk, 6)
    else:
        w.u(1, 2).esc(len(spk) - 1, 5, 8, 16)
        for s in spk: w.u(s, 7)

class Config:
    def __init__(self, fsidx=4, layout=1, groups=None, elems=None, exts=(), level=3, profile=None, elem_len=0, recv_delay=1):
        self.fsidx, self.layout, self.exts, self.elem_len, self.recv_delay = fsidx, layout, list(exts), elem_len, recv_delay
        self.profile = PROFILE[level] if profile is None else profile
        # groups: list of (type, nsig[, speaker layout or None / saoc])
        nch = CICP_CH[layout] if isinstance(layout, int) else len(layout)
        self.groups = groups if groups is not None else [(0, nch, None)]
        self.elems = elems
    @property
    def nsig(self): return sum(g[1] for g in self.groups)
    def write(self):
        w = BW(); w.u(self.profile, 8)
        if isinstance(self.fsidx, int) and self.fsidx < 32: w.u(self.fsidx, 5)
        w.u(1, 3).u(0, 1).u(self.recv_delay, 1)
        spk_cfg(w, self.layout)
        w.u(len(self.groups) - 1, 5)
        for g in self.groups:
            w.u(g[0], 3).esc(g[1] - 1, 5, 8, 16)
            if g[0] == 0:
                alt = g[2] if len(g) > 2 else None
                w.u(0 if alt is None else 1, 1)
                if alt is not None: spk_cfg(w, alt)
            elif g[0] == 2: w.u(0, 1)
        w.esc(len(self.elems) - 1, 4, 8, 16).u(self.elem_len, 1)
        for e in self.elems: e.write(w, self.nsig)
        w.u(1 if self.exts else 0, 1)
        if self.exts:
            w.esc(len(self.exts) - 1, 2, 4, 8)
            for t, b in self.exts:
                w.esc(t, 4, 8, 16).esc(len(b), 4, 8, 16)
                for x in b: w.u(x, 8)
        return w.bytes()

# ---------------------------------------------------------------- arithmetic encoder
_lib = None
def lib():
    global _lib
    if _lib is None:
        src = os.path.join(B.VERIF, 'drv', 'enc.c'); h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
        so = os.path.join(B.OUT, 'enc-%s.so' % h)
        os.makedirs(B.OUT, exist_ok=True)
        lock = open(os.path.join(B.OUT, 'enclock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(so):
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', src, '-o', so + '.tmp'], check=True); os.rename(so + '.tmp', so)
        lock.close()
        L = C.CDLL(so); ks = [np.ascontiguousarray(T[k]) for k in ('ari_hash_m', 'ari_hash_m_1', 'ari_lookup_m', 'ari_cf_m', 'ari_cf_r', 'esc_nb')]
        L._keep = ks; P = lambda a: a.ctypes.data_as(C.c_void_p)
        L.ae_tables(P(ks[0]), len(ks[0]), P(ks[1]), P(ks[2]), P(ks[3]), P(ks[4]), P(ks[5]))
        _lib = L
    return _lib

class AriState:
    def __init__(self):
        self.c = np.zeros(520, np.int8); self.p = np.zeros(520, np.int8); self.n = 1024
    def map(self, pres, reset):
        if reset: self.c[:516] = 0; self.p[:516] = 0
        elif pres != self.n:
            c, p = self.c.copy(), self.p.copy(); r = self.n / pres
            k = (np.arange(pres // 2) * r).astype(int)
            self.c[2:2 + pres // 2] = c[2 + k]; self.p[2:2 + pres // 2] = p[2 + k]
            self.c[pres // 2 + 3] = c[self.n // 2 + 3]; self.p[pres // 2 + 2] = p[self.n // 2 + 2]
        self.n = pres
    def encode(self, q, nt, pres_nt, stop=True):
        q = np.ascontiguousarray(q, np.int32); out = np.empty(64 * 2 * nt + 64, np.uint8)
        n = lib().ae_encode(q.ctypes.data_as(C.c_void_p), nt, pres_nt, C.c_void_p(self.p.ctypes.data + 2), C.c_void_p(self.c.ctypes.data + 2),
                            1 if stop else 0, out.ctypes.data_as(C.c_void_p))
        return (out[:n] + 48).tobytes().decode()

_hc = {int(i): format(int(c), '0%db' % l) for i, l, c in T['scf_huff']}
def scf_code(v): return _hc[v + 60]
