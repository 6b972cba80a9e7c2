"""Property-based testing core: choice-tape generation, shrinking, worker pool, evidence.

A case is a pure function of a *choice tape* (a list of small non-negative integers).  While
generating, the tape is produced by a PRNG seeded from (VERIF_SEED, property, case index); while
shrinking or replaying it is read back.  An exhausted tape yields 0, the simplest choice."""
import hashlib, importlib, json, multiprocessing as mp, os, random, signal, struct, subprocess, sys, time, traceback
import numpy as np
from . import build as B

VERIF = B.VERIF

class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg); self.key = key
class DriverDied(Exception): pass
class Discard(Exception): pass

class Draw:
    def __init__(self, rnd=None, tape=None):
        self.rnd, self.src, self.tape = rnd, tape, []
        self.labels = {}
    def raw(self, n):
        """uniform integer in [0,n)"""
        if n <= 1: return 0
        if self.src is not None:
            i = len(self.tape); v = self.src[i] % n if i < len(self.src) else 0
        else: v = self.rnd.randrange(n)
        self.tape.append(v); return v
    def int(self, lo, hi): return lo + self.raw(hi - lo + 1)
    def bool(self, p=0.5):
        # 0 is 'False' so that shrinking switches features off
        if p <= 0: return False
        return self.raw(1000) >= 1000 - int(round(p * 1000))
    def choice(self, seq): return seq[self.raw(len(seq))]
    def weighted(self, pairs):
        tot = sum(w for _, w in pairs); v = self.raw(tot)
        for x, w in pairs:
            if v < w: return x
            v -= w
    def bits(self, n): return self.raw(1 << n)
    def bytes(self, n):
        r = self.rng(); return r.integers(0, 256, n, dtype=np.uint8).tobytes()
    def rng(self):
        """bulk random data: a numpy generator whose seed is one choice"""
        return np.random.Generator(np.random.PCG64(self.raw(1 << 30)))
    def label(self, *names):
        for n in names: self.labels[n] = self.labels.get(n, 0) + 1

# ---------------------------------------------------------------- driver client
CFGK = ['pcm', 'effect', 'lset', 'loud', 'mhas', 'raw', 'cicp', 'preset', 'extrend', 'binaural', 'resamp',
        'outfs', 'failat', 'fill', 'misalign', 'scribble']
CFGD = dict(pcm=16, effect=0, lset=0, loud=-24, mhas=1, raw=0, cicp=0, preset=-1, extrend=0, binaural=0, resamp=0,
            outfs=0, failat=-1, fill=-1, misalign=0, scribble=0)
STEPK = ['isinit', 'err', 'consumed', 'nout', 'init_done', 'chan', 'fs', 'wdsz', 'cicp', 'num_spk', 'given', 'preroll',
         'pcm_pl', 'ch_md', 'oam_md', 'hoa_md', 'loud_norm', 'target_loud', 'effect', 'pos']

class Rec:
    __slots__ = ('tag', 'id', 'f', 'data')
    def __init__(self, tag, id, f, data): self.tag, self.id, self.f, self.data = tag, id, f, data
    def __getattr__(self, k):
        try: return self.f[k]
        except KeyError: raise AttributeError(k)
    def __repr__(self): return '<%s%d %r +%d>' % (self.tag, self.id, self.f, len(self.data))

class Session:
    """accumulates ops, run() sends them to a driver and parses the records"""
    def __init__(self): self.b = bytearray()
    def create(self, id=0, blobs=None, **cfg):
        c = dict(CFGD); c.update(cfg)
        v = [c[k] for k in CFGK]
        self.b += b'C' + bytes([id]) + struct.pack('<I%di' % len(v), len(v), *v)
        bl = blobs or {}
        self.b += bytes([len(bl)])
        for t, x in sorted(bl.items()): self.b += bytes([t]) + struct.pack('<I', len(x)) + x
        return self
    def bind(self, data, id=0, policy=()):
        self.b += b'B' + bytes([id]) + struct.pack('<I%dI' % len(policy), len(policy), *policy) + struct.pack('<I', len(data)) + data; return self
    def steps(self, n=1 << 20, id=0): self.b += b'S' + bytes([id]) + struct.pack('<I', n); return self
    def early_exec(self, id=0): self.b += b'E' + bytes([id]); return self
    def delete(self, id=0): self.b += b'X' + bytes([id]); return self

class Driver:
    def __init__(self, exe, cpu=60):
        self.exe, self.cpu, self.p = exe, cpu, None
    def start(self):
        env = dict(os.environ); env['VT_CPU'] = str(self.cpu)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98'
        self.errf = open(os.path.join(B.OUT, 'stderr-%d' % os.getpid()), 'w+b')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env)
    def stop(self):
        if self.p:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
            self.p = None
            try: os.unlink(self.errf.name)
            except OSError: pass
            self.errf.close()
    def _read(self, n):
        out = b''
        while len(out) < n:
            k = self.p.stdout.read(n - len(out))
            if not k: raise EOFError
            out += k
        return out
    def raw(self, b):
        if self.p is None: self.start()
        try:
            self.p.stdin.write(struct.pack('<I', len(b)) + bytes(b)); self.p.stdin.flush()
            n = struct.unpack('<I', self._read(4))[0]
            return self._read(n)
        except (EOFError, BrokenPipeError):
            rc = self.p.wait(); self.errf.flush(); self.errf.seek(0); err = self.errf.read().decode('latin1')
            self.stop()
            why = 'signal %s' % signal.Signals(-rc).name if rc < 0 else 'exit %d' % rc
            if rc == -signal.SIGVTALRM: why = 'no answer within %d s of CPU time' % self.cpu
            lines = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or ' #0 ' in l or ' #1 ' in l or ' #2 ' in l][:6]
            raise DriverDied('decoder process died (%s) %s' % (why, ' | '.join(lines)))
    def run(self, s):
        r = self.raw(s.b); out = []; p = 0
        while p < len(r):
            tag = chr(r[p]); id = r[p + 1]; l = struct.unpack_from('<I', r, p + 2)[0]; x = r[p + 6:p + 6 + l]; p += 6 + l
            if tag == 's': out.append(Rec(tag, id, dict(zip(STEPK, struct.unpack_from('<20i', x))), x[80:]))
            elif tag == 'c':
                v = struct.unpack_from('<4i', x); out.append(Rec(tag, id, dict(err=v[0], malloc_count=v[1], inpbuf=v[2], bad=v[3]), x[16:]))
            elif tag == 'd':
                v = struct.unpack_from('<4i', x); out.append(Rec(tag, id, dict(err=v[0], left=v[1], badfree=v[2], diff=v[3]), b''))
            elif tag == 'g':
                v = struct.unpack_from('<81i', x)
                out.append(Rec(tag, id, dict(num_spk=v[0], layout=v[1], cicp=v[2], binaural=v[3], oam=v[4], hoa=v[5], ch=v[6], oam_off=v[7], hoa_off=v[8],
                                             spk=[v[9 + 3 * i:12 + 3 * i] for i in range(24)]), x))
            elif tag == 'x':
                v = struct.unpack_from('<4i', x); q = 16; parts = []
                for n in v: parts.append(x[q:q + n]); q += n
                out.append(Rec(tag, id, dict(parts=parts), x))
        return out

class Ctx:
    """per worker: lazily started drivers"""
    def __init__(self, exes): self.exes, self.drv = exes, {}
    def run(self, s, variant='plain'):
        d = self.drv.get(variant)
        if d is None: d = self.drv[variant] = Driver(self.exes[variant])
        try: return d.run(s)
        except DriverDied as e: raise Violation(str(e), key='died')
    def close(self):
        for d in self.drv.values(): d.stop()

def pcm_int(b, wd):
    if wd == 16: return np.frombuffer(b, '<i2').astype(np.int64)
    if wd == 32: return np.frombuffer(b, '<i4').astype(np.int64)
    a = np.frombuffer(b[:len(b) // 3 * 3], np.uint8).reshape(-1, 3).astype(np.int64)
    v = a[:, 0] | (a[:, 1] << 8) | (a[:, 2] << 16)
    return np.where(v >= 1 << 23, v - (1 << 24), v)

# ---------------------------------------------------------------- engine
def case_seed(prop, seed, idx):
    return int.from_bytes(hashlib.sha256(('%s/%d/%d' % (prop, seed, idx)).encode()).digest()[:8], 'big')

def run_case(mod, ctx, d, idx):
    """-> (None|Violation, info)"""
    try:
        info = mod.case(d, ctx, idx)
        return None, info
    except Discard: return None, None
    except Violation as v: return v, None
    except Exception as e:
        # cases are deterministic and none of them raises on a tree where the property holds: an exception
        # here means that the decoder's answer could not even be interpreted (wrong sizes, missing records)
        return Violation('the answer of the decoder could not be interpreted: %s: %s' % (type(e).__name__, traceback.format_exc()[-1500:]), key='exception'), None

def _worker(modname, exes, seed, idxs, q, stop):
    os.environ['OMP_NUM_THREADS'] = '1'
    mod = importlib.import_module(modname); ctx = Ctx(exes)
    known = load_known(mod.ID)
    try:
        for i in idxs:
            if stop.is_set(): break
            d = Draw(rnd=random.Random(case_seed(mod.ID, seed, i)))
            v, info = run_case(mod, ctx, d, i)
            if v is None: q.put(('ok', i, info, d.labels))
            else:
                k = match_known(known, v)
                if k: q.put(('known', i, k, str(v)))
                else: q.put(('fail', i, d.tape, str(v)))
    finally:
        ctx.close(); q.put(('done', None, None, None))

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json'); out = []
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == prop and e.get('status') == 'known': out.append(e)
    return out
def match_known(known, v):
    for e in known:
        if v.key is not None and v.key == e.get('key'): return e
    return None

def shrink(mod, ctx, tape, idx, budget_cases=400, budget_s=60):
    """greedy tape shrinking: delete blocks, zero, halve/decrement; the message may change"""
    best = list(tape); t0 = time.time(); tries = 0; known = load_known(mod.ID)
    def fails(t):
        nonlocal tries
        tries += 1
        d = Draw(tape=t)
        v, _ = run_case(mod, ctx, d, idx)
        if v is not None and not match_known(known, v): return d.tape, str(v)
        return None
    msg = None; r = fails(best)
    if r: best, msg = r
    else: return tape, None
    improved = True
    def ok(): return tries < budget_cases and time.time() - t0 < budget_s
    while improved and ok():
        improved = False
        n = len(best); k = max(1, n // 2)
        while k >= 1 and ok():
            i = 0
            while i < len(best) and ok():
                c = best[:i] + best[i + k:]
                r = fails(c)
                if r and (len(r[0]), r[0]) < (len(best), best): best, msg = r; improved = True
                else:
                    if any(best[i:i + k]):
                        c = best[:i] + [0] * len(best[i:i + k]) + best[i + k:]
                        r = fails(c)
                        if r and (len(r[0]), r[0]) < (len(best), best): best, msg = r; improved = True
                    i += k
            k //= 2
        for i in range(len(best)):
            if not ok() or i >= len(best): break
            for nv in (best[i] // 2, best[i] - 1):
                if nv < 0 or nv == best[i]: continue
                c = best[:i] + [nv] + best[i + 1:]
                r = fails(c)
                if r and (len(r[0]), r[0]) < (len(best), best): best, msg = r; improved = True; break
    return best, msg

def main(mod, tier, seed, replay=None, ncases=None, jobs=None, exes=None):
    t0 = time.time(); prop = mod.ID
    if exes is None: exes = {v: B.build(v) for v in getattr(mod, 'VARIANTS', ['plain'])}
    if hasattr(mod, 'setup'): mod.setup(exes)
    if replay:
        r = json.load(open(replay)); ctx = Ctx(exes)
        d = Draw(tape=r['tape']); v, info = run_case(mod, ctx, d, r['index']); ctx.close()
        if v is None: print('replay: property %s holds on %s' % (prop, replay)); return 0
        print(str(v)); print('VIOLATION property=%s replay=%s' % (prop, replay)); return 1
    n = ncases or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    jobs = jobs or min(8, os.cpu_count() or 8)
    q = mp.Queue(); stop = mp.Event()
    ps = [mp.Process(target=_worker, args=(mod.__name__, exes, seed, range(w, n, jobs), q, stop), daemon=True) for w in range(jobs)]
    for p in ps: p.start()
    live = len(ps); evals = 0; discards = 0; nt = set(); samples = []; labels = {}; fails = []; knowns = {}; errors = []
    while live:
        k, i, a, b = q.get()
        if k == 'done': live -= 1; continue
        evals += 1
        if k == 'ok':
            for x, c in (b or {}).items(): labels[x] = labels.get(x, 0) + 1
            if a is None: discards += 1; continue
            if a.get('nontrivial'):
                key = a.get('key', i); nt.add(key)
                if len(samples) < 12 or (i % 97 == 0 and len(samples) < 24): samples.append((i, str(a.get('sample', ''))[:400]))
        elif k == 'fail': fails.append((i, a, b)); stop.set()
        elif k == 'known': knowns.setdefault(json.dumps(a, sort_keys=True), []).append((i, b))
        elif k == 'error': errors.append((i, a)); stop.set()
    for p in ps: p.join()
    rc = 0; nviol = 0
    if fails:
        fails.sort(key=lambda f: (f[0]))
        idx, tape, msg = fails[0]; ctx = Ctx(exes)
        best, m2 = shrink(mod, ctx, tape, idx, **getattr(mod, 'SHRINK', {}))
        if m2 is None: best, m2 = tape, msg
        cnt = 0
        for _ in range(3):
            v, _i = run_case(mod, ctx, Draw(tape=best), idx); cnt += v is not None
        ctx.close()
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%d-%d.json' % (prop, seed, idx))
        json.dump(dict(property=prop, seed=seed, index=idx, tape=best, original_tape=tape, message=m2, original_message=msg, reproduced='%d/3' % cnt), open(path, 'w'))
        print('case %d: %s' % (idx, msg)); print('shrunk (%d -> %d choices, reproduced %d/3): %s' % (len(tape), len(best), cnt, m2))
        print('re-run: python3-vt -m vt.check %s --replay %s' % (prop, path))
        print('VIOLATION property=%s replay=%s' % (prop, path)); rc = 1; nviol = 1
    elif errors:
        print('check error in case %d:\n%s' % errors[0]); rc = 2
    for e in load_known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    samples.sort()
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nt), rule=mod.RULE, samples=[s for _, s in samples][:24] or ['none'],
                            labels=dict(sorted(labels.items())), discarded=discards, planned=n))
    if nviol: ev['violations'] = nviol
    ev['assumptions'] = getattr(mod, 'ASSUME', [])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if rc == 0 and len(nt) < getattr(mod, 'MIN_NONTRIVIAL', 2):
        print('check error: only %d non-trivial cases' % len(nt)); rc = 2
    print('%s %s seed=%d: %d cases, %d non-trivial, %d discarded, %.1f s -> %s' % (prop, tier, seed, evals, len(nt), discards, time.time() - t0, {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[rc]))
    return rc
