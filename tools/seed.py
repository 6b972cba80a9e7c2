"""Plants a bug.  python3-vt tools/seed.py ID PROPERTY SPEC.py
SPEC.py defines: EDITS=[(file under decoder/, old, new)], NEEDS, BREAKS, and optionally sessions(d)->(Session, wd, tol)
(default: random streams).  Writes seeded/ID with a recorded session on which the changed decoder differs."""
import sys, os, subprocess, shutil, random, json, struct, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vt import fw, build as B, streams as S
import numpy as np
ID, PROP, SPEC = sys.argv[1:4]
sp = importlib.util.spec_from_file_location('spec', SPEC); m = importlib.util.module_from_spec(sp); m.FEAT = {}; sp.loader.exec_module(m)
W = '/tmp/seed_%s' % ID
shutil.rmtree(W, ignore_errors=True); subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
for f, a, b in m.EDITS:
    p = os.path.join(W, 'decoder', f); s = open(p, encoding='latin1', newline='').read()
    if '\r\n' in s: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
    assert s.count(a) == 1, (f, a, s.count(a)); open(p, 'w', encoding='latin1', newline='').write(s.replace(a, b))
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True).stdout
def default(d):
    s = S.rand_stream(d, nframes=d.int(1, 4), layouts=getattr(m, 'LAYOUTS', [1, 2, 3]), feat=dict(S.FULL, **m.FEAT), fsidx=getattr(m, 'FSIDX', None))
    return fw.Session().create(pcm=32, **getattr(m, 'CFG', {})).bind(s.bytes()).steps().delete(), 32, 65536 * (1e-4 * s.peak + 0.05)
ses = getattr(m, 'sessions', default)
base = B.build('plain'); shutil.copy(base, '/tmp/seed_base'); base = '/tmp/seed_base'; B.REPO = W; bad = B.build('plain')
A, Z = fw.Driver(base), fw.Driver(bad); best = None; seen = 0; N = getattr(m, 'TRIES', 300)
from importlib import import_module
for i in range(N):
    d = fw.Draw(rnd=random.Random(i * 7919 + 13)); s, wd, tol = ses(d)
    a = A.raw(s.b); died = False
    try: z = Z.raw(s.b)
    except fw.DriverDied: died = True; z = b''
    open('/tmp/seed_a', 'wb').write(b'....' + a); open('/tmp/seed_z', 'wb').write(b'....' + z)
    r = 1 if died else subprocess.run(['python3', V + '/tools/seedkit/cmp.py', '/tmp/seed_a', '/tmp/seed_z', str(wd), str(tol)], capture_output=True).returncode
    if r:
        seen += 1; n = len(s.b) + len(a)
        if best is None or n < best[0]: best = (n, s, a, wd, tol, died)
    if seen >= 5 and i > 40: break
print('%d of %d sessions differ' % (seen, i + 1))
A.stop(); Z.stop(); shutil.rmtree(W, ignore_errors=True)
if best is None: sys.exit('no difference seen')
o = os.path.join(V, 'seeded', ID); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
open(o + '/patch.diff', 'wb').write(diff)
n, s, a, wd, tol, died = best
open(o + '/req.bin', 'wb').write(struct.pack('<I', len(s.b)) + s.b); open(o + '/exp.bin', 'wb').write(struct.pack('<I', len(a)) + a)
shutil.copy(V + '/drv/driver.c', o); shutil.copy(V + '/tools/seedkit/cmp.py', o)
open(o + '/demo.sh', 'w').write(open(V + '/tools/seedkit/demo.sh').read().replace('WD TOL', '%d %g' % (wd, tol))); os.chmod(o + '/demo.sh', 0o755)
json.dump(dict(property=PROP, needs=m.NEEDS, what_it_breaks=m.BREAKS), open(o + '/meta.json', 'w'), indent=1)
print('wrote', o, n, 'bytes, died' if died else 'bytes')
