"""tools/show.py REPLAY [bytes]: re-run a replay file and print every call of the decoder (development aid)."""
import sys, json, importlib, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import fw, build, streams as S
r = json.load(open(sys.argv[1])); M = importlib.import_module('vt.checks.' + r['property'].lower())
exes = {v: build.build(v) for v in getattr(M, 'VARIANTS', ['plain'])}
if hasattr(M, 'setup'): M.setup(exes)
orig = fw.Ctx.run
def run(self, s, *a, **k):
    o = orig(self, s, *a, **k)
    for x in o[:24]:
        print(x.tag, ' '.join('%s=%s' % (q, hex(v & 0xffffffff) if q == 'err' else v) for q, v in x.f.items() if q in ('err', 'consumed', 'nout', 'isinit', 'init_done', 'pos', 'given', 'chan', 'fs') )[:200])
    print('---'); return o
fw.Ctx.run = run
so = S.Stream.bytes
def sb(self, *a, **k):
    b = so(self, *a, **k); print('stream', len(b), 'config', self.cfg.hex()[:300], 'frames', [(len(f), f.hex()[:24]) for f in self.frames][:6]); return b
S.Stream.bytes = sb
c = fw.Ctx(exes); v, info = fw.run_case(M, c, fw.Draw(tape=r['tape'] if len(sys.argv) < 3 else r['original_tape']), r['index']); c.close()
print(str(v)[:600], str(info)[:300])
