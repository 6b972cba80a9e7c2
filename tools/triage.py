"""tools/triage.py CHECK SEED N: run N cases, group the failures (development aid)."""
import os; os.environ["OPENBLAS_NUM_THREADS"]="1"; os.environ["OMP_NUM_THREADS"]="1"
import sys, importlib, os, re, random, multiprocessing as mp, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import fw, build
M = importlib.import_module('vt.checks.' + sys.argv[1].lower()); seed = int(sys.argv[2]); N = int(sys.argv[3])
exes = {v: build.build(v) for v in getattr(M, 'VARIANTS', ['plain'])}
if hasattr(M, 'setup'): M.setup(exes)
def work(w):
    out = []; c = fw.Ctx(exes)
    for i in range(w, N, 8):
        d = fw.Draw(rnd=random.Random(fw.case_seed(M.ID, seed, i))); v, info = fw.run_case(M, c, d, i)
        out.append((i, str(v) if v else None, (info or {}).get('nontrivial'), d.labels))
    c.close(); return out
with mp.Pool(8) as p: R = sum(p.map(work, range(8)), [])
g = collections.defaultdict(list); lab = collections.Counter()
for i, v, nt, l in R:
    lab.update(l)
    if v:
        m = re.findall(r'([\w.]+\.c:\d+(?::\d+)?): runtime error: ([^|]*)', v) or re.findall(r'(AddressSanitizer: [\w-]+).*?#0 \S+ in (\w+ \S+)', v)
        k = str(m[0]) if m else re.sub(r'\d+', 'N', v[:150]) if 'AddressSan' not in v else v[:300]
        g[k].append(i)
for k, v in sorted(g.items(), key=lambda x: -len(x[1])): print(len(v), min(v), k[:330])
print(len(R), 'cases', sum(bool(x[2]) for x in R), 'nontrivial', dict(lab))
