"""Runs a check for tools/mutate.py: objects come from a cache, failures are not shrunk."""
import os; os.environ["OPENBLAS_NUM_THREADS"]="1"; os.environ["OMP_NUM_THREADS"]="1"
import sys, os, hashlib, glob, shutil, subprocess, types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vt import build as B, fw
import importlib
CACHE = '/tmp/mutcache'; os.makedirs(CACHE, exist_ok=True)
hh = hashlib.sha256(b''.join(open(f, 'rb').read() for f in sorted(glob.glob(B.REPO + '/**/*.h', recursive=True)))).hexdigest()
def run(args, **k):
    if '-c' in args:
        src, out = args[-3], args[-1]; src = [a for a in args if a.endswith('.c')][0]
        key = hashlib.sha256((hh + ' '.join(a for a in args if a[0] == '-' and not a.startswith('-I')) + os.path.basename(src)).encode() + open(src, 'rb').read()).hexdigest(); f = os.path.join(CACHE, key)
        if os.path.exists(f): shutil.copy(f, out); return subprocess.CompletedProcess(args, 0, '', '')
        r = subprocess.run(args, **k)
        if r.returncode == 0: shutil.copy(out, f + '.%d' % os.getpid()); os.rename(f + '.%d' % os.getpid(), f)
        return r
    return subprocess.run(args, **k)
B.subprocess = types.SimpleNamespace(run=run)
fw.shrink = lambda mod, ctx, tape, idx, **k: (tape, None)
m = importlib.import_module('vt.checks.' + sys.argv[1].lower())
sys.exit(fw.main(m, 'quick', 1, jobs=int(os.environ.get('MJ', '3'))))
