import argparse, importlib, os, sys
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1'); os.environ.setdefault('OMP_NUM_THREADS', '1')
from . import fw
ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('-n', type=int); ap.add_argument('-j', type=int)
a = ap.parse_args()
sys.exit(fw.main(importlib.import_module('vt.checks.' + a.id.lower()), a.tier, a.seed, a.replay, a.n, a.j))
