"""Mutation testing of the checks: python3-vt tools/mutate.py OUT SEED COUNT CHECK[,CHECK] FILE[:REGEX of function] ...
Makes one random small change at a time in a clone of /repo and lists what no check notices."""
import sys, os, re, random, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, seed, count, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(',')
W = '/tmp/mut_%d_%d' % (seed, os.getpid())
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
def functions(src):
    """(name, first line, last line) of function bodies"""
    L = src.split('\n'); r = []; i = 0
    while i < len(L):
        if L[i] == '{':
            j = i
            while j < len(L) and L[j] != '}': j += 1
            k = i
            while k > 0 and L[k - 1].strip() and not L[k - 1].startswith(('*', ' *', '/*', '#')) and L[k - 1].strip() not in ('}', '*/'): k -= 1
            m = re.findall(r'(\w+)\s*\(', ' '.join(L[k:i])); r.append((m[0] if m else '?', i + 1, j)); i = j
        i += 1
    return r
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \* ', ' + '), (r'ia_add_flt\(', 'ia_sub_flt('), (r'ia_sub_flt\(', 'ia_add_flt('), (r' \+= ', ' -= '),
       (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r' = 0;', ' = 1;'), (r' = 1;', ' = 0;'), (r'\bi\b', '(i + 1)'), (r', 1\)', ', 0)'), (r'>> ', '>> 1 + '), (r'<< ', '<< 1 + ')]
def mutants(lines, rng):
    i = rng.choice(lines[0]); return i
targets = []
for a in sys.argv[5:]:
    f, _, rx = a.partition(':'); p = 'decoder/' + f; src = open(os.path.join(W, p), encoding='latin1', newline='').read().replace('\r\n', '\n')
    for n, x, y in functions(src):
        if rx and not re.search(rx, n): continue
        L = src.split('\n')
        for i in range(x, y):
            s = L[i].strip()
            if not s or s.startswith(('/', '*', '#', '{', '}', 'case', 'break', 'return err', 'WORD', 'FLOAT', 'ia_', 'for (i = 0')) and not s.startswith(('ia_add', 'ia_core')): pass
            if not s or s.startswith(('/', '*', '#')): continue
            for k, (o, r) in enumerate(OPS):
                for m in re.finditer(o, L[i]): targets.append((p, n, i, m.start(), m.end(), r))
            for m in re.finditer(r'(?<![\w.\[])(\d+)(\.\d+)?f?\b', L[i]):
                if not re.search(r'WORD\d+ \w+\[', L[i]): targets.append((p, n, i, m.start(), m.end(), '(%s + 1)' % m.group(0)))
            if s.endswith(';') and re.search(r'[^=!<>]=[^=]', s) and not re.match(r'(const |U?WORD|FLOAT|ia_\w+ \*?\w+ =|VOID)', s) and L[i - 1].strip().endswith((';', '{', '}')): targets.append((p, n, i, 0, len(L[i]), ';'))
rng = random.Random(seed); print(len(targets), 'possible changes'); log = open(out, 'a')
def w(s): log.write(s + '\n'); log.flush()
for t in rng.sample(targets, min(count, len(targets))):
    p, n, i, a, b, r = t; full = os.path.join(W, p); raw = open(full, encoding='latin1', newline='').read(); nl = '\r\n' if '\r\n' in raw else '\n'
    L = raw.split(nl); old = L[i]; L[i] = old[:a] + r + old[b:]
    open(full, 'w', encoding='latin1', newline='').write(nl.join(L)); res = 'MISSED'
    env = dict(os.environ, VERIF_REPO=W, VERIF_SCRATCH='1')
    if subprocess.run(['gcc', '-fsyntax-only', '-w', '-I', W + '/decoder', full], capture_output=True).returncode: res = 'NOCOMPILE'
    else:
        for c in checks:
            q = subprocess.run(['timeout', '400', 'python3-vt', os.path.join(V, 'tools/mutrun.py'), c], cwd=V, env=env, capture_output=True, text=True)
            if q.returncode: res = 'caught' if q.returncode == 1 else 'rc%d' % q.returncode; break
    w('%s %s:%d %s | %s -> %s' % (res, p, i + 1, n, old.strip(), L[i].strip()))
    open(full, 'w', encoding='latin1', newline='').write(raw)
shutil.rmtree(W)
