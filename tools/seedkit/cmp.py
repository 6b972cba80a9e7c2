"""Compares the decoder's answers with the recorded ones: status, progress and PCM (within a tolerance)."""
import array, struct, sys
def recs(b):
    b = b[4:]; p = 0; out = []
    while p < len(b):
        t = chr(b[p]); l = struct.unpack_from('<I', b, p + 2)[0]; out.append((t, b[p + 1], b[p + 6:p + 6 + l])); p += 6 + l
    return out
exp, got, wd, tol = recs(open(sys.argv[1], 'rb').read()), recs(open(sys.argv[2], 'rb').read()), int(sys.argv[3]), float(sys.argv[4])
def die(m): print('MISMATCH:', m); sys.exit(1)
if len(exp) != len(got): die('%d answers instead of %d' % (len(got), len(exp)))
def pcm(b):
    if wd == 16: a = array.array('h')
    elif wd == 32: a = array.array('i')
    else: return [int.from_bytes(b[i:i + 3], 'little', signed=True) for i in range(0, len(b) - 2, 3)]
    a.frombytes(b[:len(b) // (wd // 8) * (wd // 8)]); return a
for n, ((t, i, x), (t2, i2, y)) in enumerate(zip(exp, got)):
    if t != t2 or i != i2: die('answer %d is of another kind' % n)
    k = 80 if t == 's' else 16 if t == 'x' else len(x)
    if x[:k] != y[:k]: die('answer %d: reported values %r instead of %r' % (n, struct.unpack('<%di' % (len(y[:k]) // 4), y[:k // 4 * 4]), struct.unpack('<%di' % (len(x[:k]) // 4), x[:k // 4 * 4])))
    if t == 's':
        if len(x) != len(y): die('answer %d: size' % n)
        a, b = pcm(x[80:]), pcm(y[80:])
        for j in range(len(a)):
            if abs(a[j] - b[j]) > tol: die('answer %d sample %d: %d instead of %d' % (n, j, b[j], a[j]))
    elif t == 'x' and x != y: die('answer %d: rendering data differs' % n)
print('as recorded')
