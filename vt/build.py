"""Builds the decoder sources of /repo's working tree (plus a harness) into /verif/_build/<variant>-<hash>/."""
import hashlib, os, subprocess, sys, glob, concurrent.futures, shutil, fcntl
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, '_build')
VARIANTS = {
    'plain': dict(cc='gcc', cflags=['-O2', '-g1', '-D_X86_', '-w'], ld=['-lm']),
    'asan': dict(cc='clang', cflags=['-O1', '-g1', '-D_X86_', '-w', '-fno-omit-frame-pointer',
                 '-fsanitize=address,bounds,object-size,null,vla-bound,return,unreachable',
                 '-fno-sanitize-recover=bounds,object-size,null,vla-bound,return,unreachable'],
                 ld=['-lm', '-fsanitize=address,bounds,object-size,null,vla-bound,return,unreachable']),
}

def _hash(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build(variant='plain', harness='driver.c', extra_src=(), extra_cflags=(), name=None):
    v = VARIANTS[variant]
    dec = os.path.join(REPO, 'decoder')
    srcs = sorted(glob.glob(dec + '/*.c')) + sorted(glob.glob(dec + '/x86_64/*.c')) + sorted(glob.glob(dec+'/x86/*.c'))
    hdrs = glob.glob(dec + '/**/*.h', recursive=True) + glob.glob(REPO + '/test/**/*.h', recursive=True)
    hsrc = os.path.join(VERIF, 'drv', harness)
    inc = ['-I' + dec + '/x86_64', '-I' + dec, '-I' + REPO + '/test', '-I' + REPO + '/test/mp4']
    libkey = _hash(srcs + hdrs, (variant, v))
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    d = os.path.join(OUT, variant + '-' + libkey)
    lib = os.path.join(d, 'lib.a')
    def cc(args):
        r = subprocess.run(args, capture_output=True, text=True)
        if r.returncode: raise RuntimeError('compile failed: %s\n%s' % (' '.join(args), r.stderr[-4000:]))
    if not os.path.exists(lib):
        for old in sorted(glob.glob(os.path.join(OUT, variant + '-*')), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        jobs = [(s, os.path.join(d, os.path.basename(s)[:-2] + '.o')) for s in srcs]
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(lambda j: cc([v['cc']] + v['cflags'] + inc + ['-c', j[0], '-o', j[1]]), sorted(jobs, key=lambda j: -os.path.getsize(j[0]))))
        tmp = lib + '.tmp'
        if os.path.exists(tmp): os.unlink(tmp)
        cc(['ar', 'rcs', tmp] + [j[1] for j in jobs]); os.rename(tmp, lib)
        for j in jobs: os.unlink(j[1])
    extra = [e if os.path.isabs(e) else os.path.join(VERIF, 'drv', e) for e in extra_src]
    hk = _hash([hsrc] + extra, (variant, tuple(extra_cflags)))
    exe = os.path.join(d, (name or harness.split('.')[0]) + '-' + hk)
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        cc([v['cc']] + v['cflags'] + list(extra_cflags) + inc + [hsrc] + extra + [lib] + v['ld'] + ['-o', tmp]); os.rename(tmp, exe)
    lock.close()
    return exe

if __name__ == '__main__':
    for a in sys.argv[1:] or ['plain', 'asan']: print(build(a))
