"""Building harnesses: LLVM IR for the executor, native binaries for replay."""
import os
import fcntl
import subprocess
import hashlib
import tempfile
import shutil

REPO = os.environ.get('VP_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(ROOT, 'harness')
CLANG = '/usr/bin/clang++-18'

CONFIGS = {
    'x86_default': dict(ir=['--target=x86_64-linux-gnu'], gxx='g++', native=[], run=[]),
    'x86_sse4': dict(ir=['--target=x86_64-linux-gnu', '-msse4.1'], gxx='g++', native=['-msse4.1'], run=[]),
    'x86_avx2': dict(ir=['--target=x86_64-linux-gnu', '-mavx2', '-mfma', '-DGEMMLOWP_ENABLE_AVX2'], gxx='g++',
                     native=['-mavx2', '-mfma', '-DGEMMLOWP_ENABLE_AVX2'], run=[]),
    'aarch64': dict(ir=['--target=aarch64-linux-gnu'], gxx='aarch64-linux-gnu-g++', native=['-static'],
                    run=['qemu-aarch64']),
    'armhf': dict(ir=['--target=arm-linux-gnueabihf', '-march=armv7-a', '-mfpu=neon', '-mfloat-abi=hard', '-marm'],
                  gxx='arm-linux-gnueabihf-g++', native=['-mfpu=neon', '-static'], run=['qemu-arm']),
}

_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='vpwork-')
        import atexit
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_work, ignore_errors=True)
        atexit.register(rm)
    return _work


class BuildError(Exception):
    pass


def ir(src, cfg, opt='-O2', extra=()):
    """compile harness/src to LLVM IR text."""
    c = CONFIGS[cfg]
    tag = hashlib.md5(repr((src, cfg, opt, tuple(extra))).encode()).hexdigest()[:12]
    out = os.path.join(workdir(), '%s-%s.ll' % (os.path.basename(src), tag))
    if os.path.exists(out):
        return out
    lock = open(out + '.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp'
    cmd = [CLANG] + c['ir'] + ['-std=c++11', opt, '-S', '-emit-llvm', '-DVP_IR', '-fno-exceptions', '-fno-rtti', '-w',
                               '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-discard-value-names',
                               '-fno-stack-protector', '-fwrapv', '-U_FORTIFY_SOURCE', '-fno-math-errno', '-fno-builtin-memcmp',
                               '-ffp-contract=off', '-mllvm', '-phi-node-folding-threshold=200', '-mllvm', '-two-entry-phi-node-folding-threshold=400',
                               '-mllvm', '-bonus-inst-threshold=8',
                               '-I' + REPO, '-I' + HARN, os.path.join(HARN, src), '-o', tmp] + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('clang failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    os.rename(tmp, out)
    return out


def native(srcs, cfg, extra=(), sanitize=None):
    c = CONFIGS[cfg]
    tag = hashlib.md5(repr((srcs, cfg, tuple(extra), sanitize)).encode()).hexdigest()[:12]
    out = os.path.join(workdir(), 'native-%s-%s' % (cfg, tag))
    if os.path.exists(out):
        return out
    lock = open(out + '.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp'
    wraps = ['posix_memalign', 'malloc', 'aligned_alloc', 'memalign', 'free']
    cmd = [c['gxx']] + c['native'] + ['-std=c++11', '-O2', '-g', '-w', '-I' + REPO, '-I' + HARN] + list(extra)
    if sanitize:
        cmd += ['-fsanitize=' + sanitize]
    cmd += [s if os.path.isabs(s) else os.path.join(HARN, s) for s in srcs] + [os.path.join(HARN, 'driver.cc'), '-o', tmp, '-lpthread']
    cmd += ['-Wl,' + ','.join('--wrap=' + w for w in wraps)] if not sanitize else []
    if sanitize:
        cmd += ['-DVP_NOWRAP']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('native build failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    os.rename(tmp, out)
    return out


def run_native(binary, cfg, entry, ints, bufs, guard='high', fill=None, timeout=60, env_extra=None):
    """bufs: [(bytes, align)] -> (status, [bytes], logs)"""
    d = tempfile.mkdtemp(prefix='case-', dir=workdir())
    cf, of = os.path.join(d, 'case'), os.path.join(d, 'out')
    write_case(cf, entry, ints, bufs)
    env = dict(os.environ)
    env['VP_GUARD'] = guard
    if fill is not None:
        env['VP_FILL'] = str(fill)
    if env_extra:
        env.update(env_extra)
    try:
        r = subprocess.run(CONFIGS[cfg]['run'] + [binary, cf, of], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           timeout=timeout, cwd=d)
        st = r.returncode
        err = r.stderr.decode('latin1')[-2000:]
    except subprocess.TimeoutExpired:
        return ('timeout', None, None, '')
    res, logs = None, []
    if st == 0 and os.path.exists(of):
        res = []
        for l in open(of):
            if l[0] == ':':
                res.append(bytes.fromhex(l[1:].strip()))
            elif l[0] == 'L':
                logs.append(tuple(int(x) for x in l.split()[1:]))
    shutil.rmtree(d, ignore_errors=True)
    return (st, res, logs, err)


def write_case(path, entry, ints, bufs):
    with open(path, 'w') as f:
        f.write('%s %d\n' % (entry, len(ints)))
        f.write(' '.join(str(i) for i in ints) + '\n')
        f.write('%d\n' % len(bufs))
        for b, al in bufs:
            f.write('%d %d\n:%s\n' % (len(b), al, bytes(b).hex()))
