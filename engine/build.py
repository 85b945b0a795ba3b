"""Compile /repo's current sources (and a harness) to LLVM IR, and to a native replay binary."""
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('QKV_REPO', '/repo')
SHIM = os.path.join(VERIF, 'shim')
CXX = 'clang++-18'

# the tree's default (DEBUG) configuration, as /opt/vp/build.sh builds it
DEFS = ['-D_QK_RANGE_CHECK_=1']
SYM = ['-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
       '-fno-math-errno', '-fno-stack-protector', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-c', '-emit-llvm',
       '-Xclang', '-disable-llvm-passes']
NAT = ['-std=c++11', '-O1', '-g1', '-fno-omit-frame-pointer', '-ffp-contract=off', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow',
       '-ftrivial-auto-var-init=pattern', '-w']


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        if os.path.relpath(d, os.path.join(REPO, 'src')).split(os.sep)[0] == 'example':
            continue
        for f in sorted(fs):
            if f.endswith(('.cpp', '.cc', '.cxx')) and f != 'main.cpp':
                out.append(os.path.join(d, f))
    return out


CACHE = os.environ.get('QKV_CACHE')     # development only (mutation runs): reuse objects of unchanged inputs
_hh = []


def cached(f, flags):
    if not CACHE:
        return None
    import hashlib
    if not _hh:
        h = hashlib.sha1()
        for root in (os.path.join(REPO, 'src'), SHIM, os.path.join(VERIF, 'harness')):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for x in sorted(fs):
                    if not x.endswith(('.cpp', '.json', '.pyc', '.txt')):
                        h.update(x.encode() + open(os.path.join(d, x), 'rb').read())
        _hh.append(h.hexdigest())
    fl = [x.replace(REPO, '').replace(VERIF, '') for x in flags]
    return os.path.join(CACHE, hashlib.sha1((_hh[0] + repr(fl)).encode() + open(f, 'rb').read()).hexdigest())


def compile_all(files, flags, tmp, suffix, jobs=8):
    errs = {}
    objs = []

    def one(f):
        o = os.path.join(tmp, os.path.relpath(f, '/').replace(os.sep, '_') + suffix)
        key = cached(f, flags)
        if key and os.path.exists(key):
            shutil.copy(key, o)
            return f, o, 0, ''
        rc, out = sh([CXX] + flags + [f, '-o', o])
        if rc:                          # g++ takes some newer-standard code under -std=c++11 with a warning
            newer = ['-std=gnu++17' if x == '-std=c++11' else x for x in flags]
            rc2, out2 = sh([CXX] + newer + [f, '-o', o])
            if rc2 == 0:
                rc, out = rc2, out2
        if key and rc == 0:
            shutil.copy(o, key + '.%d' % os.getpid())
            os.rename(key + '.%d' % os.getpid(), key)
        return f, o, rc, out
    with ThreadPoolExecutor(jobs) as ex:
        for f, o, rc, out in ex.map(one, files):
            if rc:
                errs[f] = out
            else:
                objs.append(o)
    return objs, errs


def build_ir(harness, tmp, entries, defs=None, extra=None, opt_extra=None):
    inc = ['-I' + os.path.join(SHIM, 'inc'), '-I' + SHIM, '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'harness')]
    flags = SYM + (DEFS if defs is None else defs) + inc + (extra or [])
    srcs = sources()
    objs, errs = compile_all([harness, os.path.join(SHIM, 'rt.cpp')] + srcs, flags, tmp, '.bc')
    if harness in errs:
        raise BuildError('harness does not compile against this tree:\n' + errs[harness][:4000])
    all_bc = os.path.join(tmp, 'all.bc')
    rc, out = sh(['llvm-link-18'] + objs + ['-o', all_bc])
    if rc:
        raise BuildError('llvm-link: ' + out[:3000])
    ll = os.path.join(tmp, 'all.ll')
    dce = os.path.join(tmp, 'dce.bc')
    rc, out = sh(['opt-18', all_bc, '-o', dce, '--internalize-public-api-list=' + ','.join(entries),
                  '-passes=internalize,globaldce'])
    if rc:
        raise BuildError('opt: ' + out[:3000])
    rc, out = sh(['llvm-nm-18', '--defined-only', '-j', dce])
    names = [x.strip() for x in out.splitlines()]
    rc, out = sh(['opt-18', '-S', dce, '-o', ll, '-vectorize-loops=false', '-vectorize-slp=false',
                  '-two-entry-phi-node-folding-threshold=40', '-inline-threshold=100', '-passes=default<O1>'] + (opt_extra or []))
    if rc:
        raise BuildError('opt: ' + out[:3000])
    return open(ll).read(), [os.path.relpath(s, REPO) for s in srcs if s not in errs], errs, names


def build_native(harness, tmp, defs=None, extra=None, tsan=False):
    inc = ['-I' + SHIM, '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(SHIM, 'natinc')]
    nat = list(NAT)
    omp = '-fopenmp' in (extra or [])
    san = '-fsanitize=address,undefined'
    if tsan:
        nat = [f for f in nat if 'sanitize' not in f] + ['-fsanitize=thread']
        san = '-fsanitize=thread'
    elif omp:
        nat.append('-DQKV_SEQUENTIAL')
    flags = nat + (DEFS if defs is None else defs) + ['-DQKV_NATIVE'] + inc + (extra or [])
    srcs = [harness, os.path.join(SHIM, 'native.cpp')] + ([os.path.join(SHIM, 'omp_rt.cpp')] if omp else []) + sources()
    objs, errs = compile_all(srcs, flags + ['-c'], tmp, '.tsan.o' if tsan else '.o')
    if errs:
        bad = list(errs.items())[0]
        raise BuildError('native build of %s:\n%s' % (bad[0], bad[1][:3000]))
    exe = os.path.join(tmp, 'replay_tsan' if tsan else 'replay')
    rc, out = sh([CXX, san] + [f for f in (extra or []) if f != '-fopenmp'] + objs + ['-lpthread', '-o', exe])
    if rc:
        raise BuildError('native link: ' + out[:3000])
    return exe


def scratch():
    return tempfile.mkdtemp(prefix='qkv_')


def cleanup(tmp):
    shutil.rmtree(tmp, ignore_errors=True)
