"""Mechanical extraction: /repo's current sources -> LLVM IR (for the verifier) and a native .so (for replay)."""
import os, re, subprocess, shutil, tempfile, hashlib

REPO = os.environ.get('IRV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
GXX = shutil.which('g++') or '/usr/bin/g++'
CONFIG = dict(ASSERTS=1, BMI2=1, FASTMATH=0, FLOAT64=1, SIMD_VEC=1, BLAS_LAPACK=1, CUDA=0, GMSH=0, MPACT_XSLIBS=0,
              HDF5=1, OPENMP=0, PUGIXML=1, MAX_LOG_LEVEL=4, MPACT_DATA_DIR='""')


class BuildError(Exception):
    pass


def gen_config(inc, over=None):
    src = open(os.path.join(REPO, 'cmake/config.hpp.in')).read()
    cfg = dict(CONFIG)
    if over: cfg.update(over)

    def sub01(m):
        n = m.group(1)
        k = n.replace('UM2_USE_', '').replace('UM2_ENABLE_', '').replace('UM2_', '')
        v = cfg.get(k, 0)
        return '#define %s %d' % (n, 1 if v else 0)
    out = re.sub(r'#cmakedefine01\s+(\w+)', sub01, src)

    def subat(m):
        k = m.group(1).replace('UM2_USE_', '').replace('UM2_ENABLE_', '').replace('UM2_', '')
        return str(cfg.get(k, 0)).strip('"')
    out = re.sub(r'@(\w+)@', subat, out)
    out = re.sub(r'\$\{(\w+)\}', subat, out)
    os.makedirs(os.path.join(inc, 'um2'), exist_ok=True)
    open(os.path.join(inc, 'um2/config.hpp'), 'w').write(out)


def sh(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r


INCS = ['-I/usr/include/hdf5/serial', '-I/usr/include/eigen3']


def extract(harness, work, noinline=(), config=None, defs=(), opt=()):
    inc = os.path.join(work, 'inc')
    gen_config(inc, config)
    ll = os.path.join(work, 'raw.ll'); ll2 = os.path.join(work, 'opt.ll')
    base = ['-std=c++20', '-I' + inc, '-I' + os.path.join(REPO, 'include'), '-I' + REPO] + INCS + list(defs)
    sh([CLANG] + base + ['-O1', '-march=x86-64-v3', '-ffp-contract=off', '-fno-exceptions', '-fno-discard-value-names',
                         '-fno-threadsafe-statics', '-Wno-everything',
                         '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', harness, '-o', ll])
    if noinline:
        rx = re.compile('|'.join(noinline))
        out = []
        for l in open(ll):
            if l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if m and rx.search(m.group(1)):
                    l = re.sub(r'#(\d+)', r'#\1 noinline', l, count=1) if re.search(r'#\d+', l) else l
                    l = l.replace(' comdat ', ' noinline comdat ', 1) if 'noinline' not in l and ' comdat ' in l else l
            out.append(l)
        text = ''.join(out)
        text = re.sub(r'\balwaysinline\b', '', text)
        open(ll, 'w').write(text)
    sh([OPT, '-S', '-passes=cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg,instsimplify,early-cse,dce)',
        '-inline-threshold=100000'] + list(opt) + [ll, '-o', ll2])
    return open(ll2).read()


def native(harness, work, config=None, defs=(), extra=(), srcs=()):
    """srcs: further sources of the repository the harness needs, relative to its root"""
    inc = os.path.join(work, 'inc')
    gen_config(inc, config)
    so = os.path.join(work, 'native.so')
    base = [GXX, '-std=c++20', '-O1', '-march=x86-64-v3', '-ffp-contract=off', '-fPIC', '-w', '-DNDEBUG', '-DIRV_NATIVE',
            '-I' + inc, '-I' + os.path.join(REPO, 'include'), '-I' + REPO] + INCS + list(defs)
    ins = [harness, os.path.join(HERE, 'guard.cpp')] + [os.path.join(REPO, x) for x in srcs]
    objs = [os.path.join(work, 'o%d.o' % i) for i in range(len(ins))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as tp: list(tp.map(lambda q: sh(base + ['-c', q[0], '-o', q[1]]), zip(ins, objs)))
    sh([GXX, '-shared'] + objs + list(extra) + ['-Wl,-Bsymbolic', '-o', so])
    return so
