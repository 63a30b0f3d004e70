"""Build the LLVM IR of the code under test from /repo's current working tree (in a scratch directory)."""
import os, subprocess, shutil, tempfile, concurrent.futures as cf, atexit
LIB = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAKE_REPO', '/repo')

class StageError(Exception):
    pass

def sh(cmd, cwd=None, env=None, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise StageError('%s failed: %s' % (' '.join(cmd[:4]), r.stdout.decode(errors='replace')[-2000:]))
    return r.stdout.decode(errors='replace')

_tmp = []
def scratch(prefix='symcake.'):
    d = tempfile.mkdtemp(prefix=prefix, dir=os.environ.get('TMPDIR', '/tmp'))
    _tmp.append((d, os.getpid()))
    return d
@atexit.register
def _clean():
    for d, pid in _tmp:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)

SKIP = {'linear.cpp', 'autotune_sa.cpp'}
ARCH = {}           # staged tree -> architecture, the default being haswell
def arch(d): return ARCH.get(d, 'haswell')

def copy_tree(dst):
    os.makedirs(dst, exist_ok=True)
    for x in ('src', 'include', 'python', 'install.sh', 'Makefile', 'kernels.mk', 'env.sh'):
        s = os.path.join(REPO, x)
        d = os.path.join(dst, x)
        if os.path.isdir(s): shutil.copytree(s, d, symlinks=True)
        elif os.path.exists(s): shutil.copy2(s, d)

def generate(dst, cores=4, limits=None):
    """run the repository's own generators (install.sh) on a fixed fake machine description"""
    env = dict(os.environ)
    env['PATH'] = os.path.join(LIB, 'fakebin') + ':' + env['PATH']
    env['FAKE_CORES'] = str(cores)
    if arch(dst) == 'armv8': env['FAKE_MACHINE'] = 'aarch64'
    sh(['bash', 'install.sh'], cwd=dst, env=env)
    if limits:      # the generator again, for more register tiles
        sh(['python3', 'python/kernel_gen.py', arch(dst), str(limits[0]), str(limits[1]), 'dense'], cwd=dst, env=env)
        shutil.move(os.path.join(dst, 'dense.cpp'), os.path.join(dst, 'src', 'kernels', arch(dst), 'dense.cpp'))

def stage(cores=4, machine='haswell', limits=None):
    d = scratch()
    ARCH[d] = machine
    copy_tree(d)
    generate(d, cores, limits)
    return d

def sources(d):
    src = os.path.join(d, 'src')
    a = arch(d)
    skip = SKIP | {'transpose.cpp'} if a == 'armv8' else SKIP       # as in the Makefile
    out = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.cpp') and f not in skip]
    kd = os.path.join(src, 'kernels', a)
    out += [os.path.join(kd, f) for f in sorted(os.listdir(kd)) if f.endswith('.cpp') and f not in ('sparse.cpp', 'blis_pack_haswell.cpp', 'blis_pack_armv8.cpp')]
    return out

FLAGS = ['-w', '-fopenmp', '-fno-exceptions']
X86 = ['-mavx', '-mfma', '-DUSE_CAKE_HASWELL', '-DUSE_CAKE_PACK']
ARM = ['-DUSE_CAKE_ARMV8', '-DBLIS_ARMV8_PACK']
def target(d):
    """to IR for the architecture itself; the host's C and C++ headers serve both"""
    if arch(d) != 'armv8': return X86
    r = ['--target=aarch64-linux-gnu', '-D__x86_64__'] + ARM
    for l in sh(['clang++', '-E', '-v', '-x', 'c++', '/dev/null', '-o', '/dev/null']).splitlines():
        if l.startswith(' /') and 'clang' not in l: r += ['-idirafter', l.strip()]
    return r
def native(d):
    """to host machine code; the NEON intrinsics come from a portable stand-in"""
    return X86 if arch(d) != 'armv8' else ['-mavx', '-mfma', '-funsigned-char', '-I' + os.path.join(LIB, 'neon')] + ARM

def build_ir(d, extra=(), opt='-O0'):
    inc = ['-I' + os.path.join(LIB, 'stubs'), '-I' + os.path.join(d, 'include')]
    outs = []
    jobs = []
    tg = target(d)
    with cf.ThreadPoolExecutor(8) as ex:
        for f in sources(d) + list(extra):
            o = os.path.join(d, os.path.basename(f) + '.ll')
            outs.append(o)
            jobs.append(ex.submit(sh, ['clang++', opt, '-S', '-emit-llvm'] + FLAGS + tg + inc + [f, '-o', o], d))
        for j in jobs: j.result()
    all_ = os.path.join(d, 'all.ll')
    sh(['llvm-link', '-S'] + outs + ['-o', all_])
    return all_

CNTX = ['blis_cntx', 'alpha_n', 'peak_dram_bw', 'peak_flops', 'mr', 'nr', 'm_map', 'n_map', 'L1', 'L2', 'L3', 'ncores']
BLK = ['m_c', 'k_c', 'n_c', 'm_c1', 'k_c1', 'n_c1', 'm_c1_last_core', 'n_c1_last_core', 'k_c1_last_core', 'mr_rem', 'nr_rem', 'k_rem',
       'p_l', 'pm_l', 'pn_l', 'pm', 'pn', 'm_pad', 'k_pad', 'n_pad', 'Mb', 'Kb', 'Nb', 'M_padded', 'N_padded', 'sch']
CACHE = ['m_c', 'k_c', 'n_c', 'sch']

def layout(d):
    """field offsets/sizes, schedule enum, kernel map shape: compiled from the current headers"""
    src = os.path.join(d, 'layout.%d.cpp' % os.getpid())
    lines = ['#include "cake.h"', '#include <cstddef>', '#include <cstdio>']
    body = []
    n = 0
    for st, fs in (('cake_cntx_t', CNTX), ('blk_dims_t', BLK), ('cache_dims_t', CACHE)):
        body.append('printf("S %s - %%zu 0\\n", sizeof(%s));' % (st, st))
        for f in fs:
            # a field that was renamed or removed is left out, not an error
            lines.append('template<class T> void f%d() { if constexpr (requires(T t) { t.%s; }) printf("F %s %s %%zu %%zu\\n", offsetof(T, %s), sizeof(((T*)0)->%s)); }' % (n, f, st, f, f, f))
            body.append('f%d<%s>();' % (n, st))
            n += 1
    lines.append('int main(){')
    lines += body
    for e in ('KMN', 'MKN', 'NKM', 'NA'): lines.append('printf("E sched %s %%d 0\\n",(int)%s);' % (e, e))
    for e in ('MR_MIN', 'MR_FACT', 'NR_MIN', 'NR_FACT'): lines.append('printf("E macro %s %%d 0\\n",(int)%s);' % (e, e))
    lines.append('printf("E map rows %zu 0\\n", sizeof(kernel_map)/sizeof(kernel_map[0]));')
    lines.append('printf("E map cols %zu 0\\n", sizeof(kernel_map[0])/sizeof(kernel_map[0][0]));')
    lines.append('}')
    open(src, 'w').write('\n'.join(lines) + '\n')
    # constants only: no need to link the library
    exe = os.path.join(d, 'layout.%d' % os.getpid())
    inc = ['-I' + os.path.join(LIB, 'stubs'), '-I' + os.path.join(d, 'include')]
    sh(['clang++', '-std=c++20', '-O1', '-w'] + native(d) + inc + [src, '-o', exe, '-Wl,--unresolved-symbols=ignore-all'])
    out = {'size': {}, 'off': {}, 'enum': {}, 'fsize': {}}
    for l in sh([exe]).splitlines():
        k, a, b, x, y = l.split()
        if k == 'S': out['size'][a] = int(x)
        elif k == 'F':
            out['off'][(a, b)] = int(x)
            out['fsize'][(a, b)] = int(y)
        else: out['enum'][b] = int(x)
    return out
