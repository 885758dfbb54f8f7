#!/usr/bin/env python3
"""Builds the simulator and the 40 copies of the library from a source tree of libconviqt.
usage: build.py [--repo /repo]   prints the build directory. Keyed by content, so an unchanged tree is not rebuilt."""
import os, sys, re, hashlib, subprocess, glob, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
NCOPIES = 40
MPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'
INC = ['levels/c_utils', 'levels/libfftpack', 'levels/cxxsupport', 'levels/Healpix_cxx', 'src']
LIBDIRS = ['src', 'levels/c_utils', 'levels/libfftpack', 'levels/cxxsupport', 'levels/Healpix_cxx']
REDEF_MEM = ['malloc', 'calloc', 'free', 'realloc', 'posix_memalign', 'aligned_alloc', 'exit', 'abort']
REDEF_COPY = ['memcpy', 'memmove', 'memset']
REDEF_IO = {'fopen': 'simrt_fopen', 'fopen64': 'simrt_fopen64', 'remove': 'simrt_remove', 'rename': 'simrt_rename', 'access': 'simrt_access', 'ftruncate': 'simrt_ftruncate',
            'ftruncate64': 'simrt_ftruncate64', 'open': 'simrt_open', 'open64': 'simrt_open64', 'getcwd': 'simrt_getcwd', 'gettimeofday': 'simrt_gettimeofday', 'clock_gettime': 'simrt_clock_gettime',
            'time': 'simrt_time', 'clock': 'simrt_clock', 'rand': 'simrt_rand', 'random': 'simrt_random', 'usleep': 'simrt_usleep', 'nanosleep': 'simrt_nanosleep', 'sleep': 'simrt_sleep',
            'sched_yield': 'simrt_sched_yield', 'fflush': 'simrt_fflush', 'getpid': 'simrt_getpid', 'unlink': 'simrt_unlink',
            '_ZNSt6chrono3_V212steady_clock3nowEv': 'simrt_chrono_now', '_ZNSt6chrono3_V212system_clock3nowEv': 'simrt_chrono_now2',
            'pthread_mutex_lock': 'simrt_mutex_lock', 'pthread_mutex_unlock': 'simrt_mutex_unlock', 'pthread_mutex_trylock': 'simrt_mutex_trylock'}

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write('FAILED: %s\n%s\n' % (' '.join(cmd), r.stdout[-6000:])); raise SystemExit(3)
    return r.stdout

def sources(repo):
    out = []
    for d in LIBDIRS:
        am = open(os.path.join(repo, d, 'Makefile.am')).read().replace('\\\n', ' ')
        for m in re.finditer(r'^(\w+_la_SOURCES)\s*\+?=\s*(.*)$', am, re.M):
            for s in m.group(2).split():
                if re.search(r'\.(c|cc|cpp|cxx)$', s): out.append(os.path.join(d, s))
    return sorted(set(out))

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def build_host(bdir):
    srcs = sorted(glob.glob(HERE + '/*.cpp')); srcs = [s for s in srcs if os.path.basename(s) not in ('driver.cpp', 'pyhost.cpp')]
    hdrs = sorted(glob.glob(HERE + '/*.h')) + [HERE + '/' + x for x in ('syms.py', 'build.py', 'pyhost.cpp', 'pydriver.py')]
    key = digest(srcs + hdrs)
    d = os.path.join(bdir, 'host-' + key)
    if os.path.exists(d + '/simhost'): return d
    t = d + '.tmp%d' % os.getpid(); os.makedirs(t)
    open(t + '/syms.c', 'w').write(sh([sys.executable, HERE + '/syms.py', MPI + '/mpi.h']))
    objs = []
    def cc(s):
        o = t + '/' + os.path.basename(s) + '.o'
        base = os.path.basename(s)
        if s.endswith('.c'): sh(['gcc', '-O1', '-c', s, '-o', o])
        else: sh(['g++', '-std=c++17', '-O2', '-g', '-fno-strict-aliasing', '-Wall', '-Wno-misleading-indentation', '-Wno-unused-function', '-Wno-unused-result', '-I' + MPI, '-I' + MPI + '/openmpi', '-c', s, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, srcs + [t + '/syms.c']))
    sh(['g++', '-rdynamic', '-o', t + '/simhost'] + objs + ['-ldl', '-lz', '-lm', '-lpthread'])
    sh(['g++', '-std=c++17', '-O1', '-g', '-fPIC', '-shared', '-I/usr/include/python3.12', '-o', t + '/simpy.so', HERE + '/pyhost.cpp', '-lpython3.12'])
    shutil.copyfile(HERE + '/pydriver.py', t + '/pydriver.py')
    finish(t, d)
    return d

def finish(t, d):
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t)

def cfitsio(bdir, log=None):
    src = '/usr/lib/x86_64-linux-gnu/libcfitsio.a'
    st = os.stat(src); key = hashlib.sha256(('%d %d %s' % (st.st_size, int(st.st_mtime), sorted(REDEF_IO.items()))).encode()).hexdigest()[:16]
    out = os.path.join(bdir, 'cfitsio-%s.a' % key)
    if os.path.exists(out): return out
    t = out + '.tmp%d' % os.getpid(); args = []
    for k in REDEF_MEM: args += ['--redefine-sym', '%s=simrt_%s' % (k, k)]
    for k, v in REDEF_IO.items(): args += ['--redefine-sym', '%s=%s' % (k, v)]
    sh(['objcopy'] + args + [src, t]); os.rename(t, out)
    return out

def build_lib(bdir, repo):
    srcs = sources(repo)
    hdrs = sorted(p for d in INC for p in glob.glob(os.path.join(repo, d, '*.h')) + glob.glob(os.path.join(repo, d, '*.hpp')))
    hdrs += sorted(p for d in INC for e in ('c', 'cc', 'cpp', 'cxx', 'inc', 'tcc', 'hh', 'hxx', 'ipp') for p in glob.glob(os.path.join(repo, d, '*.' + e)) if os.path.relpath(p, repo) not in srcs and not os.path.basename(p).startswith('test_'))   # included ones
    allf = [os.path.join(repo, s) for s in srcs]
    pys = sorted(glob.glob(repo + '/python/*/*.py')); pys = [p for p in pys if '/tests/' not in p]
    key = digest(allf + hdrs + pys + [HERE + '/driver.cpp', HERE + '/fitsops.h', HERE + '/scenario.h', HERE + '/build.py'])
    d = os.path.join(bdir, 'lib-' + key)
    if os.path.exists(d + '/simlib_%d.so' % (NCOPIES - 1)): return d
    t = d + '.tmp%d' % os.getpid(); os.makedirs(t)
    inc = ['-I' + os.path.join(repo, i) for i in INC] + ['-I' + MPI, '-I' + MPI + '/openmpi', '-I/usr/include/cfitsio']
    redef = []
    for k in REDEF_MEM + REDEF_COPY: redef += ['--redefine-sym', '%s=simrt_%s' % (k, k)]
    for k, v in REDEF_IO.items(): redef += ['--redefine-sym', '%s=%s' % (k, v)]
    common = ['-O2', '-g', '-fPIC', '-fopenmp', '-DUSE_MPI', '-DOMPI_SKIP_MPICXX=1', '-w']
    inst = ['-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0', '-fno-builtin-memcpy', '-fno-builtin-memset', '-fno-builtin-memmove']
    def cc(s):
        o = t + '/' + s.replace('/', '_') + '.o'
        comp = ['gcc'] if s.endswith('.c') else ['g++', '-fno-gnu-unique']; oc = os.environ.get('SIM_OBJCACHE')
        if oc:                                   # development only (mutation campaigns): reuse unchanged objects
            c = os.path.join(oc, hashlib.sha256(b''.join(open(p, 'rb').read() for p in [os.path.join(repo, s)] + hdrs)).hexdigest()[:24] + s.replace('/', '_'))
            if os.path.exists(c): shutil.copyfile(c, o); return o
        sh(comp + common + inst + inc + ['-c', os.path.join(repo, s), '-o', o])
        sh(['objcopy'] + redef + [o])
        if oc: os.makedirs(oc, exist_ok=True); shutil.copyfile(o, c + '.%d' % os.getpid()); os.rename(c + '.%d' % os.getpid(), c)
        return o
    def drv(_):
        o = t + '/driver.o'
        sh(['g++', '-std=c++17', '-fno-gnu-unique'] + common + ['-fno-openmp', '-I' + HERE] + inc + ['-c', HERE + '/driver.cpp', '-o', o]); return o
    with ThreadPoolExecutor(8) as ex:
        f = ex.submit(drv, 0); objs = list(ex.map(cc, srcs)) + [f.result()]
    cf = cfitsio(bdir)
    so = t + '/simlib_0.so'
    sh(['g++', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,now', '-Wl,--unresolved-symbols=ignore-all', '-o', so] + objs + [cf, '-lz', '-lm'])
    for o in objs: os.unlink(o)
    for p in pys:
        q = os.path.join(t, 'python', os.path.relpath(p, repo + '/python')); os.makedirs(os.path.dirname(q), exist_ok=True); shutil.copyfile(p, q)
    sh(['strip', '--strip-debug', '-o', t + '/simlib_1.so', so])       # the same addresses
    for i in range(2, NCOPIES): shutil.copyfile(t + '/simlib_1.so', t + '/simlib_%d.so' % i)
    finish(t, d)
    return d

def main():
    repo = '/repo'
    if '--repo' in sys.argv: repo = sys.argv[sys.argv.index('--repo') + 1]
    bdir = os.environ.get('SIM_BUILD', VERIF + '/build'); os.makedirs(bdir, exist_ok=True)
    lk = open(bdir + '/.lock', 'w'); fcntl.flock(lk, fcntl.LOCK_EX)
    h = build_host(bdir); l = build_lib(bdir, repo)
    # keep the cache small
    keep = {h, l}
    for pat in ('host-*', 'lib-*'):
        ds = sorted(glob.glob(bdir + '/' + pat), key=os.path.getmtime, reverse=True)
        for x in ds[3:]:
            if x not in keep: shutil.rmtree(x, ignore_errors=True)
    os.utime(h); os.utime(l)
    print(h); print(l)
if __name__ == '__main__': main()
