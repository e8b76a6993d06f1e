#!/usr/bin/python3 -B
"""Builds the four extension modules of /repo's working tree for one variant and prints the
directory that holds them.

  main    the code as it is shipped (optimised)
  asan    AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions
  bounds  Cython's own bounds checks switched back on for every memory view
  sched   the OpenMP runtime replaced by mon/native/monomp.c: the number of threads and the schedule are chosen (and
          perturbed) by the monitors and recorded
  tsan    ThreadSanitizer on top of that runtime, whose synchronisation it understands

The extensions are built outside /repo, in a cache keyed by a hash of everything that goes in,
so that any change of the sources gives a new build.  For `main`, a module whose sources are
byte for byte those that /opt/vp/build.sh compiled last is taken from there.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile, time

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache', 'build')
SITE = '/opt/pypyvenv/lib/pypy3.9/site-packages'
SUFFIX = '.pypy39-pp73-x86_64-linux-gnu.so'
OFFICIAL = '/opt/acv-build'
INC = ['-I/usr/include/pypy3.9', '-I' + SITE + '/numpy/core/include']
CY = 'acv_explainers/cyext_acv/'
CX = 'acv_explainers/cext_acv/'
MODULES = {
    'cyext_acv': [CY + 'cyext_acv.pyx'],
    'cyext_acv_nopa': [CY + 'cyext_acv_nopa.pyx'],
    'cyext_acv_cache': [CY + 'cyext_acv_cache.pyx'],
    'cext_acv': [CX + '_cext.cc', CX + 'acv_tree.h'],
}
VARIANTS = {
    'main': ['-O1', '-DNDEBUG'],
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
             '-fsanitize=address,undefined', '-fno-sanitize=vptr,null,alignment'],
    'bounds': ['-O0', '-g0', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS'],
}
VARIANTS['sched'] = VARIANTS['main']
VARIANTS['tsan'] = ['-O1', '-g1', '-DNDEBUG', '-fsanitize=thread']
LINK = {'main': [], 'bounds': [], 'asan': ['-fsanitize=address,undefined'], 'sched': [], 'tsan': ['-fsanitize=thread']}
NATIVE = os.path.join(VERIF, 'mon', 'native')
SHIM = {'sched': ['-O1'], 'tsan': ['-O1', '-g1', '-fsanitize=thread']}

# entry points of the OpenMP runtime -> the monitors' runtime
OMP = {'GOMP_%s' % n: 'MON_%s' % n for n in (
    'parallel barrier critical_start critical_end critical_name_start critical_name_end atomic_start atomic_end loop_end '
    'loop_end_nowait single_start').split()}
OMP.update({'omp_%s' % n: 'MON_%s' % n for n in
            'get_num_threads get_thread_num get_max_threads in_parallel set_num_threads get_num_procs get_wtime'.split()})
for _k in ('', 'nonmonotonic_', 'maybe_nonmonotonic_'):
    for _s in ('dynamic', 'guided', 'runtime', 'static'):
        OMP['GOMP_loop_%s%s_start' % (_k, _s)] = 'MON_loop_%sstart' % ('runtime_' if _s == 'runtime' else '')
        OMP['GOMP_loop_%s%s_next' % (_k, _s)] = 'MON_loop_next'
        OMP['GOMP_parallel_loop_%s%s' % (_k, _s)] = 'MON_parallel_loop%s' % ('_runtime' if _s == 'runtime' else '')


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def sources(mod):
    """every file that can go into the module: its own sources and any header/include beside them"""
    d = os.path.join(REPO, os.path.dirname(MODULES[mod][0]))
    extra = [os.path.join(os.path.dirname(MODULES[mod][0]), f) for f in sorted(os.listdir(d))
             if f.endswith(('.h', '.hpp', '.hh', '.pxd', '.pxi'))]
    return list(dict.fromkeys(MODULES[mod] + extra))


def key(mod, variant):
    h = hashlib.sha256()
    h.update(repr((mod, variant, VARIANTS[variant], 'v3')).encode())
    if variant in SHIM:
        h.update(repr(sorted(OMP.items())).encode())
    for s in sources(mod):
        h.update(s.encode() + b'\0' + read(os.path.join(REPO, s)) + b'\0')
    h.update(read(os.path.join(REPO, 'setup.py')))
    return h.hexdigest()[:24]


def official(mod):
    """the .so /opt/vp/build.sh left, when it was compiled from exactly these sources"""
    try:
        newest = 0
        for s in sources(mod) + ['setup.py']:
            m = os.path.join(OFFICIAL, 'src', s)
            if read(m) != read(os.path.join(REPO, s)):
                return None
            if s != 'setup.py':
                newest = max(newest, os.stat(m).st_mtime)
        so = os.path.join(OFFICIAL, 'out', mod + SUFFIX)
        lib = os.path.join(OFFICIAL, 'lib', mod + SUFFIX)
        if os.stat(so).st_mtime < newest or read(so) != read(lib):
            return None
        return lib
    except OSError:
        return None


def run(cmd, cwd=None, env=None, log=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode('utf8', 'replace')[-4000:])
        raise SystemExit('BUILD FAILED: ' + ' '.join(cmd)[:300])


def compile_module(mod, variant, out):
    tmp = tempfile.mkdtemp(prefix='acvmon-build-')
    try:
        src = os.path.join(tmp, os.path.dirname(MODULES[mod][0]))
        os.makedirs(src)
        for s in sources(mod):
            shutil.copyfile(os.path.join(REPO, s), os.path.join(tmp, s))
        main = os.path.join(tmp, MODULES[mod][0])
        if main.endswith('.pyx'):
            if variant == 'bounds':
                t = open(main, encoding='utf8').read()
                t = re.sub(r'boundscheck\s*\(\s*False\s*\)', 'boundscheck(True)', t)
                t = re.sub(r'(#\s*cython:.*boundscheck\s*=\s*)False', r'\1True', t)
                open(main, 'w', encoding='utf8').write(t)
            cy = os.path.join(tmp, 'cy')
            os.mkdir(cy)
            os.symlink(SITE + '/Cython', cy + '/Cython')
            cpp = main[:-4] + '.cpp'
            env = dict(os.environ, PYTHONPATH=cy, PYTHONDONTWRITEBYTECODE='1')
            args = ['cython', '--cplus', '-2', MODULES[mod][0], '-o', cpp, '-I', SITE]
            run(['/usr/bin/python3', '-B', '-c', 'import sys; sys.argv=%r\n'
                 'from Cython.Compiler.Main import setuptools_main; setuptools_main()' % (args,)], cwd=tmp, env=env)
            main = cpp
        obj = os.path.join(tmp, 'o.o')
        omp = ['-fopenmp'] if mod.startswith('cyext') else []
        flags = list(VARIANTS[variant])
        run(['g++', '-fPIC', '-w', '-pthread'] + flags + omp + INC + ['-c', main, '-o', obj], cwd=tmp)
        so = os.path.join(tmp, mod + SUFFIX)
        if variant in SHIM and omp:
            with open(os.path.join(tmp, 'syms'), 'w') as f:
                f.writelines('%s MON_%s\n' % (k, k) for k in sorted(OMP))
            run(['objcopy', '--redefine-syms=' + os.path.join(tmp, 'syms'), obj], cwd=tmp)
            omp = ['-L' + os.path.dirname(shim(variant)), '-lmonomp-' + variant, '-Wl,-rpath,$ORIGIN']
        run(['g++', '-pthread', '-shared', obj, '-o', so] + omp + LINK[variant], cwd=tmp)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copyfile(so, out + '.tmp%d' % os.getpid())
        os.rename(out + '.tmp%d' % os.getpid(), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def native(src, out, flags, more=''):
    text = read(os.path.join(NATIVE, src)).decode() + more
    h = hashlib.sha256((text + repr(flags)).encode()).hexdigest()[:16]
    so = os.path.join(CACHE, 'native', h, out)
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        t = so + '.tmp%d' % os.getpid()
        with open(t + '.c', 'w') as f:
            f.write(text)
        run(['gcc', '-fPIC', '-shared', '-pthread'] + flags + [t + '.c', '-o', t, '-ldl'])
        os.unlink(t + '.c')
        os.rename(t, so)
    return so


def shim(variant):
    return native('monomp.c', 'libmonomp-%s.so' % variant, SHIM[variant],
                  ''.join('extern __typeof__(%s) MON_%s __attribute__((alias("%s")));\n' % (v, k, v)
                          for k, v in sorted(OMP.items())))


def tlsfix():
    return native('tlsfix.c', 'tlsfix.so', ['-O1', '-fno-stack-protector'])


def build(variant='main'):
    """-> directory with the four modules"""
    os.makedirs(CACHE, exist_ok=True)
    keys = {m: key(m, variant) for m in MODULES}
    if variant in SHIM:
        keys['shim'] = os.path.basename(os.path.dirname(shim(variant)))
    libdir = os.path.join(CACHE, variant + '-' + hashlib.sha256(repr(sorted(keys.items())).encode()).hexdigest()[:24])
    with open(os.path.join(CACHE, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = []
        for m in MODULES:
            so = os.path.join(CACHE, 'obj', '%s-%s-%s.so' % (variant, m, keys[m]))
            if os.path.exists(so):
                continue
            off = official(m) if variant == 'main' else None
            if off:
                os.makedirs(os.path.dirname(so), exist_ok=True)
                shutil.copyfile(off, so + '.tmp')
                os.rename(so + '.tmp', so)
            else:
                todo.append((m, so))
        if todo:
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(4) as ex:
                fs = [ex.submit(compile_module, m, variant, so) for m, so in todo]
                for f in fs:
                    f.result()
        if not os.path.isdir(libdir):
            t = libdir + '.tmp%d' % os.getpid()
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            for m in MODULES:
                shutil.copyfile(os.path.join(CACHE, 'obj', '%s-%s-%s.so' % (variant, m, keys[m])),
                                os.path.join(t, m + SUFFIX))
            if variant in SHIM:
                shutil.copyfile(shim(variant), os.path.join(t, os.path.basename(shim(variant))))
            os.rename(t, libdir)
        # keep the cache small
        for sub in (os.path.join(CACHE, 'obj'), CACHE):
            ents = [os.path.join(sub, e) for e in os.listdir(sub) if e.startswith(variant + '-')]
            ents.sort(key=os.path.getmtime)
            n = 40 if sub.endswith('obj') else 10
            for e in ents[:-n]:
                if e != libdir:
                    shutil.rmtree(e, ignore_errors=True) if os.path.isdir(e) else os.unlink(e)
    return libdir


if __name__ == '__main__':
    t = time.time()
    d = build(sys.argv[1] if len(sys.argv) > 1 else 'main')
    print(d)
    sys.stderr.write('build: %.1f s\n' % (time.time() - t))
