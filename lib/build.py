"""Builds the library from the repository's working tree in the variants the
checks need.  Everything goes to /verif/build (git-ignored), keyed by content."""
import os, subprocess, hashlib, glob, re, shutil, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HDB_REPO', '/repo')   # override: development only
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
GCC, GXX, CLANG = '/usr/bin/gcc', '/usr/bin/g++', 'clang'

class BuildError(Exception):
    pass

def _run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, errors='replace')
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout

def csources():
    r = sorted(glob.glob(REPO + '/src/*.c'))
    for m in ('collections', 'utils'):
        r += sorted(glob.glob(f'{REPO}/modules/{m}/src/**/*.c', recursive=True))
    return r

def cxxsources():
    return sorted(glob.glob(REPO + '/src/*.cpp'))

def headers():
    r = []
    for d in ('include', 'modules/collections/include', 'modules/utils/include'):
        r += sorted(glob.glob(f'{REPO}/{d}/**/*.h*', recursive=True))
    return r + [REPO + '/config.h.in', REPO + '/CMakeLists.txt']

_tree = None
def treehash(extra=()):
    global _tree
    h = hashlib.sha256()
    if _tree is None:
        t = hashlib.sha256()
        for f in csources() + cxxsources() + headers():
            t.update(f.encode()); t.update(open(f, 'rb').read())
        _tree = t.hexdigest()
    h.update(_tree.encode())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:16]

def cmake_var(name, default):
    m = re.search(r'set\s*\(\s*%s\s+"?([\w.]+)"?' % name, open(REPO + '/CMakeLists.txt').read())
    return m.group(1) if m else default

CONFIGS = {   # name: (distance, label, index)
    'default': ('double', 'unsigned int', 'unsigned int'),
    'float': ('float', 'unsigned int', 'unsigned int'),
    'ushort': ('double', 'unsigned short', 'unsigned short'),
    'ulong': ('double', 'unsigned long', 'unsigned long'),
    'fushort': ('float', 'unsigned short', 'unsigned short'),
    'fulong': ('float', 'unsigned long', 'unsigned long'),
    'mixed1': ('double', 'unsigned short', 'unsigned long'),
    'mixed2': ('double', 'unsigned long', 'unsigned short'),
    'mixed3': ('float', 'unsigned int', 'unsigned long'),
}

def write_config(path, config='default', debug=False):
    dist, lab, idx = CONFIGS[config]
    s = open(REPO + '/config.h.in').read()
    v = {'LABEL_TYPE': lab, 'DISTANCE_TYPE': dist, 'INDEX_TYPE': idx,
         'D_MAX': 'DBL_MAX' if dist == 'double' else 'FLT_MAX', 'D_MIN': 'DBL_MIN' if dist == 'double' else 'FLT_MIN',
         'HDBSCAN_MAJOR_VERSION': cmake_var('HDBSCAN_MAJOR_VERSION', '5'), 'HDBSCAN_MINOR_VERSION': cmake_var('HDBSCAN_MINOR_VERSION', '1'),
         'HDBSCAN_PATCH_VERSION': cmake_var('HDBSCAN_PATCH_VERSION', '2')}
    v['HDBSCAN_VERSION'] = '.'.join(v['HDBSCAN_%s_VERSION' % k] for k in ('MAJOR', 'MINOR', 'PATCH'))
    s = re.sub(r'@(\w+)@', lambda m: v.get(m.group(1), ''), s)
    s = re.sub(r'^#cmakedefine\s+DEBUG\b.*$', '#define DEBUG' if debug else '/* #undef DEBUG */', s, flags=re.M)
    s = re.sub(r'^#cmakedefine\s+(\w+).*$', r'/* #undef \1 */', s, flags=re.M)
    open(path, 'w').write(s)

SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']
VARIANTS = {  # name: (cc, cxx, compile flags, link flags)
    'opt': (GCC, GXX, ['-O3', '-g', '-fno-omit-frame-pointer', '-fopenmp'], ['-fopenmp']),
    # gcc 13 crashes on bounds checks of variable length arrays inside OpenMP regions
    'asan': (GCC, GXX, ['-O1', '-g', '-fno-omit-frame-pointer', '-fopenmp'] + SAN + ['-fno-sanitize=bounds'], ['-fopenmp'] + SAN),
    'asan1': (GCC, GXX, ['-O1', '-g', '-fno-omit-frame-pointer'] + SAN, SAN),
    'tsan': (GCC, GXX, ['-O1', '-g', '-fno-omit-frame-pointer', '-fopenmp', '-fsanitize=thread'], ['-fsanitize=thread', '-lpthread']),
    'shim': (GCC, GXX, ['-O2', '-g', '-fno-omit-frame-pointer', '-fopenmp'], ['-lpthread']),
    'msan': (CLANG, 'clang++', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins=2', '-fsanitize-memory-param-retval'], ['-fsanitize=memory']),
    'plain1': (GCC, GXX, ['-O1', '-g', '-fno-omit-frame-pointer'], []),
}

def incs(d):
    return ['-I' + d, '-I' + REPO + '/include', '-I' + REPO + '/modules/collections/include', '-I' + REPO + '/modules/utils/include', '-I' + HARN]

def _dir(tag, *key):
    d = os.path.join(BUILD, tag + '-' + treehash(key))
    os.makedirs(d, exist_ok=True)
    return d

def _compile_many(jobs):
    """jobs: list of (cmd, out).  Existing outputs are kept."""
    jobs = [j for j in jobs if not os.path.exists(j[1])]
    def one(j):
        cmd, out = j
        tmp = out + '.%d.tmp.o' % os.getpid()
        try:
            _run(cmd + ['-o', tmp])
        except BuildError as e:
            if 'internal compiler error' not in str(e) or not any('undefined' in a for a in cmd):
                raise
            _run([a.replace(',undefined,float-cast-overflow', '') for a in cmd] + ['-o', tmp])
        os.replace(tmp, out)
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()

STUB = '''/* out-of-line copies of the library's C99 inline functions */
#define inline
#include "hdbscan/hdbscan.h"
#include "collections/linkedlist.h"
'''

def objects(variant, config='default', debug=False, cxx=True, defs=(), pic=False):
    """compiles the library; returns (dir, [objects], jobs-less)"""
    cc, cxxc, cf, lf = VARIANTS[variant]
    cf = cf + list(defs) + (['-fPIC'] if pic else [])
    d = _dir(f'{variant}-{config}' + ('-debug' if debug else '') + ('-pic' if pic else ''), variant, config, debug, cf, defs)
    cfgp = d + '/config.h'
    if not os.path.exists(cfgp):
        write_config(cfgp + '.tmp', config, debug); os.replace(cfgp + '.tmp', cfgp)
    if not os.path.exists(d + '/stub.c'):
        open(d + '/stub.c', 'w').write(STUB)
    jobs = []
    for s in csources() + [d + '/stub.c']:
        jobs.append(([cc, '-w'] + cf + incs(d) + ['-c', s], d + '/' + os.path.relpath(s, REPO if s.startswith(REPO) else d).replace('/', '_') + '.o'))
    if cxx:
        for s in cxxsources():
            jobs.append(([cxxc, '-w', '-std=gnu++0x'] + cf + incs(d) + ['-c', s], d + '/' + os.path.relpath(s, REPO).replace('/', '_') + '.o'))
    return d, jobs

def _filehash(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:12]

def harness_obj(name, flags=('-O1',), cxx=True, cc=None, deps=None, plain=True):
    """library-independent harness objects (no repository headers)"""
    src = os.path.join(HARN, name)
    hs = sorted(glob.glob(HARN + '/*.h*'))
    d = os.path.join(BUILD, 'harness'); os.makedirs(d, exist_ok=True)
    out = f"{d}/{name}-{_filehash(src, *hs)}-{hashlib.sha256(repr(flags).encode()).hexdigest()[:8]}.o"
    comp = [GXX, '-std=gnu++17', '-w'] if cxx else [GCC, '-w']
    return (comp + list(flags) + ['-I' + HARN, '-c', src], out)

def program(name, variant, harness=(), libharness=('adapter.c',), config='default', debug=False, cxx=True, defs=(), link=(), extra_objs=(), plain_c=()):
    """library (variant) + libharness (compiled with the variant's flags and the
    repository's headers) + harness (compiled without either) -> executable path"""
    cc, cxxc, cf, lf = VARIANTS[variant]
    d, jobs = objects(variant, config, debug, cxx, defs)
    for h in libharness:
        src = os.path.join(HARN, h)
        out = f'{d}/h_{h}-{_filehash(src, *sorted(glob.glob(HARN + "/*.h*")))}.o'
        if h.endswith('.c'):
            jobs.append(([cc, '-w'] + cf + list(defs) + incs(d) + ['-c', src], out))
        else:
            jobs.append(([cxxc, '-w', '-std=gnu++17'] + cf + list(defs) + incs(d) + ['-c', src], out))
    hj = [harness_obj(h) for h in harness] + [harness_obj(h, cxx=False, flags=('-O1', '-g')) for h in plain_c]
    _compile_many(sorted(jobs + hj, key=lambda j: not j[0][-1].endswith('core.cpp')))
    objs = [j[1] for j in jobs + hj] + list(extra_objs)
    exe = f"{d}/{name}-{hashlib.sha256(repr((objs, link)).encode()).hexdigest()[:10]}"
    if not os.path.exists(exe):
        linker = cxxc if (cxx or harness or any(h.endswith('.cpp') for h in libharness)) else cc
        _run([linker] + [o for o in objs] + list(lf) + list(link) + ['-lm', '-o', exe + '.tmp'])
        os.replace(exe + '.tmp', exe)
    return exe

def shared(name, variant='opt', libharness=('adapter.c',), config='default', defs=(), link=(), cxx=True):
    cc, cxxc, cf, lf = VARIANTS[variant]
    d, jobs = objects(variant, config, False, cxx, defs, pic=True)
    for h in libharness:
        src = h if os.path.isabs(h) else os.path.join(HARN, h)
        out = f'{d}/h_{os.path.basename(h)}-{_filehash(src, *sorted(glob.glob(HARN + "/*.h*")))}.o'
        comp = [cc] if h.endswith('.c') else [cxxc, '-std=gnu++11']
        jobs.append((comp + ['-w', '-fPIC'] + cf + list(defs) + incs(d) + ['-c', src], out))
    _compile_many(jobs)
    objs = [j[1] for j in jobs]
    so = f"{d}/{name}-{hashlib.sha256(repr((objs, link)).encode()).hexdigest()[:10]}.so"
    if not os.path.exists(so):
        _run([cxxc, '-shared'] + objs + list(lf) + list(link) + ['-lm', '-o', so + '.tmp'])
        os.replace(so + '.tmp', so)
    return so

def prune(maxdirs=60):
    """keeps the build cache bounded"""
    try:
        ds = sorted((os.path.getmtime(p), p) for p in glob.glob(BUILD + '/*-*') if os.path.isdir(p))
        for _, p in ds[:-maxdirs]:
            shutil.rmtree(p, ignore_errors=True)
    except OSError:
        pass

def python_module(variant):
    """the Python module with the adapter in one shared object, in a folder of its own"""
    import sysconfig
    inc = subprocess.run(['/usr/bin/python3', '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    so = shared('pyh', variant, libharness=('adapter.c', REPO + '/modules/python/src/PyHdbscan.c'), defs=tuple('-I' + i for i in inc))
    d = so[:-3] + '.d'; os.makedirs(d, exist_ok=True); p = d + '/PyHdbscan.so'
    if not os.path.lexists(p):
        try: os.symlink(so, p)
        except FileExistsError: pass
    return d, p

def preload(name):
    """a shared object made of one harness source, for LD_PRELOAD"""
    src = os.path.join(HARN, name); d = os.path.join(BUILD, 'harness'); os.makedirs(d, exist_ok=True); out = f'{d}/{name}-{_filehash(src)}.so'
    if not os.path.exists(out):
        _run([GCC, '-O2', '-g', '-fno-builtin', '-fPIC', '-shared', src, '-o', out + '.%d.tmp' % os.getpid()]); os.replace(out + '.%d.tmp' % os.getpid(), out)
    return out

WRAPALL = ['-Wl,--wrap=' + s for s in ('malloc', 'calloc', 'realloc', 'free', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t')]
def java_program(variant):
    """(folder with the classes, folder with libhdbscan_java.so)"""
    jdk = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which('javac')))); js = [HARN + '/java/Ref.java', HARN + '/java/JavaRun.java']; src = REPO + '/modules/java/src/bw/co/roguesystems/Hdbscan.java'
    cls = os.path.join(BUILD, 'java-' + _filehash(src, *js))
    if not os.path.exists(cls + '/ok'):
        t = cls + '.%d.tmp' % os.getpid(); os.makedirs(t, exist_ok=True)
        _run(['javac', '-nowarn', '-d', t, '-h', t, src] + js); open(t + '/ok', 'w')
        try: os.rename(t, cls)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    so = shared('jh', variant, libharness=('adapter.c', 'wrap.c', 'wrapnew.cpp', 'jref.cpp', REPO + '/modules/java/src/Hdbscan.cpp'), defs=('-I' + jdk + '/include', '-I' + jdk + '/include/linux', '-I' + cls), link=WRAPALL)
    d = so[:-3] + '.d'; os.makedirs(d, exist_ok=True); p = d + '/libhdbscan_java.so'
    if not os.path.lexists(p):
        try: os.symlink(so, p)
        except FileExistsError: pass
    return cls, d
