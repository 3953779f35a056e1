#!/usr/bin/env python3
"""Build Cantera from /repo's *current working tree* into /verif/build (out of tree, offline).

  build.py lib            C++ library (+ CLib) as a shared object
  build.py py             lib + the Cython extension + python package in build/py/cantera
  build.py tsan           thread-sanitizer build of the library
  build.py h:NAME         harness/NAME.cpp linked against the library
  build.py t:NAME         harness/NAME.cpp, thread-sanitized, linked against tsan library

ninja (depfiles) decides what is stale inside one checkout; because checks may run in fresh copies
whose mtimes say nothing, staleness is decided by *content*: every source/header's sha1 is compared with
the one recorded at the previous build and files that differ are given a fresh mtime-independent stamp
via ccache (content addressed).  No file of /repo is written.
"""
import glob, hashlib, json, os, subprocess, sys, fcntl, time, sysconfig, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
PY = '/opt/cantera-venv/bin/python'
LIBS = '-lsundials_cvodes -lsundials_idas -lsundials_nvecserial -lyaml-cpp -lfmt -lopenblas -ldl'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, check=True, **k)


def lib_sources():
    out = []
    for s in sorted(glob.glob(R + '/src/*/*.cpp')):
        d, f = s.split('/')[-2:]
        if d in ('pch', 'fortran', 'clib_experimental'):
            continue
        if f in ('canteraStatic.cpp', 'PythonExtensionManager.cpp', 'pythonShim.cpp'):
            continue
        out.append(s)
    return out


def config_include():
    """config.h is generated by SCons and git-ignored: use it when it is there, else the committed copy."""
    if os.path.exists(R + '/include/cantera/base/config.h'):
        return ''
    return f'-I{V}/lib/config'


def gen():
    os.makedirs(B, exist_ok=True)
    inc = f'{config_include()} -I{R}/include -I{R}/src -I/usr/include/eigen3'
    o = []
    w = o.append
    w(f'flags = -std=c++17 -fPIC -pthread -w {inc}')
    w('''rule cxx
  command = ccache g++ $flags $opt -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $out
rule ld
  command = g++ $opt -shared -pthread -o $out $in -Wl,-soname,libcantera_shared.so.3 -fuse-ld=lld $libs
  description = LD $out
rule exe
  command = g++ $opt -pthread -o $out $in -fuse-ld=lld $ldflags $libs
  description = EXE $out
''')
    for var, opt in (('o', '-O1 -g0'), ('t', '-O1 -g1 -fsanitize=thread')):
        objs = []
        for s in lib_sources():
            ob = f'{var}/' + s[len(R) + 5:].replace('/', '_')[:-4] + '.o'
            objs.append(ob)
            w(f'build {ob}: cxx {s}\n  opt = {opt}')
        w(f'build {var}/libcantera_shared.so.3: ld {" ".join(objs)}\n  opt = {opt}\n  libs = {LIBS}')
        w(f'build lib_{var}: phony {var}/libcantera_shared.so.3')
        for h in sorted(glob.glob(V + '/harness/*.cpp')):
            n = os.path.basename(h)[:-4]
            hopt = opt
            extra = ''
            w(f'build {var}/h_{n}.o: cxx {h}\n  opt = {hopt} -I{V}/harness')
            if n == 'mcsched':
                continue
            if n.startswith('thr_'):
                # the scheduler itself is never sanitized: its hand-offs must be invisible to TSan
                extra = ' o/h_mcsched.o'
            w(f'build {var}/{n}: exe {var}/h_{n}.o{extra} {var}/libcantera_shared.so.3\n  opt = {opt}\n'
              f'  ldflags = -Wl,-rpath,{B}/{var} -rdynamic\n  libs = {LIBS}')
    # Cython
    cy = R + '/interfaces/cython/cantera'
    w(f'''rule cython
  command = {PY} -c "from Cython.Compiler.Main import compile as c, CompilationOptions as O, default_options as d; import sys; r=c('$in', O(d, cplus=True, output_file='$out', compiler_directives=dict(binding=True), language_level=3, include_path=['{B}/pyx'])); sys.exit(r.num_errors)" > $out.log 2>&1 || (cat $out.log; exit 1)
  description = CYTHON $out
rule pyld
  command = g++ -shared -pthread -o $out $in -fuse-ld=lld -Lo -l:libcantera_shared.so.3 -lfmt
  description = LD $out
''')
    pyinc = sysconfig.get_paths()['include']
    npinc = subprocess.run([PY, '-c', 'import numpy,sysconfig;print(numpy.get_include(), sysconfig.get_paths()["include"])'],
                           capture_output=True, text=True).stdout.split()
    pyflags = '-O0 -g0 ' + ' '.join('-I' + p for p in npinc) + f' -I{B}/pyx/cantera -DGIT_COMMIT=\\"unknown\\" -Wno-cpp'
    pobjs = []
    pyx = sorted(glob.glob(cy + '/*.pyx'))
    pxd = sorted(glob.glob(cy + '/*.pxd'))
    deps = ' '.join(f'pyx/cantera/{os.path.basename(p)}' for p in pxd + pyx)
    for p in pyx:
        n = os.path.basename(p)[:-4]
        w(f'build pyc/{n}.cpp: cython pyx/cantera/{n}.pyx | {deps}')
        w(f'build pyc/{n}.o: cxx pyc/{n}.cpp || pyc/_utils.cpp\n  opt = {pyflags} -I{B}/pyc')
        pobjs.append(f'pyc/{n}.o')
    # PythonExtensionManager needs delegator.h from cython
    w(f'build pyc/PythonExtensionManager.o: cxx {R}/src/extensions/PythonExtensionManager.cpp || pyc/delegator.cpp\n  opt = {pyflags} -I{B}/pyc')
    pobjs.append('pyc/PythonExtensionManager.o')
    ext = f'py/cantera/_cantera.cpython-312-x86_64-linux-gnu.so'
    w(f'build {ext}: pyld {" ".join(pobjs)} | o/libcantera_shared.so.3')
    w(f'build pymod: phony {ext}')
    w(f'build always: phony')
    text = '\n'.join(o) + '\n'
    p = B + '/build.ninja'
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)


def sync_tree():
    """Python package and cython sources; copies are only rewritten when content changed."""
    def cp(src, dst):
        data = open(src, 'rb').read()
        if not os.path.exists(dst) or open(dst, 'rb').read() != data:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            open(dst, 'wb').write(data)
    cy = R + '/interfaces/cython/cantera'
    want = set()
    for root, dirs, files in os.walk(cy):
        rel = os.path.relpath(root, cy)
        if rel.split('/')[0] in ('data', 'examples', 'test'):
            continue
        for f in files:
            s = os.path.join(root, f)
            if f.endswith(('.pyx', '.pxd', '.h')):
                d = os.path.normpath(f'{B}/pyx/cantera/{rel}/{f}')
            elif f.endswith('.py'):
                d = os.path.normpath(f'{B}/py/cantera/{rel}/{f}')
            else:
                continue
            want.add(d)
            cp(s, d)
    for top in (f'{B}/pyx', f'{B}/py'):
        for root, dirs, files in os.walk(top):
            for f in files:
                p = os.path.join(root, f)
                if p not in want and f.endswith(('.pyx', '.pxd', '.py')) :
                    os.remove(p)
    # with_units is generated by SCons from a template: replicate (tiny) if its output exists
    os.makedirs(f'{B}/py/cantera', exist_ok=True)
    dl = f'{B}/py/cantera/data'
    if not os.path.islink(dl):
        os.symlink(R + '/data', dl)


def stamp():
    """Make ninja's mtime test content based: any file whose content hash differs from the recorded one
    although its mtime is unchanged/older forces a rebuild of everything that depends on it."""
    rec_p = B + '/hashes.json'
    try:
        rec = json.load(open(rec_p))
    except Exception:
        rec = {}
    cur = {}
    files = []
    for top in (R + '/src', R + '/include', V + '/harness'):
        for root, dirs, fs in os.walk(top):
            for f in fs:
                if f.endswith(('.cpp', '.h', '.inl')) or 'build' in f:
                    files.append(os.path.join(root, f))
    for f in files:
        st = os.stat(f)
        cur[f] = [hashlib.sha1(open(f, 'rb').read()).hexdigest(), st.st_mtime_ns]
    stale = [f for f in cur if f not in rec or rec[f][0] != cur[f][0]]
    moved = [f for f in cur if f in rec and rec[f][0] == cur[f][0] and rec[f][1] != cur[f][1]]
    return rec_p, cur, stale, moved


def main(targets):
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CCACHE_DIR=os.environ.get('CCACHE_DIR', B + '/ccache'), CCACHE_MAXSIZE='2G',
               CCACHE_SLOPPINESS='time_macros,include_file_mtime,include_file_ctime,pch_defines',
               CCACHE_COMPILERCHECK='content', CCACHE_BASEDIR='/', CCACHE_NOHASHDIR='1')
    env.pop('LD_LIBRARY_PATH', None)
    sync_tree()
    gen()
    rec_p, cur, stale, moved = stamp()
    # If a changed file carries an old mtime (e.g. restored from an archive) drop every object: ccache makes
    # the rebuild cheap and correct.
    newest_obj = 0
    rec = {}
    if os.path.exists(rec_p):
        rec = json.load(open(rec_p))
        suspicious = [f for f in stale if f in rec and cur[f][1] <= rec[f][1]]
        gone = [f for f in rec if f not in cur]
        built = os.path.getmtime(rec_p) * 1e9
        suspicious += [f for f in stale if cur[f][1] < built]
        if suspicious or gone:
            for d in ('o', 't', 'pyc'):
                for f in glob.glob(f'{B}/{d}/*.o'):
                    os.remove(f)
    tg = []
    for t in targets:
        if t == 'lib':
            tg.append('lib_o')
        elif t == 'py':
            tg.append('pymod')
        elif t == 'tsan':
            tg.append('lib_t')
        elif t.startswith('h:'):
            tg.append('o/' + t[2:])
        elif t.startswith('t:'):
            tg.append('t/' + t[2:])
        else:
            tg.append(t)
    t0 = time.time()
    p = subprocess.run(['ninja', '-C', B, '-j', '8'] + tg, env=env, capture_output=True, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:] + p.stderr[-3000:])
        sys.exit(3)
    json.dump(cur, open(rec_p, 'w'))
    n = p.stdout.count('CXX ')
    print(f'build: {" ".join(targets)} ok in {time.time() - t0:.1f}s')


if __name__ == '__main__':
    main(sys.argv[1:] or ['lib'])
