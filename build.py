#!/usr/bin/env python3
"""Build the simulator together with the library sources of /repo's working
tree.  Objects are cached under /verif/build by a hash of the source, of all
headers and of the compiler flags, so nothing stale is ever linked."""
import hashlib, os, subprocess, sys, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VSIM_REPO', '/repo')
BUILD = os.environ.get('VSIM_BUILD', os.path.join(HERE, 'build'))
CXX = os.environ.get('VSIM_CXX', 'g++')
LIBFLAGS = ['-std=c++11', '-O1', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS']
SIMFLAGS = ['-std=c++17', '-O1', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS']
LIBS = ['-lboost_serialization', '-lObjCryst', '-lgsl', '-lgslcblas', '-lm', '-ldl']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def files(d, exts):
    rv = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        rv += [os.path.join(r, f) for f in sorted(fs) if f.endswith(exts)]
    return rv

def hfiles(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()

VERSION = """#ifndef LIBDIFFPY_VERSION_HPP_INCLUDED
#define LIBDIFFPY_VERSION_HPP_INCLUDED
#define DIFFPY_VERSION_MAJOR 1
#define DIFFPY_VERSION_MINOR 4
#define DIFFPY_VERSION_MICRO 0
#define DIFFPY_VERSION_PATCH 0
#define DIFFPY_VERSION 1004000000LL
#define DIFFPY_VERSION_STR "1.4.0"
#define DIFFPY_VERSION_DATE "unknown"
#define DIFFPY_GIT_SHA "0000000000000000000000000000000000000000"
struct libdiffpy_version_info
{ static const long long version; static const char* version_str;
  static const int major; static const int minor; static const int micro; static const int patch;
  static const char* date; static const char* git_sha; };
#endif
"""

def build(log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(REPO, 'src')
    inc = ['-I' + src]
    if not os.path.exists(os.path.join(src, 'diffpy/version.hpp')):
        vd = os.path.join(BUILD, 'include')
        os.makedirs(os.path.join(vd, 'diffpy'), exist_ok=True)
        open(os.path.join(vd, 'diffpy/version.hpp'), 'w').write(VERSION)
        inc.append('-I' + vd)
    libsrc = [f for d in ('src/diffpy', 'src/diffpy/srreal')
              for f in sorted(os.path.join(REPO, d, x) for x in os.listdir(os.path.join(REPO, d)))
              if f.endswith('.cpp') and not f.endswith('/version.cpp')]
    libhdr = files(os.path.join(src, 'diffpy'), ('.hpp', '.ipp', '.h'))
    simdir = os.path.join(HERE, 'sim')
    simsrc = files(simdir, ('.cpp',))
    simhdr = files(simdir, ('.hpp',))
    hh = hfiles(libhdr)
    hs = hfiles(simhdr)
    # may the event clock be accessed?
    probe = os.path.join(BUILD, 'probe.cpp')
    open(probe, 'w').write('''#include <diffpy/EventTicker.hpp>
using diffpy::eventticker::EventTicker;
template <class Tag, typename Tag::type P> struct Rob { friend typename Tag::type robget(Tag) { return P; } };
struct GtickTag { typedef EventTicker::value_type* type; friend type robget(GtickTag); };
template struct Rob<GtickTag, &EventTicker::gtick>;
int main() { return robget(GtickTag())->first; }
''')
    simflags = list(SIMFLAGS)
    key = hashlib.sha256(hfiles([os.path.join(src, 'diffpy/EventTicker.hpp')]).encode()).hexdigest()[:16]
    pf = os.path.join(BUILD, 'probe-' + key)
    if not os.path.exists(pf):
        ok = sh([CXX, '-std=c++17', '-fsyntax-only', '-w'] + inc + [probe]).returncode == 0
        open(pf, 'w').write('1' if ok else '0')
    if open(pf).read() == '1':
        simflags.append('-DSIM_HAVE_GTICK')
    extra = os.environ.get('VSIM_FLAGS', '').split()
    jobs, objs = [], []
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    for f in libsrc + simsrc:
        issim = f in simsrc
        flags = (simflags if issim else LIBFLAGS) + extra
        h = hashlib.sha256()
        h.update(' '.join([CXX] + flags + inc + [f]).encode())
        h.update(open(f, 'rb').read())
        h.update(hh.encode())
        if issim:
            h.update(hs.encode())
        o = os.path.join(objdir, os.path.basename(f)[:-4] + '-' + h.hexdigest()[:20] + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((f, o, [CXX] + flags + inc + ['-c', f, '-o', o + '.tmp']))
    # module for the run-time path simulation
    rtsrc = os.path.join(REPO, 'src/diffpy/runtimepath.cpp')
    rtcmd = [CXX] + LIBFLAGS + extra + ['-fPIC', '-shared'] + inc + [rtsrc]
    rth = hashlib.sha256((' '.join(rtcmd) + hh + hfiles([rtsrc])).encode()).hexdigest()[:20]
    rtso = os.path.join(BUILD, 'rtpath-%s.so' % rth)
    if not os.path.exists(rtso):
        jobs.append((rtsrc + ' (so)', rtso, rtcmd + ['-o', rtso + '.tmp']))
    err = []
    def compile(job):
        f, o, cmd = job
        r = sh(cmd)
        if r.returncode:
            err.append('%s\n%s' % (f, r.stdout[-4000:]))
        else:
            os.rename(o + '.tmp', o)
    # largest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0].split(' ')[0]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(compile, jobs))
    if err:
        print('BUILD FAILED', *err, sep='\n', file=log)
        return None
    lk = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, 'vsim-' + lk)
    if not os.path.exists(exe):
        r = sh([CXX] + extra + ['-rdynamic', '-o', exe + '.tmp'] + objs + LIBS)
        if r.returncode:
            print('LINK FAILED', r.stdout[-6000:], file=log)
            return None
        os.rename(exe + '.tmp', exe)
    # drop objects that were not used for a day
    keep = set(objs) | {exe, rtso}
    for d in (objdir, BUILD):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p) and p not in keep and (f.endswith(('.o', '.so', '.tmp')) or f.startswith('vsim-')):
                if time.time() - os.path.getmtime(p) > 6 * 3600:
                    os.unlink(p)
    return exe, rtso

if __name__ == '__main__':
    t = time.time()
    rv = build()
    if rv is None:
        sys.exit(3)
    print(rv[0], '%.1fs' % (time.time() - t))
