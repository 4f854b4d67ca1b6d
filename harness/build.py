#!/usr/bin/env python3
"""Builds DevIL (IL + ILU) from /repo's working tree with sanitizers, plus one check program.

Everything is written under $VERIF/build/<hash of sources and flags>/ ; /repo is only read.
"""
import hashlib, os, shutil, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'DevIL')
BUILD = os.path.join(VERIF, 'build')

# what cmake generates here (no Jasper, no OpenEXR, no JPEG XR; squish, lcms2 present)
CONFIG = """#ifndef __CONFIG_H__
#define __CONFIG_H__
#define IL_NO_EXR 1
#define IL_NO_JP2 1
#define IL_NO_WDP 1
#define LCMS_NODIRINCLUDE 1
#define IL_USE_DXTC_SQUISH 1
#endif
"""

VARIANTS = {
    'asan': dict(cxx='g++', flags=['-std=gnu++17', '-w', '-fpermissive', '-O1', '-g1', '-fno-omit-frame-pointer',
                                   '-fsanitize=address,bounds', '-fno-sanitize-recover=all']),
    'fuzz': dict(cxx='clang++', flags=['-std=gnu++17', '-w', '-Wno-register', '-Wno-c++11-narrowing', '-O1', '-g1', '-fno-omit-frame-pointer',
                                       '-fsanitize=address,fuzzer-no-link']),
    'cov': dict(cxx='g++', flags=['-std=gnu++17', '-w', '-fpermissive', '-O0', '-g1', '--coverage']),
}
LIBS = ['-lpng', '-ljpeg', '-ltiff', '-lmng', '-llcms2', '-lsquish', '-lz', '-lm', '-lpthread']


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def repo_sources():
    out = []
    for d in ('src-IL', 'src-ILU', 'src-ILUT', 'include'):
        for f in sorted(glob.glob(os.path.join(ROOT, d, '**'), recursive=True)):
            if os.path.isfile(f) and os.path.basename(f) not in ('config.h', 'ilut_config.h'):
                out.append(f)
    return out


def digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, '/').encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def build_lib(variant):
    """-> directory holding the object files and headers of this working tree"""
    v = VARIANTS[variant]
    srcs = repo_sources()
    key = digest(srcs, (CONFIG, v, 3))
    out = os.path.join(BUILD, '%s-%s' % (variant, key))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock-' + variant), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, 'done')):
            os.utime(os.path.join(out, 'done'))
            return out
        # forget old builds
        olds = sorted(glob.glob(os.path.join(BUILD, variant + '-*')), key=os.path.getmtime)
        for o in olds[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        tree = os.path.join(out, 'src')
        for f in srcs:
            dst = os.path.join(tree, os.path.relpath(f, ROOT))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(f, dst)
        with open(os.path.join(tree, 'src-IL/include/config.h'), 'w') as fh:
            fh.write(CONFIG)
        os.makedirs(os.path.join(out, 'obj'))
        inc = ['-I' + os.path.join(tree, d) for d in ('include', 'src-IL/include', 'src-ILU/include')]
        jobs = []
        for d in ('src-IL', 'src-ILU'):
            for f in sorted(glob.glob(os.path.join(tree, d, 'src', '*.cpp'))):
                o = os.path.join(out, 'obj', d + '_' + os.path.basename(f)[:-4] + '.o')
                jobs.append([v['cxx']] + v['flags'] + inc + ['-c', f, '-o', o])
        with ThreadPoolExecutor(8) as ex:
            for rc, txt in ex.map(run, jobs):
                if rc:
                    print(txt)
                    raise SystemExit('build of DevIL failed')
        open(os.path.join(out, 'done'), 'w').close()
        return out
    finally:
        lock.close()


def build_check(name, variant='asan', extra=()):
    """harness/<name>.cpp linked with the library -> path of the program"""
    v = VARIANTS[variant]
    lib = build_lib(variant)
    hdir = os.path.join(VERIF, 'harness')
    src = os.path.join(hdir, name + '.cpp')
    deps = [src] + sorted(glob.glob(os.path.join(hdir, '*.h')))
    key = digest(deps, extra)
    exe = os.path.join(lib, '%s-%s' % (name, key))
    if not os.path.exists(exe):
        inc = ['-I' + os.path.join(lib, 'src', 'include'), '-I' + hdir, '-DVERIF_DIR="%s"' % VERIF]
        flags = [f for f in v['flags'] if f != '-fpermissive']
        rc, txt = run([v['cxx']] + flags + list(extra) + inc + [src] + sorted(glob.glob(os.path.join(lib, 'obj', '*.o')))
                      + LIBS + ['-o', exe + '.tmp'])
        if rc:
            print(txt)
            raise SystemExit('build of %s failed' % name)
        os.rename(exe + '.tmp', exe)
    return exe


if __name__ == '__main__':
    if len(sys.argv) > 1:
        print(build_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'asan'))
    else:
        print(build_lib('asan'))
