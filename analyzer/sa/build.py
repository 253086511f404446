"""Build the exporter, lay the headers of /repo out and parse the driver TU."""
import hashlib
import re
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get('SA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'

INCLUDE_DIRS = [
    'core/include', 'modules/wpg04/include', 'modules/pepper_mpc/include',
    'bridges/config_msgpack/interface', 'bridges/config_yaml/interface',
    'bridges/qpOASES/interface', 'bridges/qpmad/interface', 'bridges/QuadProgpp/interface',
]
# interfaces of libraries which are not installed: parsed with the declarations of drivers/stubs
OPTIONAL = ['qpoases', 'qpmad', 'quadprogpp', 'rbdl', 'pepper_ik']
BUILD_CONFIG = '''#pragma once
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#define HUMOTO_DEFAULT_CONFIG_PREFIX "/usr/local/share/humoto/config/"
#define HUMOTO_USE_THREADS_FOR_LOGGING
#define HUMOTO_GIT_COMMIT_INFO "static-analysis"
#define HUMOTO_BUILD_TESTS
#define HUMOTO_BUILD_REGRESSION_TESTS
#define HUMOTO_BRIDGE_config_msgpack
#define HUMOTO_BRIDGE_googletest
#define HUMOTO_BRIDGE_obstacle_avoidance
#define HUMOTO_MODULE_pepper_mpc
#define HUMOTO_MODULE_wpg04
#define HUMOTO_MODULE_buildcheck
'''


class BuildError(Exception):
    pass


def sources():
    out = []
    for d in INCLUDE_DIRS + ['bridges/obstacle_avoidance', 'core/config', 'modules']:
        base = os.path.join(REPO, d)
        for r, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(r, f))
    return sorted(set(out))


def digest(paths, extra=''):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        try:
            h.update(open(p, 'rb').read())
        except (IOError, OSError):
            pass
    h.update(extra.encode())
    return h.hexdigest()[:24]


def cache_dir():
    d = os.path.join(VERIF, '.cache')
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, '.w%d' % os.getpid())
        open(t, 'w').close()
        os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'humoto-sa-%d' % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-6000:]))
    return p.stdout


def exporter():
    src = os.path.join(VERIF, 'analyzer', 'export.cpp')
    out = os.path.join(cache_dir(), 'export-' + digest([src]))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        run(['clang++-18', '-O0', '-std=c++17', '-fno-rtti', src, '-o', tmp, '-I' + LLVM + '/include', '-w',
             LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18'], 'exporter build')
        os.rename(tmp, out)
    return out


def layout(d):
    """the include tree the build system would install, as symlinks into REPO"""
    hum = os.path.join(d, 'humoto')
    os.makedirs(hum)

    def link(src, rel):
        dst = os.path.join(hum, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.lexists(dst):
            os.symlink(src, dst)
    for s in INCLUDE_DIRS:
        base = os.path.join(REPO, s)
        for r, ds, fs in os.walk(base):
            for f in fs:
                p = os.path.join(r, f)
                link(p, os.path.relpath(p, base))
    base = os.path.join(REPO, 'bridges/obstacle_avoidance')
    for r, ds, fs in os.walk(base):
        for f in fs:
            if f.endswith('.h'):
                p = os.path.join(r, f)
                rel = os.path.relpath(p, base)
                if rel.startswith(('test', 'doc')):
                    continue
                link(p, rel)
    bc = os.path.join(hum, 'build_config.h')
    if os.path.lexists(bc):
        os.unlink(bc)
    open(bc, 'w').write(BUILD_CONFIG)


def flags(lay):
    return ['-std=c++14', '-w', '-ferror-limit=0', '-I' + lay, '-I' + os.path.join(VERIF, 'drivers', 'stubs'),
            '-I/usr/include/eigen3', '-isystem', LLVM + '/lib/clang/18/include']


def export(driver='all.cpp', fresh=False):
    """path of the exported JSON for the given driver"""
    drv = os.path.join(VERIF, 'drivers', driver)
    stubs = []
    for r, ds, fs in os.walk(os.path.join(VERIF, 'drivers', 'stubs')):
        stubs += [os.path.join(r, f) for f in sorted(fs)]
    key = digest(sources() + [drv, os.path.join(VERIF, 'analyzer', 'export.cpp')] + sorted(stubs), REPO + BUILD_CONFIG)
    out = os.path.join(cache_dir(), 'prog-%s-%s.json' % (driver.split('.')[0], key))
    if fresh or not os.path.exists(out):
        exe = exporter()
        d = tempfile.mkdtemp(prefix='humoto-lay-')
        try:
            layout(d)
            tmp = out + '.%d' % os.getpid()
            for attempt in range(6):
                try:
                    run([exe, tmp, REPO.rstrip('/') + '/', drv, '--'] + flags(d), 'parsing %s' % driver)
                    break
                except BuildError as e:
                    # a use in the driver that this tree does not support (renamed, no longer instantiable): drop that use
                    lines = {int(x) for x in re.findall(re.escape(os.path.basename(drv)) + r':(\d+):\d+:', str(e))}
                    src = open(drv).read().split('\n')
                    lines = [x for x in lines if x <= len(src) and src[x - 1].strip().endswith(';')]
                    # headers which need libraries that are only declared here: do without them
                    lines += [i + 1 for i, x in enumerate(src) for o in OPTIONAL
                              if x.strip() == '#include "humoto/%s.h"' % o and re.search(r'humoto/%s[./]' % o, str(e))]
                    if not lines or attempt == 5:
                        raise
                    for x in lines:
                        src[x - 1] = ''
                    drv = os.path.join(d, driver)
                    open(drv, 'w').write('\n'.join(src))
            os.rename(tmp, out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        # bound the cache
        old = sorted((os.path.getmtime(os.path.join(cache_dir(), f)), f) for f in os.listdir(cache_dir()) if f.startswith('prog-'))
        for _, f in old[:-12]:
            try:
                os.unlink(os.path.join(cache_dir(), f))
            except OSError:
                pass
    return out
