"""Builds the real redsea from /repo's working tree with sanitizers, into /verif/.build."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('RV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')

COMMON = ['-std=c++14', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
          '-DMODEM_IS_MODEMCF', '-w', '-UNDEBUG']
VARIANTS = {
    # address + undefined behaviour, every report fatal
    'asan': ['-O1', '-fsanitize=address,undefined,float-cast-overflow',
             '-fno-sanitize-recover=all'],
    # uninstrumented code generation, for valgrind memcheck and for long DSP runs
    'plain': ['-O1'],
    # coverage-guided fuzzing: fuzz/fuzz_main.cc calls main()
    'fuzz': ['-O2', '-fsanitize=fuzzer-no-link,address,undefined,float-cast-overflow',
             '-fno-sanitize-recover=all', '-Dmain=redsea_main',
             '-fsanitize-coverage-ignorelist=' + os.path.join(VERIF, 'fuzz', 'ignore.txt'),
             '-fsanitize-ignorelist=' + os.path.join(VERIF, 'fuzz', 'ignore.txt')],
}
DRIVER = os.path.join(VERIF, 'fuzz', 'fuzz_main.cc')


class BuildError(Exception):
    pass


def cxx():
    for c in ('clang++-18', 'clang++', 'g++'):
        p = shutil.which(c)
        if p:
            return p
    raise BuildError('no C++ compiler')


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def build(variant='asan', hooks=True):
    """-> path of the redsea binary; raises BuildError"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant)


def tree_key(variant, flags):
    h = hashlib.sha256(repr((variant, flags, cxx())).encode())
    for root in ('src', 'ext'):
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    mb = os.path.join(REPO, 'meson.build')
    if os.path.exists(mb):
        h.update(open(mb, 'rb').read())
    if variant == 'fuzz':
        h.update(open(DRIVER, 'rb').read())
    return h.hexdigest()[:24]


def _build(variant):
    flags = COMMON + VARIANTS[variant]
    key = tree_key(variant, flags)
    out = os.path.join(BUILD, variant + '-' + key)
    exe = os.path.join(out, 'redsea')
    if os.path.exists(exe):
        return exe
    # keep the build area small: drop other builds of this variant
    for d in glob.glob(os.path.join(BUILD, variant + '-*')):
        shutil.rmtree(d, ignore_errors=True)
    tmp = out + '.tmp'
    os.makedirs(tmp)
    with open(os.path.join(tmp, 'config.h'), 'w') as f:
        f.write('#define VERSION "0.0.0-verif"\n')
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cc'), recursive=True) +
                  glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
    big = ('tmc.cc', 'groups.cc', 'events_data.cc', 'locationdb.cc')
    srcs.sort(key=lambda s: big.index(os.path.basename(s)) if os.path.basename(s) in big else 9)
    env = dict(os.environ)
    env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    env['CCACHE_BASEDIR'] = tmp
    env['CCACHE_NOHASHDIR'] = '1'
    launcher = [shutil.which('ccache')] if shutil.which('ccache') else []

    def comp(s):
        o = os.path.join(tmp, os.path.relpath(s, REPO).replace('/', '_') + '.o')
        rc, txt = run(launcher + [cxx()] + flags + ['-I' + tmp, '-I' + REPO, '-c', s, '-o', o],
                      env=env, cwd=tmp)
        return s, o, rc, txt

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(comp, srcs))
    bad = [r for r in res if r[2]]
    ok = False
    if not bad:
        extra = []
        if variant == 'fuzz':
            extra = ['-fsanitize=fuzzer', os.path.join(tmp, 'driver.o')]
            run([cxx()] + [f for f in flags if 'main=' not in f] + ['-c', DRIVER, '-o', extra[1]])
        rc, txt = run([cxx()] + [f for f in flags if 'main=' not in f] + [r[1] for r in res] + extra +
                      ['-o', os.path.join(tmp, 'redsea'), '-lsndfile', '-lliquid'], cwd=tmp)
        ok = rc == 0
    else:
        txt = bad[0][3]
    if not ok and variant != 'fuzz':
        # the tree may have been restructured: let its own build description drive the build
        ok, txt2 = _meson(variant, tmp)
        if not ok:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(txt[-3000:] + '\n--- meson:\n' + txt2[-3000:])
    elif not ok:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError(txt[-3000:])
    for r in res:
        if os.path.exists(r[1]):
            os.remove(r[1])
    os.rename(tmp, out)
    return exe


def _meson(variant, tmp):
    b = os.path.join(tmp, 'm')
    env = dict(os.environ, CXX=cxx(), CC=cxx().replace('++', ''))
    fl = ' '.join(COMMON[1:] + VARIANTS[variant])
    rc, t = run(['meson', 'setup', b, REPO, '--buildtype=plain', '--wrap-mode=nodownload',
                 '-Dwerror=false', '-Dcpp_args=' + fl,
                 '-Dcpp_link_args=' + ' '.join(VARIANTS[variant]), '-Db_lundef=false'], env=env)
    if rc:
        return False, t
    rc, t = run(['ninja', '-C', b, 'redsea'], env=env)
    if rc:
        return False, t
    shutil.copy(os.path.join(b, 'redsea'), os.path.join(tmp, 'redsea'))
    shutil.rmtree(b, ignore_errors=True)
    return True, ''


if __name__ == '__main__':
    for v in sys.argv[1:] or ['asan']:
        try:
            print(build(v))
        except BuildError as e:
            if v != 'fuzz':                # C01 goes without
                raise
            print('no fuzz build: %s' % e)
