"""Builds of the RuC compiler from /repo's current working tree.

Every variant is configured with the project's own CMake files (so added, removed and
renamed sources are followed) into /verif/.build/<variant>, which git ignores.
"""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RUC_REPO', '/repo')
BUILD = os.environ.get('RUC_BUILD', os.path.join(VERIF, '.build'))

SAN = '-g -fno-omit-frame-pointer -fno-sanitize-recover=undefined '
VARIANTS = {
    # the configuration users and the test-suite run
    'rel': ('gcc', 'Release', ''),
    'dbg': ('gcc', 'Debug', ''),
    # memory errors + undefined behaviour + leaks; asserts on
    'asan': ('clang', 'Debug', '-O1 ' + SAN + '-fsanitize=address,undefined -fno-sanitize=function'),
    # as asan, but without asserts: what a Release user runs
    'asanrel': ('clang', 'Release', SAN + '-fsanitize=address,undefined -fno-sanitize=function'),
    # reads of uninitialised memory
    # deterministic cost meter (lib/c/cost.c)
    'cost': ('clang', 'Release', '-g -fsanitize-coverage=bb,trace-pc'),
    'msan': ('clang', 'Release', '-g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins'),
}


WRAP = 'malloc calloc realloc free memcpy memmove memset memcmp strlen strcpy strcat strchr strcmp strncmp'.split()


class BuildError(Exception):
    pass


def _run(cmd, log):
    with open(log, 'ab') as f:
        return subprocess.run(cmd, stdout=f, stderr=f).returncode


def build(variant, extra=''):
    """Build a variant; return the path of its `ruc` executable."""
    cc, typ, flags = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, 'build.log')
    link = shared = ''
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        open(log, 'wb').close()
        if variant == 'cost':
            o = os.path.join(d, 'cost.o')
            if _run(['clang', '-O2', '-fno-builtin', '-c', os.path.join(VERIF, 'lib/c/cost.c'), '-o', o], log):
                raise BuildError('cost meter')
            shared = ''.join(' -Wl,--wrap=' + w for w in WRAP)
            link = o + shared
            extra += ' -fno-builtin'
        for attempt in (1, 2):
            rc = _run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=' + typ,
                       '-DTESTING_EXIT_CODE=64', '-DCMAKE_C_COMPILER=' + cc,
                       '-DCMAKE_CXX_COMPILER=' + ('g++' if cc == 'gcc' else 'clang++'),
                       '-DCMAKE_EXE_LINKER_FLAGS=' + link, '-DCMAKE_SHARED_LINKER_FLAGS=' + shared, '-DCMAKE_C_FLAGS=' + flags + ' ' + extra], log)
            if rc == 0:
                rc = _run(['ninja', '-C', d], log)
            if rc == 0:
                return os.path.join(d, 'ruc')
    sys.stderr.write(open(log, errors='replace').read()[-4000:])
    raise BuildError('build of variant %s failed' % variant)


def harness(name, variant='rel', flags=()):
    """Link lib/c/<name>.c against the libraries of a variant; return the path of the executable."""
    build(variant)
    cc, typ, vflags = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    src = os.path.join(VERIF, 'lib/c', name + '.c')
    out = os.path.join(d, 'h-' + name)
    log = os.path.join(d, name + '.log')
    open(log, 'wb').close()
    inc = ['-I' + os.path.join(REPO, 'libs', x) for x in ('compiler', 'macro', 'utils')]
    libs = [os.path.join(d, 'lib%s.so' % x) for x in ('compiler', 'macro', 'utils')]
    cmd = [cc, '-std=gnu11', '-O1', '-g'] + vflags.split() + list(flags) + inc + ['-o', out, src] + libs + ['-Wl,-rpath,' + d, '-lm']
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if _run(cmd, log):
            sys.stderr.write(open(log, errors='replace').read()[-4000:])
            raise BuildError('harness %s does not build' % name)
    return out


def standalone(name, libs, tag, flags=(), cc='clang'):
    """Compile lib/c/<name>.c together with the sources of some libraries; return the executable."""
    d = os.path.join(BUILD, 'alone', name + '-' + tag)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'run')
    log = os.path.join(d, 'log')
    with open(d + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        open(log, 'wb').close()
        inc = ['-I' + os.path.join(REPO, 'libs', x) for x in ('compiler', 'macro', 'utils')]
        base = [cc, '-std=gnu11', '-O1', '-DNDEBUG', '-w'] + SAN.split() + ['-fsanitize=address,undefined', '-fno-sanitize=function'] + list(flags) + inc
        jobs, objs = [], []
        for src in [os.path.join(VERIF, 'lib/c', name + '.c')] + src_glob(*libs):
            o = os.path.join(d, os.path.basename(src)[:-2] + '.o')
            objs.append(o)
            jobs.append(base + ['-c', src, '-o', o])
        procs = [subprocess.Popen(j, stdout=open(log, 'ab'), stderr=subprocess.STDOUT) for j in jobs]
        if any([p.wait() for p in procs]) or _run(base + ['-o', out] + objs + ['-lm'], log):
            sys.stderr.write(open(log, errors='replace').read()[-4000:])
            raise BuildError('%s does not build' % name)
    return out


def src_glob(*libs):
    out = []
    for lib in libs:
        for r, _, fs in os.walk(os.path.join(REPO, 'libs', lib)):
            out += [os.path.join(r, f) for f in sorted(fs) if f.endswith('.c')]
    return sorted(out)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['rel', 'asan']:
        print(build(v))
