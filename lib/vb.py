"""Builds of /repo's current working tree, outside /repo.

Build products live in a scratch directory (VERIF_BUILD, default /verif/build) that git
ignores.  meson/ninja always look at the current sources, so an existing directory is
only a cache; nothing depends on it being there."""
import fcntl, os, shutil, subprocess, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

COMMON = ['-Ddefault_library=static', '-Denable_tools=false', '-Denable_tests=false', '-Db_lundef=false',
          '-Dwerror=false', '--wrap-mode=nodownload', '--buildtype=plain']
KINDS = {
    # C code only: the semantics every instruction set has to reproduce
    'plain': dict(cc='gcc', args=['-Dc_args=-O1 -g', '-Denable_asm=false']),
    'ndebug': dict(cc='gcc', args=['-Dc_args=-O1 -g', '-Denable_asm=false', '-Db_ndebug=true']),
    'asan':  dict(cc='gcc', args=['-Dc_args=-O1 -g -fno-omit-frame-pointer', '-Denable_asm=false', '-Db_sanitize=address'],
                  link=['-fsanitize=address']),
    'ubsan': dict(cc='clang', args=['-Dc_args=-O1 -g -fno-omit-frame-pointer', '-Denable_asm=false',
                                    '-Db_sanitize=address,undefined'],
                  link=['-fsanitize=address,undefined']),
    'msan':  dict(cc='clang', args=['-Dc_args=-O1 -g -fno-omit-frame-pointer', '-Denable_asm=false', '-Db_sanitize=memory'],
                  link=['-fsanitize=memory']),
    'tsan':  dict(cc='clang', args=['-Dc_args=-O1 -g', '-Denable_asm=false', '-Db_sanitize=thread'],
                  link=['-fsanitize=thread']),
    # controlled scheduling: atomic operations call harness/sched.c
    'sched': dict(cc='clang', args=['-Dc_args=-O1 -g -fsanitize=thread -mllvm -tsan-instrument-memory-accesses=0 '
                                    '-mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-memintrinsics=0',
                                    '-Denable_asm=false']),
    # the shipped configuration
    'asm':   dict(cc='gcc', args=['-Dc_args=-O2 -g', '-Denable_asm=true']),
}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    return r.stdout


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def env(cc):
    e = dict(os.environ, CC=cc, LC_ALL='C')
    e.pop('CFLAGS', None); e.pop('LDFLAGS', None)
    return e


def lib(kind, extra=(), name=None):
    """build libdav1d.a of the given kind; returns its build directory"""
    k = KINDS[kind]
    d = os.path.join(BUILD, name or kind)
    with lock(name or kind):
        e = env(k['cc'])
        if not os.path.exists(os.path.join(d, 'build.ninja')):
            shutil.rmtree(d, ignore_errors=True)
            sh(['meson', 'setup', d, REPO] + COMMON + k['args'] + list(extra), env=e)
        sh(['ninja', '-C', d], env=e)
    return d


def harness(kind, src=('vh.c',), out='vh', cflags=(), ldflags=(), libname=None, fallback=None):
    k = KINDS[kind]
    d = lib(kind, name=libname)
    b = os.path.join(d, out)
    with lock((libname or kind) + '.' + out):
        def cc(src, ld):
            return [k['cc'], '-O1', '-g', '-Wall', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(d, 'include'),
                    '-I', os.path.join(d, 'include', 'dav1d')] + list(cflags) + [os.path.join(VERIF, 'harness', s) for s in src] \
                + ['-o', b + '.tmp', os.path.join(d, 'src', 'libdav1d.a')] + k.get('link', []) + list(ld) + ['-lpthread', '-lm', '-ldl']
        if fallback and subprocess.run(cc(src, ldflags), env=env(k['cc']), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            pass
        else:
            sh(cc(*(fallback or (src, ldflags))), env=env(k['cc']))
        os.replace(b + '.tmp', b)
    return b


WRAP = ['-DVH_WRAP_MALLOC']
WRAPLD = ['-Wl,--wrap=malloc', '-Wl,--wrap=realloc', '-Wl,--wrap=posix_memalign']


ITXLD = ['-Wl,--wrap=dav1d_itx_dsp_init_8bpc', '-Wl,--wrap=dav1d_itx_dsp_init_16bpc']


PT = ['create', 'join', 'mutex_lock', 'mutex_unlock', 'mutex_init', 'mutex_destroy', 'cond_init', 'cond_destroy', 'cond_wait',
      'cond_signal', 'cond_broadcast']


def vh(kind='plain'):
    if kind == 'sched':
        return harness(kind, src=('vh.c', 'sched.c'), cflags=WRAP + ['-DVH_SCHED'], ldflags=WRAPLD + ['-Wl,--wrap=pthread_' + x for x in PT])
    if kind == 'asm':
        return harness(kind, src=('vh.c', 'itxwrap.c'), cflags=WRAP, ldflags=WRAPLD + ITXLD, fallback=(('vh.c',), WRAPLD))
    return harness(kind, cflags=WRAP, ldflags=WRAPLD)
