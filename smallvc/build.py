"""Turns /repo's current source into LLVM IR (clang -O0, no passes): nothing is dropped but comments."""
import os, subprocess, tempfile, shutil, atexit, hashlib
from .ir import Module, Unsupported

REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang-18'
_dir = None
_mods = {}


def workdir():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='smallvc.')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_dir, ignore_errors=True)
        atexit.register(clean)
        for cfg, extra in (('plain', ''), ('asan', '#define ENABLE_ASAN 1\n')):
            os.makedirs(os.path.join(_dir, 'inc_' + cfg))
            with open(os.path.join(_dir, 'inc_' + cfg, 'small_config.h'), 'w') as f:
                f.write(config_h(extra))
    return _dir


def config_h(extra):
    """small_config.h as CMake generates it on this platform, from /repo's template."""
    have = {'TARANTOOL_SMALL_HAVE_MAP_ANON', 'TARANTOOL_SMALL_HAVE_MAP_ANONYMOUS',
            'TARANTOOL_SMALL_HAVE_MADVISE', 'TARANTOOL_SMALL_HAVE_MADV_DONTDUMP'}
    out = []
    src = open(os.path.join(REPO, 'small/small_config.h.cmake')).read()
    for l in src.split('\n'):
        if l.startswith('#cmakedefine'):
            w = l.split()
            if w[1] in have:
                out.append('#define ' + ' '.join(w[1:]))
            elif w[1] == 'ENABLE_ASAN' and extra:
                out.append('#define ENABLE_ASAN 1')
            else:
                out.append('/* #undef %s */' % w[1])
        else:
            out.append(l)
    return '\n'.join(out)


def cflags(cfg):
    d = workdir()
    fl = ['-D_GNU_SOURCE', '-DNVALGRIND=1', '-I' + os.path.join(d, 'inc_' + cfg.split('-')[0]), '-I' + REPO,
          '-I' + REPO + '/include/small', '-I' + REPO + '/include', '-I' + REPO + '/third_party',
          '-I' + REPO + '/small', '-Wno-everything']
    if cfg.startswith('asan'):
        fl.append('-DENABLE_ASAN=1')
    if cfg.endswith('-ndebug'):
        fl.append('-DNDEBUG')
    return fl


def module(tu, cfg='plain'):
    """IR module of wrapper tu/<tu>.c in configuration cfg."""
    key = (tu, cfg)
    if key not in _mods:
        d = workdir()
        out = os.path.join(d, '%s.%s.ll' % (tu, cfg))
        cmd = [CLANG, '-O0', '-g', '-S', '-emit-llvm', '-fno-discard-value-names', '-Xclang',
               '-disable-llvm-passes', '-fno-eliminate-unused-debug-types'] + cflags(cfg) + \
              [os.path.join(HERE, 'tu', tu + '.c'), '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            _mods[key] = Unsupported('extraction of %s (%s) failed: %s' % (tu, cfg, r.stderr[-600:]))
        else:
            try:
                _mods[key] = Module(open(out).read())
            except Unsupported as e:
                _mods[key] = e
    m = _mods[key]
    if isinstance(m, Exception):
        raise m
    return m
