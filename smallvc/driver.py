"""Builds and runs the native drivers (replay of failed obligations, bounded stand-ins) from /repo's current source."""
import os, subprocess, hashlib, threading
from . import build

# driver -> (sources of /repo/small, configuration, extra flags)
ALL = ['ibuf', 'lsregion', 'matras', 'mempool', 'obuf', 'region', 'slab_arena', 'slab_cache', 'small', 'small_class',
       'small_features', 'static', 'util']
WRAP = ['-Wl,--wrap=malloc', '-Wl,--wrap=mmap']
DRIVERS = {
    'region': (ALL, 'plain', WRAP),
    'ibuf': (ALL, 'plain', WRAP),
    'slab_cache': (ALL, 'plain', WRAP),
    'mempool': (ALL, 'plain', WRAP),
    'small': (ALL, 'plain', WRAP),
    'matras': (['matras'], 'plain', []),
    'rb': ([], 'plain', []),
    'rb_compact': ([], 'plain', ['-DRB_COMPACT']),
    'obuf': (ALL, 'plain', WRAP),
    'lsregion': (ALL, 'plain', WRAP),
    'asan': (['lsregion_asan', 'mempool_asan', 'obuf_asan', 'region_asan', 'slab_arena_asan', 'slab_cache_asan', 'small_asan', 'util'],
             'asan', ['-fno-sanitize=alignment']),
    'arena': ([], 'plain', ['nosan', '-fsanitize=thread', 'nolink']),
    'rlist': ([], 'plain', []),
    'util': (['util'], 'plain', []),
    'static': (['static'], 'plain', []),
    'small_class': (['small_class'], 'plain', []),
    'quota': ([], 'plain', ['nosan', '-fsanitize=thread', 'nolink']),
    'lf_lifo': ([], 'plain', ['nosan', '-fsanitize=thread', 'nolink']),
}
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,pointer-overflow', '-fno-sanitize-recover=all']
_locks = {}
_glock = threading.Lock()


def compile_driver(name):
    """-> (path, error)"""
    srcs, cfg, extra = DRIVERS[name]
    d = build.workdir()
    out = os.path.join(d, 'drv_' + name)
    with _glock:
        lk = _locks.setdefault(name, threading.Lock())
    with lk:
        if os.path.exists(out):
            return out, None
        extra = list(extra)
        san = [] if 'nosan' in extra else SAN
        nolink = 'nolink' in extra
        extra = [x for x in extra if x not in ('nosan', 'nolink')]
        comp = 'gcc'
        files = [os.path.join(build.HERE, 'drivers', name + '.c')]
        cmd = [comp, '-O1', '-g', '-w', '-fno-omit-frame-pointer'] + san + build.cflags(cfg) + \
              ['-I' + os.path.join(build.HERE, 'drivers')] + extra + files + \
              [os.path.join(build.REPO, 'small', s + '.c') for s in srcs] + ['-lm', '-lpthread', '-o', out]
        if nolink:
            # instrumented, but linked with the driver's own hooks instead of the sanitizer's runtime
            obj = out + '.o'
            cmd = [c for c in cmd if not c.endswith('.c')] + ['-c'] + files
            cmd[cmd.index('-o') + 1] = obj
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                r = subprocess.run([comp, obj, '-lm', '-lpthread', '-o', out], capture_output=True, text=True)
        else:
            r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return None, (r.stdout + r.stderr)[-1500:]
        return out, None


def run_driver(name, prop, seed, secs, tier, hint='', history=None):
    """-> dict(status = ok | fail | none, text)"""
    path, err = compile_driver(name)
    if err:
        return dict(status='none', text='driver does not build: ' + err, driver=name)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_segv=1:abort_on_error=0',
               UBSAN_OPTIONS='print_stacktrace=1')
    cmd = [path, str(int(prop[1:])), str(seed), str(secs), tier, hint or '']
    if history is not None:
        cmd.append(str(history))
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs + 150, env=env)
    except subprocess.TimeoutExpired:
        return dict(status='none', text='driver time limit', driver=name)
    st = {0: 'ok', 1: 'fail'}.get(r.returncode, 'none')
    if st == 'ok' and not r.stdout.startswith('OK'):
        st = 'none'
    if st == 'fail' and 'FAIL' not in r.stdout:
        st = 'none'
    return dict(status=st, text=r.stdout[:60000] + r.stderr[:3000], driver=name)
