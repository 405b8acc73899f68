"""mkseed.py SPEC.py: plants one bug in /repo's working tree, checks it (builds, stable tests pass, demo passes without it
and fails with it), and writes /verif/seeded/<id>/.  SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (C source).
Always leaves /repo as committed."""
import sys, os, subprocess, json
sp = {}
exec(open(sys.argv[1]).read(), sp)
REPO = '/repo'
D = '/verif/seeded/' + sp['ID']
os.makedirs(D, exist_ok=True)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **k)


def undo():
    sh('git -C /repo checkout -- .')


assert not sh('git -C /repo status --short').stdout.strip(), '/repo not clean'
cxx = sp.get('LANG', 'c') == 'c++'
src = 'demo.cc' if cxx else 'demo.c'
PRE = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <sys/mman.h>\n'
ALL = '#include "quota.h"\n#include "slab_arena.h"\n#include "slab_cache.h"\n'
open(f'{D}/{src}', 'w').write(PRE + ('' if 'PMATOMIC' in sp or 'pmatomic' in sp['DEMO'] else ALL) + sp['DEMO'].lstrip())
cfg = sp.get('CONFIG', 'plain')
cc = ('g++' if cxx else 'gcc') + ' -O1 -g -w ' + ('-fsanitize=address -DENABLE_ASAN ' if cfg == 'asan' else '')
open(f'{D}/demo.sh', 'w').write(f'''#!/bin/bash
# exits 0 when the property holds on this demonstration, nonzero when it is broken; run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
{cc} -I_build/{cfg}/small/include -Iinclude -Iinclude/small -Ithird_party -Ipmatomic "$d/{src}" {sp.get('LINK', f'_build/{cfg}/libsmall.a')} -lm -lpthread {sp.get('FLAGS', '')} -o "$t/demo" && timeout 120 "$t/demo"
rc=$?
rm -f "$t/demo"; rmdir "$t"
exit $rc
''')
try:
    undo()
    sh('bash /opt/vp/build.sh')
    r = sh(f'bash {D}/demo.sh', cwd=REPO)
    print('clean demo rc', r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else '')
    ok = r.returncode == 0
    for f, old, new in sp['EDITS']:
        p = os.path.join(REPO, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    open(f'{D}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    r = sh('bash /opt/vp/test.sh /tmp/seed_t_' + sp['ID'] + '.json')
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/seed_t_' + sp['ID'] + '.json'))
    miss = [x for x in b['stable'] if x not in set(t['passed'])]
    print('stable tests missing with the bug:', miss[:5], len(miss))
    r = sh(f'bash {D}/demo.sh', cwd=REPO)
    print('buggy demo rc', r.returncode, (r.stdout + r.stderr)[-300:])
    ok = ok and not miss and r.returncode != 0
finally:
    undo()
    sh('bash /opt/vp/build.sh')
json.dump({'property': sp['PROPERTY'], 'needs': sp['NEEDS'], 'what_it_breaks': sp['BREAKS']}, open(f'{D}/meta.json', 'w'), indent=1)
print(sp['ID'], 'OK' if ok else 'NOT A VALID SEED')
