"""check.py PID: decide one property.  Exit 0: every obligation discharged (or: out of the verifier's reach and the
bounded stand-in is clean); exit 1 with a VIOLATION line: an obligation failed or a stand-in found a failing input."""
import json, os, re, sys, time, threading
from concurrent.futures import ThreadPoolExecutor
from . import build, run, driver, props

TRUSTED = ['clang-18 -O0 lowers /repo\'s C to the LLVM IR that is verified (no optimisation pass runs)',
           'smallvc: IR parser, symbolic executor, contract application (/verif/smallvc)', 'z3 4.x bit-vector solver',
           'the compiler that builds the shipped library implements the same semantics',
           'machine integers are bit-vectors of their real width (nothing is treated as mathematical)']


def hint_of(failed):
    """Values of named inputs in the verifier's counterexample, for the driver."""
    h = []
    for f in failed:
        m = f.get('model') or {}
        if m:
            kv = []
            for k, v in sorted(m.items()):
                try:
                    n = int(str(v), 0)
                except ValueError:
                    continue
                if re.match(r'^[A-Za-z_]\w*$', str(k)):
                    kv.append('%s=%d' % (k, n))
            h.append(' '.join(kv)[:900])
    return h


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    build.workdir()
    run.load_specs()
    P = props.PROPS[prop]
    pids = [p for p in run.REG if prop in run.REG[p]['props'] and (tier == 'thorough' or not run.REG[p].get('thorough'))]
    drvs = P.get('drivers', [])
    dsecs = P.get('dsecs', 20) if tier == 'quick' else P.get('dsecs_thorough', 150)
    pool = ThreadPoolExecutor(max_workers=8)
    futs = []
    nproc = os.cpu_count() or 4
    # drivers run beside the proofs
    for d in drvs:
        futs.append(pool.submit(driver.run_driver, d, prop, seed, dsecs, tier))
    limit = 520 if tier == 'quick' else 1500
    res = run.run(pids, jobs=max(1, nproc - min(len(drvs), 3)), timeout=limit, total=limit)
    dres = [f.result() for f in futs]
    failed = [(r['id'], f) for r in res for f in r.get('failed', [])]
    unsup = [r for r in res if r['status'] == 'unsupported']
    inputs = [d for d in dres if d['status'] == 'fail']
    # a failed obligation is replayed against the real code
    if failed and not inputs:
        left = max(30, min(200, 780 - (time.time() - t0)))
        hints = hint_of([f for _, f in failed])
        seeds = [(d, s) for s in range(max(1, nproc // max(1, len(drvs)))) for d in drvs]
        fs = [pool.submit(driver.run_driver, d, prop, seed + 1000 + 17 * s, left, 'thorough', hints[s % len(hints)] if hints else '')
              for d, s in seeds]
        more = [f.result() for f in fs]
        dres += more
        inputs = [d for d in more if d['status'] == 'fail']
    nob = sum(len(r['obls']) for r in res)
    ndis = sum(1 for r in res for o in r['obls'] if o[1])
    # a proof the extraction or the annotations do not fit counts as one undischarged obligation
    nob += len(unsup)
    fns = sorted({f for r in res for f in r['fns']})
    proved = sorted({f for r in res if r['status'] == 'ok' for f in r['fns']} - {f for r in res if r['status'] != 'ok' for f in r['fns']})
    backends = {}
    for r in res:
        for o in r['obls']:
            if o[1]:
                backends[o[2]] = backends.get(o[2], 0) + 1
    os.makedirs(os.path.join(build.HERE, 'evidence'), exist_ok=True)
    viol = bool(failed or inputs)
    dtext = []
    for d in dres:
        m = re.match(r'OK histories=(\d+) ops=(\d+) nontrivial=(\d+)', d['text'])
        dtext.append(dict(driver=d['driver'], status=d['status'], histories=int(m.group(1)) if m else None,
                          operations=int(m.group(2)) if m else None, note='' if d['status'] != 'none' else d['text'][:400]))
    level = 'proof' if pids else 'exploration'
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='cd /verif && python3-vt -m smallvc.run ' + prop,
               trusted_base=TRUSTED + P.get('trusted', []),
               functions_under_contract=fns, functions_proved=proved,
               obligations_by_back_end=backends,
               solver_seconds=round(sum(r['solver_time'] for r in res), 2),
               proofs=[dict(id=r['id'], status=r['status'], obligations=len(r['obls']), paths=r['paths'],
                            seconds=round(r['secs'], 2), message=r['msg'][:300],
                            loops_cut_by_invariant=[list(x) for x in r['cut']],
                            loops_unwound_completely=[list(x) for x in r['unwound']],
                            called_through_contract=r['used'], inlined_bodies=r['inlined']) for r in res],
               bounded_stand_ins=dict(note='native histories compared with a model; bounded, never counted as proved',
                                      covers=P.get('bounded', ''), runs=dtext))
    if not pids:
        cov.update(evaluations=sum(x['histories'] or 0 for x in dtext), distinct_nontrivial=sum(x['histories'] or 0 for x in dtext),
                   rule=P.get('bounded', ''), samples=[d['text'][:600] for d in dres])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted({a for r in res for a in r['assumes']} | set(P.get('assumes', []))),
              wall_s=round(time.time() - t0, 2), violations=len(failed) + len(inputs))
    with open(os.path.join(build.HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d proofs, %d obligations, %d discharged, %d unsupported; stand-ins: %s; %.1f s' % (
        prop, tier, len(res), nob, ndis, len(unsup), ', '.join('%s %s' % (d['driver'], d['status']) for d in dres), time.time() - t0))
    for r in unsup:
        print('  not decided by proof: %s: %s' % (r['id'], r['msg'][:300]))
    for d in dres:
        if d['status'] == 'none':
            print('  stand-in gave no answer: %s: %s' % (d['driver'], d['text'][:300].replace('\n', ' ')))
    for l in known(prop):
        print(l)
    rp = os.path.join(build.HERE, 'replay')
    os.makedirs(rp, exist_ok=True)
    rp = os.path.join(rp, prop + '.txt')
    if not viol:
        if os.path.exists(rp):
            os.unlink(rp)
        return 0
    with open(rp, 'w') as f:
        f.write('property %s\n\n' % prop)
        for pid, x in failed[:40]:
            f.write('failed obligation: %s: %s\n   path: %s\n   counterexample: %s\n' % (
                pid, x['obligation'], str(x['path'])[:1500], json.dumps(x['model'])[:4000]))
        for d in inputs:
            f.write('\nfailing input against the real code (driver %s):\n%s\n' % (d['driver'], d['text']))
        if not inputs:
            f.write('\nno failing input found by the drivers\n')
            for d in dres:
                f.write('%s: %s\n' % (d['driver'], d['text'][:500]))
    for pid, x in failed[:10]:
        print('  failed obligation: %s' % x['obligation'])
    for d in inputs[:2]:
        print('  failing input: ' + ' / '.join(d['text'].split('\n')[:2]))
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if inputs else ' no-failing-input-found'))
    return 1


def known(prop):
    p = os.path.join(build.HERE, 'known_findings.txt')
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(P\d+) (.*)', l)
        if m and m.group(1) == prop:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, m.group(2).strip()))
    return out


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
