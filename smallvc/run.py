"""Proof registry and parallel runner."""
import fnmatch, importlib, json, os, sys, time, traceback, multiprocessing as mp, glob
from .ir import Unsupported
from . import build, engine
from .engine import VC

REG = {}       # proof id -> (fn, props, [(tu, cfg)], fnames, options)


def proof(name, props, tu, cfgs=('plain',), fns=None, assumes=(), group=None, thorough=False):
    def deco(fn):
        for cfg in cfgs:
            pid = name if cfg == 'plain' else '%s@%s' % (name, cfg)
            assert pid not in REG, pid
            REG[pid] = dict(fn=fn, props=list(props) if isinstance(props, (list, tuple)) else props.split(), tu=tu, cfg=cfg,
                            fns=fns or [name], assumes=list(assumes), group=group, thorough=thorough)
        return fn
    return deco


def load_specs():
    here = build.HERE
    if here not in sys.path:
        sys.path.insert(0, here)
    for p in sorted(glob.glob(os.path.join(here, 'specs', '*.py'))):
        importlib.import_module('specs.' + os.path.basename(p)[:-3])


class Result(dict):
    pass


def run_one(pid):
    r = REG[pid]
    t0 = time.time()
    out = dict(id=pid, status='ok', obls=[], msg='', fns=r['fns'], paths=0, used=[], inlined=[], cut=[], unwound=[],
               assumes=list(r['assumes']), solver_time=0.0)
    vcs = []
    try:
        mod = build.module(r['tu'], r['cfg'])

        def mk(name=None, **kw):
            vc = VC(mod, name or pid, **kw)
            vcs.append(vc)
            return vc
        r['fn'](mk, mod)
    except Unsupported as e:
        out['status'] = 'unsupported'
        out['msg'] = str(e)
    except RecursionError as e:
        out['status'] = 'unsupported'
        out['msg'] = 'recursion'
    except Exception as e:
        out['status'] = 'unsupported'
        out['msg'] = 'engine: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    nob = 0
    for vc in vcs:
        for o in vc.obls:
            nob += 1
            out['obls'].append((o.name, o.ok, o.backend, round(o.secs, 4)))
            if not o.ok:
                out.setdefault('failed', []).append(dict(obligation='%s/%s' % (o.fn, o.name), model=o.model, path=o.where))
        out['paths'] += vc.paths_done
        out['used'] = sorted(set(out['used']) | vc.used_contracts)
        out['inlined'] = sorted(set(out['inlined']) | vc.inlined)
        out['cut'] = sorted(set(map(tuple, out['cut'])) | vc.cut_loops)
        out['unwound'] = sorted(set(map(tuple, out['unwound'])) | vc.unwound)
        out['assumes'] = sorted(set(out['assumes']) | vc.assumptions)
        out['solver_time'] += vc.solver_time
    if out.get('failed'):
        out['status'] = 'failed'
    elif out['status'] == 'ok' and nob == 0:
        out['status'] = 'unsupported'
        out['msg'] = 'no obligation was generated'
    out['secs'] = time.time() - t0
    return out


def _worker(pid, q, steps=None):
    sys.setrecursionlimit(20000)
    if steps:
        engine.INC_STEPS = steps
    q.put(run_one(pid))


def run(pids, jobs=None, timeout=700, total=None, steps=None):
    """Each proof in its own process (killed at the timeout: unsupported, never a violation)."""
    jobs = jobs or max(1, os.cpu_count() or 1)
    for pid in pids:
        try:
            build.module(REG[pid]['tu'], REG[pid]['cfg'])
        except Unsupported:
            pass
    ctx = mp.get_context('fork')
    costs = {}
    try:
        costs = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'costs.json')))
    except (OSError, ValueError):
        pass
    pend = sorted(pids, key=lambda p: -costs.get(p, 0))
    tstart = time.time()
    live = {}
    res = {}
    while pend or live:
        while pend and len(live) < jobs:
            pid = pend.pop(0)
            if total and time.time() - tstart > total:
                res[pid] = dict(id=pid, status='unsupported', msg='time limit (not started)', obls=[], fns=REG[pid]['fns'], paths=0,
                                used=[], inlined=[], cut=[], unwound=[], assumes=[], solver_time=0.0, secs=0)
                continue
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=(pid, q, steps))
            p.start()
            live[pid] = (p, q, time.time())
        time.sleep(0.01)
        for pid, (p, q, t) in list(live.items()):
            if not q.empty():
                res[pid] = q.get()
                p.join()
                del live[pid]
            elif not p.is_alive():
                if not q.empty():
                    continue
                res[pid] = dict(id=pid, status='unsupported', msg='prover process died (%s)' % p.exitcode, obls=[],
                                fns=REG[pid]['fns'], paths=0, used=[], inlined=[], cut=[], unwound=[], assumes=[],
                                solver_time=0.0, secs=time.time() - t)
                del live[pid]
            elif time.time() - t > timeout or (total and time.time() - tstart > total):
                p.kill()
                p.join()
                res[pid] = dict(id=pid, status='unsupported', msg='time limit', obls=[], fns=REG[pid]['fns'], paths=0,
                                used=[], inlined=[], cut=[], unwound=[], assumes=[], solver_time=0.0, secs=timeout)
                del live[pid]
    again = [p for p in pids if res[p]['status'] == 'failed']
    if again and steps is None and (not total or time.time() - tstart < total * 0.55):
        # an obligation can fail because a question on the way was given up: once more, with more effort per question
        left = (total or 2 * timeout) - (time.time() - tstart)
        for r in run(again, jobs, min(timeout, left), left, steps=engine.INC_STEPS * 6):
            if r['status'] == 'ok':
                r['msg'] = 'second attempt'
                res[r['id']] = r
    return [res[p] for p in pids]


def main():
    load_specs()
    sel = sys.argv[1:]
    pids = [p for p in REG if not sel or any(fnmatch.fnmatch(p, s) or s in REG[p]['props'] for s in sel)]
    bad = 0
    for r in run(pids):
        ok = sum(1 for o in r['obls'] if o[1])
        if r['status'] == 'ok' and os.environ.get('VC_Q'):
            continue
        print('%-34s %-11s %4d/%-4d obligations %3d paths %6.1fs (solver %.1fs) %s' % (
            r['id'], r['status'], ok, len(r['obls']), r['paths'], r['secs'], r['solver_time'], r['msg']))
        for f in r.get('failed', [])[:8]:
            print('     FAILED', f['obligation'])
            if os.environ.get('VC_DEBUG'):
                print('        path', f['path'])
                print('        model', json.dumps(f['model'])[:3000])
        bad += r['status'] != 'ok'
    print('%d proofs, %d not ok' % (len(pids), bad))


if __name__ == '__main__':
    from smallvc import run as _r
    _r.main()
