#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough] [--show]
Verifies the contracts of property <ID> against the current source in /repo.
exit 0: every obligation discharged (or only labelled bounded stand-ins passed)
exit 1: VIOLATION line; exit 2: error of the check."""
import sys, os, time, json, importlib, traceback, argparse, multiprocessing as mp, shutil, tempfile, signal
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine'); sys.path.insert(0, HERE + '/contracts'); sys.path.insert(0, HERE + '/harness')

def run_case(args):
    i, budget, small = args
    import driver
    mod, proj = G['mod'], G['proj']
    name, fn = G['cases'][i]
    t = time.time()
    ex = proj.executor(timeout_ms=8000)
    ex.deadline = time.time() + budget
    c = driver.Case(proj, ex, name); c.small = small
    err = None
    try:
        fn(c)
        if not ex.obls: err = 'no obligation generated'
        elif getattr(c, 'outs', None) is not None and not getattr(c, 'may_be_empty', False):
            if not any(ex.feasible(o.st, timeout=3000) for o in c.outs if o.kind in ('ret', 'throw')): err = 'vacuous: no feasible path'
    except driver.Unsupported as e: err = 'unsupported: %s' % (e.args[0] if e.args else e)
    except RecursionError: err = 'unsupported: recursion limit'
    except Exception as e:
        err = 'engine: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()
        if G.get('debug'): traceback.print_exc()
    obls = []
    for o in ex.obls:
        d = dict(kind=o.kind, where=o.where, detail=o.detail, status=o.status, t=round(o.time, 3))
        if o.status != 'proved':
            try: d['model'] = str(o.model)[:3000] if o.model is not None else ''
            except Exception: d['model'] = ''
            d['goal'] = str(o.goal)[:1500]
        obls.append(d)
    return dict(case=name, fn=getattr(c, 'fn', ''), obls=obls, err=err, trusted=sorted(ex.trusted), stepped=sorted(ex.stepped),
                solver=ex.prover.solver_time, queries=ex.prover.queries, wall=time.time() - t)

def worker(i, budget, small, q):
    try: r = run_case((i, budget, small))
    except BaseException as e:
        r = dict(case=G['cases'][i][0], fn='', obls=[], err='engine: %r' % e, trusted=[], stepped=[], solver=0, queries=0, wall=0)
    q.put((i, r))

def run_all(todo, budget, small=0, jobs=8, until=None):
    q = mp.Queue(); pend = list(todo); live = {}; res = {}
    until = until or time.time() + 1e6
    none = lambda i, why: dict(case=G['cases'][i][0], fn='', obls=[], err='unsupported: ' + why, trusted=[], stepped=[], solver=0, queries=0, wall=0)
    while pend or live:
        while pend and len(live) < jobs:
            i = pend.pop(0); left = min(budget, until - time.time())
            if left < 3: res[i] = none(i, 'time budget of the check exhausted'); continue
            p = mp.Process(target=worker, args=(i, left, small, q)); p.start(); live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.2); res[i] = r
            p, _ = live.pop(i); p.join(5)
            if p.is_alive(): p.kill()
        except Exception: pass
        for i, (p, t) in list(live.items()):
            dead = not p.is_alive() and q.empty()
            if dead or time.time() - t > budget + 60:
                if dead:
                    try:
                        j, r = q.get(timeout=0.5); res[j] = r; live.pop(j, None); continue
                    except Exception: pass
                p.kill(); live.pop(i)
                res[i] = dict(case=G['cases'][i][0], fn='', obls=[], err='unsupported: case process ended without an answer', trusted=[], stepped=[], solver=0, queries=0, wall=time.time() - t)
    return [res[i] for i in todo]

G = {}

def known_findings(pid):
    out = []
    p = HERE + '/known_findings.jsonl'
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get('property') == pid: out.append(d)
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--show', action='store_true'); ap.add_argument('--case'); ap.add_argument('--noharness', action='store_true'); ap.add_argument('--small', type=int, default=0); ap.add_argument('--dev', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pid = a.id
    sys.setrecursionlimit(20000)
    import driver
    mod = importlib.import_module(pid.lower())
    G['mod'] = mod; G['debug'] = a.show
    work = tempfile.mkdtemp(prefix='bonver_%s_' % pid)
    rc = 2
    try: rc = body(a, pid, mod, driver, work, seed, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc

def body(a, pid, mod, driver, work, seed, t0):
    ev = HERE + '/evidence'; os.makedirs(ev, exist_ok=True)
    replay = '%s/%s.replay.txt' % (ev, pid)
    if os.path.exists(replay): os.remove(replay)
    builderr = None
    try: proj = driver.Project(mod.TUS, work + '/bc', getattr(mod, 'EXTRA', None))
    except driver.BuildError as e: builderr = str(e); proj = None
    results = []
    if proj is not None:
        G['proj'] = proj
        G['cases'] = [x for x in mod.CASES if not a.case or a.case in x[0]]
        budget = getattr(mod, 'BUDGET', 200) * (1 if a.tier == 'quick' else 4)
        results = run_all(range(len(G['cases'])), budget, a.small, until=t0 + 330 if a.tier == 'quick' else None)
    elif a.show: print(builderr)
    kf = known_findings(pid)
    open_kf = [k for k in kf if k.get('status') == 'open']
    nob = ndis = 0; failed = []; inconclusive = []; kf_hit = {}
    for r in results:
        for o in r['obls']:
            nob += 1
            if o['status'] == 'proved': ndis += 1
            else:
                hit = [k for k in open_kf if k['case'] == r['case'] and k['obligation'] in (o['detail'] or '')]
                if hit: kf_hit[hit[0]['what']] = 1; continue
                (failed if o['status'] == 'refuted' else inconclusive).append((r, o))
        if r['err']:
            inconclusive.append((r, dict(kind='engine', where=r['fn'], detail=r['err'], status='unknown')))
        if a.show:
            bad = [o for o in r['obls'] if o['status'] != 'proved']
            print('%-60s %4d obl %3d open %6.1fs %s' % (r['case'], len(r['obls']), len(bad), r['wall'], r['err'] or ''))
            for o in bad: print('     %s %s | %s | %s\n        goal %s\n        model %s' % (o['status'], o['kind'], o['where'], o['detail'], o.get('goal', '')[:300].replace('\n', ' '), o.get('model', '')[:600].replace('\n', ' ')))
    if proj is None: inconclusive.append((dict(case='build'), dict(kind='build', where='', detail=builderr, status='unknown')))
    for k in kf_hit: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    viol = 0; rc = 0; stand = None
    need = bool(failed or inconclusive)
    H = getattr(mod, 'HARNESS', None)
    hres = None
    if (need or a.tier == 'thorough') and H and not a.noharness:
        import native
        hres = native.run(H, work, seed, a.tier, getattr(mod, 'HARNESS_TUS', None), pid)
        if a.show or hres['status'] != 'ok': print('native replay: %s\n%s' % (hres['status'], hres['out'][-3000:]))
    bounded = []
    if inconclusive and not failed and proj is not None and not a.dev and not (hres and hres['status'] == 'fail'):
        # bounded refutation: the same contract on all values but fixed small sizes, loops unrolled
        names = [x[0] for x in G['cases']]
        todo = sorted(set(names.index(r['case']) for r, o in inconclusive))
        for small in (1, 2, 3):
            if a.tier == 'quick' and time.time() - t0 > 560: break
            rs = run_all(todo, 60, small, until=t0 + 620 if a.tier == 'quick' else None)
            for r in rs:
                n = sum(o['status'] == 'proved' for o in r['obls']); bounded.append(dict(case=r['case'], size=small, proved=n, open=len(r['obls']) - n, error=r['err']))
                for o in r['obls']:
                    if o['status'] == 'refuted' and not [k for k in open_kf if k['case'] == r['case'] and k['obligation'] in (o['detail'] or '')]:
                        o['detail'] += ' (counterexample with sizes about %d)' % small; failed.append((r, o))
                if a.show: print('bounded %d: %-40s %d proved, %d open %s' % (small, r['case'], n, len(r['obls']) - n, r['err'] or ''))
            if failed: break
    if need or (hres and hres['status'] == 'fail'):
        def txt():
            s = 'property %s\n' % pid
            if hres and hres['status'] == 'fail': s += '== failing input on the real code (compiled from /repo) ==\n%s\n' % hres['out'][-8000:]
            s += '== obligations not discharged ==\n'
            for r, o in failed + inconclusive:
                s += '[%s] case %s | %s | %s | %s\n   goal: %s\n   verifier output: %s\n' % (o['status'], r['case'], o['kind'], o['where'], o['detail'], o.get('goal', ''), o.get('model', ''))
            return s
        if hres and hres['status'] == 'fail':
            open(replay, 'w').write(txt()); print('VIOLATION property=%s replay=%s' % (pid, replay)); rc = 1; viol = 1
        elif failed:
            open(replay, 'w').write(txt())
            for r, o in failed[:5]: print('failed obligation: case %s | %s | %s' % (r['case'], o['where'], o['detail']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)); rc = 1; viol = 1
        else:
            for r, o in inconclusive[:8]: print('not decided by proof: case %s | %s | %s' % (r['case'], o['where'], str(o['detail'])[:300]))
            if hres and hres['status'] == 'ok':
                print('bounded stand-in (native, %s) passed' % hres['bound']); rc = 0; stand = hres['bound']
            elif a.noharness: rc = 0
            else: rc = 2; print('no answer: %s' % (hres['out'][-2000:] if hres else 'no native stand-in'))
    trusted = sorted(set(t for r in results for t in r['trusted']))
    fns = sorted(set(r['fn'] for r in results if r['fn']))
    stepped = sorted(set(s.split('(')[0] for r in results for s in r['stepped']))
    assumptions = ['machine integers and doubles treated as mathematical integers and reals (no overflow, no rounding, no NaN)',
                   'partial correctness: termination not proved', 'distinct objects of the pre-state do not alias',
                   'clang 18 front end and the LLVM passes sroa/early-cse/simplifycfg/instsimplify/loop-simplify preserve the meaning of the source'] + getattr(mod, 'ASSUMPTIONS', [])
    evd = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='proof' if not (need and rc == 0) else 'other',
        coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, a.tier), trusted_base=['z3 5.3 (back end of every obligation)', 'VC generator in /verif/engine', 'clang 18'] + trusted,
            functions_under_contract=fns, executed_in_place=stepped, cases=[dict(case=r['case'], function=r['fn'], obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']), error=r['err'], wall_s=round(r['wall'], 2)) for r in results],
            obligations_by_kind={k: sum(o['kind'] == k for r in results for o in r['obls']) for k in set(o['kind'] for r in results for o in r['obls'])},
            solver_time_s=round(sum(r['solver'] for r in results), 2), solver_queries=sum(r['queries'] for r in results),
            bounded_standin=stand, bounded_refutation=bounded, native_replay=(hres or {}).get('bound'), samples=[dict(case=r['case'], kind=o['kind'], where=o['where'], what=o['detail'], status=o['status']) for r in results for o in r['obls'] if o['kind'] == 'post'][:12],
            explanation='contract obligations generated from the current source; those not discharged by proof are covered only by the bounded native stand-in named here',
            explored_definition='every feasible path of every function under contract, for all inputs satisfying the stated precondition'),
        assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(evd, open('%s/%s.json' % (ev, pid), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d cases, %.1fs, exit %d' % (pid, ndis, nob, len(results), time.time() - t0, rc))
    return rc

if __name__ == '__main__': sys.exit(main())
