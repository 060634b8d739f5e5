#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of /repo: executes the contracts of the property
symbolically on the current source (obligations), cross-checks the same
contracts on CPython, replays counterexamples on the real code, writes
evidence/PROPERTY.json.  exit 0: held; exit 1: VIOLATION printed."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'))
VENVPY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))

import warnings
warnings.simplefilter('ignore')


def run_sym(job):
    key, tier, seed, budget, canary = job[:5]
    retry = len(job) > 5
    import faulthandler
    faulthandler.enable()
    from pyvc import scen, verify
    from pyvc.interp import Interp
    sc = {s.key: s for s in scen.SCENARIOS}[key]
    try:
        interp = Interp(os.path.join(REPO, 'wiz'))
        verify.SymV.canary = canary
        from pyvc import ctx
        ctx.STATS.__init__()
        r = verify.run_scenario(interp, sc, tier=tier, budget=budget, seed=seed, z3_ms=(8000 if retry else None))
        r['z3_calls'] = ctx.STATS.z3_calls
        r['z3_time'] = ctx.STATS.z3_time
        r['canary'] = canary
        return r
    except Exception as e:       # the source could not be read at all
        import traceback
        return dict(key=key, goals=[dict(scenario=key, path=0, name='load', status='undecided', backend='interp', detail='%s' % traceback.format_exc()[-1500:], env=None)],
                    paths=0, infeasible=0, incomplete='error', wall=0.0, trace=[], contracts=[], notes=[], z3_calls=0, z3_time=0.0, canary=canary)


def open_goal(g):
    return g['status'] == 'undecided' and g['backend'] != 'numeric'


def run_conc(jobs, seed, nproc=NPROC, wall=400):
    """run concrete jobs in the repository's interpreter; list of results"""
    if not jobs:
        return []
    for i, j in enumerate(jobs):
        j['id'] = i
    chunks = [c for c in (jobs[k::nproc] for k in range(nproc)) if c]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    env.pop('PYTHONPATH', None)
    procs = []
    out = []
    with tempfile.TemporaryDirectory(prefix='pyvc') as td:
        env['MPLCONFIGDIR'] = td
        for k, c in enumerate(chunks):
            req, res = os.path.join(td, 'q%d' % k), os.path.join(td, 'r%d' % k)
            with open(req, 'w') as f:
                json.dump(dict(seed=seed, jobs=c), f)
            p = subprocess.Popen([VENVPY, os.path.join(HERE, 'pyvc', 'concrete.py'), REPO, req, res], env=env, cwd=td,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            procs.append((p, res, c))
        end = time.time() + wall
        for p, res, c in procs:
            try:
                _, err = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
            try:
                with open(res) as f:
                    out += json.load(f)
            except (OSError, ValueError):
                for j in c:
                    out.append(dict(key=j['key'], id=j['id'], samples=0, checks=0, fails=[], errors=['runner: %s' % (err or '')[-800:]]))
    return sorted(out, key=lambda r: r['id'])


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('status') == 'open']


def is_known(known, scenario, goal, env):
    for k in known:
        if k['scenario'] == scenario and (k.get('goal') in (None, goal)):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    from pyvc import scen
    scs = [s for s in scen.load_all() if s.pid == a.pid]
    if a.only:
        scs = [s for s in scs if a.only in s.name]
    if not scs:
        print('no contracts for', a.pid)
        return 1
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        r = run_conc([dict(key=rp['scenario'], env=rp['env'])] if rp.get('env') else [dict(key=rp['scenario'], n=100)], seed)
        print(json.dumps(r, indent=1))
        bad = any(x['fails'] for x in r)
        if bad:
            print('VIOLATION property=%s replay=%s' % (a.pid, a.replay))
        return 1 if bad else 0

    # ------------------------------------------------ symbolic obligations
    budget = 120.0 if tier == 'quick' else 240.0
    symscs = [s for s in scs if not s.opts.get('bounded')]
    jobs = [(s.key, tier, seed, budget, False) for s in symscs]
    jobs.sort(key=lambda j: -[s for s in symscs if s.key == j[0]][0].opts.get('cost', 1))
    can = [s for s in symscs if not s.opts.get('nocanary')][:1]
    jobs += [(s.key, tier, seed, budget, True) for s in can]
    with mp.get_context('fork').Pool(min(NPROC, max(1, len(jobs))), maxtasksperchild=1) as pool:
        sym = pool.map(run_sym, jobs, chunksize=1)
    # open obligations get a second attempt with larger limits
    again = [(r['key'], tier, seed + 1, budget * 2, False, True) for r in sym if not r['canary'] and (r['incomplete'] or any(open_goal(g) for g in r['goals'])) and not any(g['status'] == 'refuted' for g in r['goals'])]
    if again and time.time() - t0 < 300:
        with mp.get_context('fork').Pool(min(NPROC, len(again)), maxtasksperchild=1) as pool:
            for r in pool.map(run_sym, again[:16], chunksize=1):
                sym = [r if (x['key'] == r['key'] and not x['canary']) else x for x in sym]
    canaries = [r for r in sym if r['canary']]
    sym = [r for r in sym if not r['canary']]
    by = {r['key']: r for r in sym}

    # ------------------------------------------------ concrete cross check
    ncross = 12 if tier == 'quick' else 150
    cj = []
    for s in scs:
        r = by.get(s.key)
        undec = s.opts.get('bounded') or r is None or any(g['status'] == 'undecided' for g in r['goals']) or r['incomplete']
        n = s.opts.get('n', ncross) if not undec else (s.opts.get('nb', 80) if tier == 'quick' else 800)
        cj.append(dict(key=s.key, n=n, time=(25.0 if tier == 'quick' else 200.0)))
    conc = run_conc(cj, seed)
    cby = {r['key']: r for r in conc}

    # ------------------------------------------------ replay of counterexamples
    rj, rmeta = [], []
    for r in sym:
        seen = {}
        for g in r['goals']:
            if g['status'] == 'refuted':
                k = seen.setdefault(g['name'], 0)
                if k < 3 and g['env']:
                    rj.append(dict(key=r['key'], env=g['env'], time=20.0))
                    rmeta.append((r['key'], g))
                seen[g['name']] += 1
    rres = run_conc(rj, seed)
    confirmed = {}
    for (key, g), rr in zip(rmeta, rres):
        for f in rr['fails']:
            confirmed.setdefault((key, g['name']), []).append((g, f))

    # ------------------------------------------------ verdict
    known = load_known(a.pid)
    viol, knownhits = [], []
    done = set()
    for r in sym:
        for g in r['goals']:
            if g['status'] != 'refuted' or (r['key'], g['name']) in done:
                continue
            done.add((r['key'], g['name']))
            conf = confirmed.get((r['key'], g['name']))
            k = is_known(known, r['key'], g['name'], g['env'])
            if k:
                knownhits.append((k, g))
                continue
            viol.append(dict(kind='obligation', scenario=r['key'], goal=g['name'], path=g['path'], verifier=g['detail'], backend=g['backend'],
                             env=(conf[0][1]['env'] if conf else g['env']), replayed=bool(conf),
                             replay_detail=(conf[0][1] if conf else None)))
    for r in conc:
        for f in r['fails']:
            if (r['key'], f['name']) in done:
                # a concrete failure of an obligation that is refuted: real input for it
                for v in viol:
                    if v['scenario'] == r['key'] and v['goal'] == f['name'] and not v['replayed']:
                        v.update(env=f['env'], replayed=True, replay_detail=f)
                continue
            done.add((r['key'], f['name']))
            k = is_known(known, r['key'], f['name'], f['env'])
            if k:
                knownhits.append((k, f))
                continue
            viol.append(dict(kind='concrete', scenario=r['key'], goal=f['name'], verifier='contract fails on CPython', env=f['env'], replayed=True, replay_detail=f))
    # obligations that the verifier does not accept any more
    bounded_ok = {s.key: s.opts.get('bounded_goals', ()) for s in scs}
    for r in sym:
        if r['incomplete']:
            r['goals'].append(dict(scenario=r['key'], path=0, name='all paths explored', status='undecided', backend='paths', detail=str(r['incomplete']), env=None))
        for g in r['goals']:
            if not open_goal(g) or (r['key'], g['name']) in done or g['name'] in bounded_ok[r['key']] or is_known(known, r['key'], g['name'], None):
                continue
            done.add((r['key'], g['name']))
            viol.append(dict(kind='obligation', scenario=r['key'], goal=g['name'], path=g['path'], verifier='not discharged: ' + g['detail'], backend=g['backend'], env=None, replayed=False, replay_detail=None))
    problems = []
    nobl = sum(len(r['goals']) for r in sym)
    nproved = sum(1 for r in sym for g in r['goals'] if g['status'] == 'proved')
    undecided = [(r['key'], g) for r in sym for g in r['goals'] if g['status'] == 'undecided']
    incomplete = [r['key'] for r in sym if r['incomplete']]
    if nobl == 0 and symscs:
        problems.append('no obligation was generated')
    for r in sym:
        if not r['goals']:
            problems.append('no obligation was generated for ' + r['key'])
    for c in canaries:
        if any(g['status'] == 'proved' and g['name'].startswith('canary') for g in c['goals']):
            problems.append('canary obligation was accepted in ' + c['key'])
    for s in scs:
        c = cby[s.key]
        if c['samples'] == 0 and not s.opts.get('symonly'):
            problems.append('contract not exercised on CPython: %s %s' % (s.key, (c['errors'] or [''])[0][-600:]))
        elif c['errors']:
            problems.append('contract text failed on CPython: %s %s' % (s.key, c['errors'][0][-600:]))

    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    viol.sort(key=lambda v: not v['replayed'])
    for v in viol[:10]:
        h = hashlib.sha1((v['scenario'] + v['goal']).encode()).hexdigest()[:10]
        fn = os.path.join(rdir, '%s-%s.json' % (a.pid, h))
        v['property'] = a.pid
        v['how'] = 'python3-vt %s/check.py %s --replay %s' % (HERE, a.pid, fn)
        with open(fn, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print('FAILED obligation: %s / %s\n   %s' % (v['scenario'], v['goal'], str(v['verifier'])[:400]))
        if v['replayed'] and v.get('replay_detail'):
            print('   on the real code: %s' % str(v['replay_detail']['detail'])[:300])
        lines.append('VIOLATION property=%s replay=%s%s' % (a.pid, fn, '' if v['replayed'] else ' no-failing-input-found'))
    for k, g in {id(k): (k, g) for k, g in knownhits}.values():
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k['what']))
    for k, g in undecided[:6]:
        print('UNDECIDED: %s / %s: %s' % (k, g['name'], g['detail'][:300]))
    for p in problems:
        print('CHECK-PROBLEM:', p)
    for l in lines:
        print(l)
    ev = evidence(a.pid, tier, seed, scs, sym, conc, canaries, viol, undecided, incomplete, knownhits, nobl, nproved, t0, problems)
    with open(os.path.join(EVID, a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: obligations %d, discharged %d, undecided %d, refuted %d; concrete contract evaluations %d; %.1fs' % (
        a.pid, tier, nobl, nproved, len(undecided), nobl - nproved - len(undecided), sum(c['checks'] for c in conc), time.time() - t0))
    if a.v:
        for r in sym:
            print('  %-80s paths %d dead %d goals %d %.1fs' % (r['key'], r['paths'], r['infeasible'], len(r['goals']), r['wall']))
        for c in conc:
            print('  conc %-75s samples %d checks %d skipped %d %.1fs' % (c['key'], c['samples'], c['checks'], c.get('skipped', 0), c.get('wall', 0)))
    if viol:
        return 1
    if problems:
        # the machinery could not judge: report, never silently pass
        fn = os.path.join(rdir, '%s-problem.json' % a.pid)
        with open(fn, 'w') as f:
            json.dump(dict(property=a.pid, problems=problems), f, indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.pid, fn))
        return 1
    return 0


def evidence(pid, tier, seed, scs, sym, conc, canaries, viol, undecided, incomplete, knownhits, nobl, nproved, t0, problems):
    backends = {}
    for r in sym:
        for g in r['goals']:
            if g['status'] == 'proved':
                backends[g['backend']] = backends.get(g['backend'], 0) + 1
    funcs = sorted({q for r in sym for q in r['trace'] if '<' not in q})
    contracts = sorted({q for r in sym for q in r['contracts']})
    level = 'proof'
    bounded = [s.key for s in scs if s.opts.get('bounded')]
    if undecided or incomplete or bounded or nproved < nobl:
        level = 'other' if nproved == 0 else 'proof'
    names = {}
    for s in scs:
        r = [x for x in sym if x['key'] == s.key]
        c = [x for x in conc if x['key'] == s.key][0]
        names[s.name] = dict(obligations=len(r[0]['goals']) if r else 0, discharged=sum(1 for g in r[0]['goals'] if g['status'] == 'proved') if r else 0,
                             paths=r[0]['paths'] if r else 0, wall_s=round(r[0]['wall'], 2) if r else 0,
                             cpython_samples=c['samples'], cpython_checks=c['checks'], bounded=bool(s.opts.get('bounded')) or bool(r and any(g['status'] == 'undecided' for g in r[0]['goals'])))
    ass = ['machine arithmetic is treated as exact real arithmetic (float literals are their exact decimal value); rounding is only sampled by the CPython cross check',
           'numpy elementwise, mask, reduction and shape semantics are as modelled in pyvc/npshim.py and pyvc/sym.py',
           'scipy.special.ellipk and ellipe compute the complete elliptic integrals (assumed contracts, uninterpreted K and E with their derivative rules)',
           'the verifier itself (pyvc: interpreter, normal form, sign oracle) and z3']
    for s in scs:
        for x in s.opts.get('assumes', ()):
            if x not in ass:
                ass.append(x)
    return dict(property=pid, tier=tier, seed=seed, level=level,
                coverage=dict(obligations=nobl, discharged=nproved, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
                              trusted_base=['pyvc (AST interpreter, path enumeration, rational/elliptic normal form, sign oracle)', 'z3', 'sympy polynomial factoring', 'mpmath (refutation only)'],
                              functions_under_contract=funcs, callee_contracts_used_at_call_sites=contracts, backends=backends,
                              solver=dict(z3_calls=sum(r.get('z3_calls', 0) for r in sym), z3_seconds=round(sum(r.get('z3_time', 0) for r in sym), 2)),
                              paths=sum(r['paths'] for r in sym), infeasible_paths=sum(r['infeasible'] for r in sym), scenarios=names,
                              undecided=[dict(scenario=k, goal=g['name'], why=g['detail'][:300]) for k, g in undecided][:40], incomplete=incomplete,
                              bounded_scenarios=bounded,
                              cpython_cross_check=dict(samples=sum(c['samples'] for c in conc), evaluations=sum(c['checks'] for c in conc), skipped=sum(c.get('skipped', 0) for c in conc)),
                              canary=[dict(scenario=c['key'], goals=sum(1 for g in c['goals'] if g['name'].startswith('canary')), accepted=sum(1 for g in c['goals'] if g['status'] == 'proved' and g['name'].startswith('canary'))) for c in canaries],
                              known_findings=[k['what'] for k, g in knownhits], problems=problems,
                              notes=sorted({n for r in sym for n in r['notes']})),
                assumptions=ass, wall_s=round(time.time() - t0, 2), violations=len(viol))


if __name__ == '__main__':
    sys.exit(main())
