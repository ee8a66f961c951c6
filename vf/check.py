#!/usr/bin/env python3-vt
"""Check of one property: verifies every contract of the property's harness against /repo's current source, runs the same
contracts natively (bounded) on the real code, and reports."""
import json
import multiprocessing as mp
import os
import queue
import re
import resource
import signal
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import build
import hooks
import props
import verify

VERIF = build.VERIF


def worker(module, name, deadline, q, idx):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        r = verify.run_contract(module, name, deadline)
    except MemoryError:
        r = {'contract': name, 'unsupported': 'memory limit of the verifier', 'obligations': [], 'covers': {},
             'functions': [], 'contracts_used': [], 'assumptions': [], 'solver_time': 0, 'wall': 0}
    q.put((idx, r))


def verify_all(module, names, deadline, jobs=8, progress=None):
    """each contract in its own process; a contract that exceeds its deadline is not decided"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pend = list(enumerate(names))
    run = {}
    out = [None] * len(names)

    def dead(i, why):
        out[i] = {'contract': names[i], 'unsupported': why, 'obligations': [], 'covers': {}, 'functions': [],
                  'contracts_used': [], 'assumptions': [], 'solver_time': 0, 'wall': deadline}

    while pend or run:
        while pend and len(run) < jobs:
            i, n = pend.pop(0)
            p = ctx.Process(target=worker, args=(module, n, deadline, q, i), daemon=True)
            p.start()
            run[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            out[i] = r
            p, _ = run.pop(i)
            p.join(2)
            if progress:
                progress(r)
            continue
        except queue.Empty:
            pass
        for i in list(run):
            p, t = run[i]
            if time.time() - t > deadline + 30:
                p.kill()
                p.join()
                run.pop(i)
                dead(i, f'time limit of {deadline} s')
            elif not p.is_alive():
                p.join()
                try:
                    while True:
                        j, r = q.get(timeout=0.3)
                        out[j] = r
                        run.pop(j, None)
                except queue.Empty:
                    pass
                if out[i] is None:
                    run.pop(i, None)
                    dead(i, f'verifier process ended ({p.exitcode})')
    return out


def native_run(binary, names, args, jobs=8, limit=120):
    """runs the native contracts, one process each; returns (fails, dones)"""
    fails, dones = [], []
    pend = list(names)
    run = []
    while pend or run:
        while pend and len(run) < jobs:
            n = pend.pop(0)
            p = subprocess.Popen([binary, '--only', n] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 text=True, start_new_session=True)
            run.append((n, p, time.time()))
        for x in list(run):
            n, p, t = x
            try:
                o, _ = p.communicate(timeout=0.05)
            except subprocess.TimeoutExpired:
                if time.time() - t > limit:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.communicate()
                    run.remove(x)
                continue
            run.remove(x)
            for l in o.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                (fails if e['event'] == 'fail' else dones).append(e)
    return fails, dones


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get('property') == pid and e.get('status') == 'known':
                out.append(e)
    return out


def short(n):
    return n[3:] if n.startswith('vc_') else n


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[pid]
    t0 = time.time()
    thorough = tier == 'thorough'
    deadline = P.get('deadline', 120) * (4 if thorough else 1)
    results, errors = [], []
    fails, dones = [], []
    bins = {}
    base = {}
    bp = os.path.join(VERIF, 'baseline', pid + '.json')
    if os.path.exists(bp):
        base = json.load(open(bp))
    for part in P['parts']:
        h, srcs = part['harness'], part['srcs']
        names = []
        # ---- verifier
        try:
            j = build.module_json(h, srcs, hooks.CUTS)
            mod = json.load(open(j))
            names = sorted(k for k in mod['functions'] if k.startswith('vc_'))
            names = [n for n in names if short(n) not in part.get('native_only', ())]
            only = os.environ.get('VF_ONLY')
            if only:
                names = [n for n in names if re.search(only, n)]
            # contracts that took long on the reference tree first
            names.sort(key=lambda n: -base.get(short(n), {}).get('wall', 1))
            rs = verify_all(mod, names, deadline)
            for r in rs:
                r['harness'] = h
            results += rs
        except build.BuildError as e:
            errors.append(str(e)[:3000])
        # ---- native
        try:
            b = build.native_bin(h, part.get('nsrcs', srcs))
            bins[h] = b
            ns = [l.split()[0] for l in subprocess.run([b, '--list'], capture_output=True, text=True).stdout.splitlines()]
            skip = set(part.get('no_native', ()))
            ns = [n for n in ns if n not in skip]
            if os.environ.get('VF_ONLY'):
                ns = [n for n in ns if re.search(os.environ['VF_ONLY'], 'vc_' + n)]
            secs = part.get('secs', 12) * (6 if thorough else 1)
            f, d = native_run(b, ns, ['--cases', str(part.get('cases', 3000) * (20 if thorough else 1)), '--secs',
                                      str(secs), '--seed', str(seed)], limit=secs + 60)
            for x in f + d:
                x['harness'] = h
            fails += f
            dones += d
        except build.BuildError as e:
            errors.append(str(e)[:3000])
    # ---- failed obligations
    bad, undecided = [], []
    for r in results:
        c = short(r['contract'])
        agg = {}
        for o in r['obligations']:
            a = agg.get(o['name'])
            order = {'proved': 0, 'unknown': 1, 'refuted': 2}
            if a is None or order.get(o['status'], 1) > order.get(a['status'], 1):
                agg[o['name']] = o
        r['agg'] = agg
        bc = base.get(c, {}).get('obligations', {})
        for n, o in agg.items():
            if o['status'] == 'proved':
                continue
            if o['status'] == 'refuted' and (bc.get(n) == 'proved' or not bc or n.startswith('vc_')):
                bad.append((r, o))
            else:
                undecided.append((r, o))
        if r['unsupported']:
            undecided.append((r, {'name': '*', 'status': 'not reached: ' + r['unsupported']}))
    natfail = {f['contract'] for f in fails}
    # ---- counterexample search on the real code for obligations that are not discharged
    need = {}
    for r, o in bad + [u for u in undecided if base.get(short(u[0]['contract']), {}).get('proved')]:
        c = short(r['contract'])
        if c not in natfail:
            need.setdefault(r['harness'], set()).add(c)
    for h, cs in need.items():
        if h in bins and time.time() - t0 < 500:
            for size, sd in ((4, 77), (2, 78)):
                cs = sorted(x for x in cs if x not in natfail)
                f, d = native_run(bins[h], cs, ['--cases', '400000', '--secs', '40', '--seed', str(seed + sd), '--size',
                                                str(size)], limit=110)
                for x in f + d:
                    x['harness'] = h
                fails += f
                natfail |= {x['contract'] for x in f}
    # ---- report
    kf = known_findings(pid)
    viol = []
    known = []
    seen = set()
    for f in fails:
        m = next((k for k in kf if k['contract'] == f['contract'] and re.search(k['what'], f['what']) and
                  re.search(k.get('notes', ''), f['notes'])), None)
        if m:
            known.append(m)
            continue
        if (f['contract'], f['what']) in seen:
            continue
        seen.add((f['contract'], f['what']))
        obl = [o['name'] for r, o in bad if short(r['contract']) == f['contract']]
        viol.append({'property': pid, 'kind': 'failing input', 'contract': f['contract'], 'obligation': f['what'],
                     'failed_obligations_of_the_verifier': obl, 'input': f['notes'], 'trail': f['trail'],
                     'harness': f['harness'],
                     'replay_cmd': f'python3-vt {VERIF}/vf/replay.py <this file>'})
    for r, o in bad:
        c = short(r['contract'])
        if c in natfail:
            continue
        m = next((k for k in kf if k['contract'] == c and re.search(k['what'], o['name'])), None)
        if m:
            known.append(m)
            continue
        if (c, o['name']) in seen:
            continue
        seen.add((c, o['name']))
        viol.append({'property': pid, 'kind': 'failed obligation', 'contract': c, 'obligation': o['name'],
                     'verifier_output': o, 'harness': r['harness'], 'functions': r['functions']})
    for k in {json.dumps(k, sort_keys=True) for k in known}:
        k = json.loads(k)
        print(f'KNOWN-FINDING: property={pid} {k["desc"]}')
    rd = os.path.join(BUILD_REPLAY, pid)
    os.makedirs(rd, exist_ok=True)
    for i, v in enumerate(viol):
        p = os.path.join(rd, f'{v["contract"]}-{i}.json')
        json.dump(v, open(p, 'w'), indent=1)
        print(f'contract {v["contract"]}: {v["obligation"]} ({v["kind"]})')
        print(f'VIOLATION property={pid} replay={p}' + ('' if v['kind'] == 'failing input' else ' no-failing-input-found'))
    ev = evidence(P, pid, tier, seed, results, dones, fails, bad, undecided, errors, viol, time.time() - t0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    c = ev['coverage']
    print(f'{pid}: {c["obligations"]} obligations, {c["discharged"]} discharged, {len(c["contracts"])} contracts, '
          f'{len(c["contracts_not_fully_proved"])} not fully proved, {c["bounded_cases"]} bounded cases, '
          f'{time.time() - t0:.0f} s')
    for x in c['contracts_not_fully_proved']:
        print('   not proved:', x)
    for e in errors:
        print('build:', e[:1500])
    if os.environ.get('VF_BASELINE'):
        os.makedirs(os.path.join(VERIF, 'baseline'), exist_ok=True)
        b = {}
        for r in results:
            b[short(r['contract'])] = {
                'proved': not r['unsupported'] and all(o['status'] == 'proved' for o in r['agg'].values()),
                'wall': round(r.get('wall', 0)), 'obligations': {n: o['status'] for n, o in sorted(r['agg'].items())}}
        json.dump(b, open(bp, 'w'), indent=1, sort_keys=True)
    sys.exit(1 if viol else 2 if errors else 0)


BUILD_REPLAY = os.path.join(build.BUILD, 'replay')


def evidence(P, pid, tier, seed, results, dones, fails, bad, undecided, errors, viol, wall):
    n = sum(len(r['obligations']) for r in results)
    d = sum(1 for r in results for o in r['obligations'] if o['status'] == 'proved')
    fns = sorted({f for r in results for f in r['functions']})
    real = [f for f in fns if 'lanelet::' in f]
    trusted = sorted({f for r in results for f in r['contracts_used']})
    backends = {}
    for r in results:
        for o in r['obligations']:
            if o['status'] == 'proved':
                backends[o['backend'] or 'simplifier'] = backends.get(o['backend'] or 'simplifier', 0) + 1
    notp = []
    contracts = []
    for r in results:
        c = short(r['contract'])
        ok = not r['unsupported'] and r['obligations'] and all(o['status'] == 'proved' for o in r['obligations'])
        vac = [k for k, v in r['covers'].items() if not v]
        contracts.append({'contract': c, 'obligations': len(r['obligations']),
                          'discharged': sum(1 for o in r['obligations'] if o['status'] == 'proved'),
                          'names': sorted(r.get('agg', {})), 'wall_s': r.get('wall'), 'solver_s': r['solver_time'],
                          'unreached_covers': vac})
        if not ok or vac:
            why = r['unsupported'] or ', '.join(f'{o["name"]}: {o["status"]}' for o in r.get('agg', {}).values()
                                                if o['status'] != 'proved')
            if vac:
                why += ' vacuous: ' + ', '.join(vac)
            notp.append(f'{c} (bounded only): {why}'[:400])
    cov = {'obligations': n, 'discharged': d,
           'checker_cmd': f'python3-vt vf/check.py {pid}',
           'trusted_base': ['clang 18 front end (C++ to LLVM IR, -O1 -disable-llvm-passes; then opt sroa, simplifycfg, '
                            'early-cse, loop-simplify)', 'the VC generator in /verif/vf and tools/irdump.cpp',
                            'z3 4.x, cvc5 1.1.2'] + trusted,
           'by_back_end': backends,
           'solver_s': round(sum(r['solver_time'] for r in results), 1),
           'functions_verified': real, 'library_functions_executed_symbolically': len(fns) - len(real),
           'contracts': contracts, 'contracts_not_fully_proved': notp,
           'bounded_cases': sum(x['cases'] for x in dones),
           'bounded_runs': [{'contract': x['contract'], 'bounded_only': x['bounded'], 'cases': x['cases'],
                             'distinct': x['distinct'], 'discarded_by_precondition': x['discarded'],
                             'sample': x['sample'][:300]} for x in dones],
           'evaluations': sum(x['cases'] for x in dones),
           'distinct_nontrivial': sum(x['distinct'] for x in dones),
           'rule': 'bounded part: arguments of the contract drawn by the generators of harness/vf_gen.h (lines of up to '
                   '5 points, shared and inverted primitives); a case counts when it meets every precondition, distinct by '
                   'its choice sequence',
           'samples': [x['contract'] + ': ' + x['sample'][:200] for x in dones[:5]],
           'build_errors': errors}
    ass = sorted({a for r in results for a in r['assumptions']} | set(P.get('assumptions', ())) | {
        'machine arithmetic on floating point values is treated as real arithmetic',
        'signed and unsigned 64 bit counters do not overflow (container sizes stay below 2^62)',
        'distinct reference arguments do not alias unless the contract aliases them through shared data'})
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov, 'assumptions': ass,
            'wall_s': round(wall, 1), 'violations': len(viol)}


if __name__ == '__main__':
    main()
