#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | --replay <file>

exit 0: the property held on everything explored: every obligation was discharged by the solver (a PARTIAL line and the
        evidence name tasks that ran out of time or could not be encoded, at most a fifth of them);
exit 1: a counterexample was found and confirmed against the native build (VIOLATION line);
exit 2: no answer (an obligation was refuted but no counterexample replays, or too little could be decided)."""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import run
import irgen
import props

EV = os.path.join(HERE, 'evidence')


def known(pid):
    """listed findings: lines `finding: property=<id> key=<oracle case key> <text>`"""
    out = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding: property=%s ' % pid):
                k, _, text = l.split('key=', 1)[1].strip().partition(' ')
                out.append((k, text))
    return out


def key(v):
    import hashlib
    return hashlib.sha1(json.dumps([v['oracle'], v['case']], sort_keys=True).encode()).hexdigest()[:16]


def replay(path):
    d = json.load(open(path))
    ctx, b, _ = run.prepare('quick', 1)
    try:
        props.load(d['oracle'])
        found, n = run.run_cases(ctx.nat, d['oracle'], [d['case']])
    finally:
        run.cleanup(ctx)
    if found:
        print('reproduced: %s' % found[0][1])
        return 1
    print('not reproduced')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid, seed = a.property, int(os.environ.get('VERIF_SEED', '1'))
    kn = dict(known(pid))
    t0 = time.time()
    try:
        ctx, b, parse_s = run.prepare(a.tier, seed)
    except irgen.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        return 2
    try:
        ts = props.tasks(ctx, pid)
        rs = run.run_tasks(ctx, ts, verbose=a.v, enough=lambda r: any(key(v) not in kn for v in r['viol']),
                           deadline=780 if a.tier == 'quick' else None)
    finally:
        run.cleanup(ctx)
    os.makedirs(os.path.join(EV, 'replays'), exist_ok=True)
    viol, seen = [], set()
    for r in rs:
        for v in r['viol']:
            v['key'] = key(v)
            if v['key'] in kn:
                seen.add(v['key'])
            else:
                viol.append((r['name'], v))
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    open_ = [r for r in rs if r['status'] in ('failed', 'inconclusive') and not any(v['key'] not in kn for v in r['viol'])
             and not (r['viol'] and all(v['key'] in kn for v in r['viol']))]
    funcs, stubs, items, bnds = {}, {}, 0, []
    st = {'queries': 0, 'solver_s': 0.0}
    agg = {}
    paths = steps = vac = 0
    for r in rs:
        L = r.get('log')
        if not L:
            continue
        for k, n in L['funcs'].items():
            funcs[k] = funcs.get(k, 0) + n
        for k, n in L['stubs'].items():
            stubs[k] = stubs.get(k, 0) + n
        items += len(L['items'])
        paths += L['paths']
        steps += L['steps']
        vac += L['vac']
        for x in L['bounds']:
            if x not in bnds:
                bnds.append(x)
        for k, n in r['stats'].items():
            if isinstance(n, (int, float)):
                agg[k] = agg.get(k, 0) + n
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'symbolic execution of the LLVM IR of the current tree; each obligation is an SMT query whose unsat answer covers every value within the bounds',
            'tasks': [{'name': r['name'], 'status': r['status'], 'wall_s': round(r['wall'], 2), 'bounds': r.get('bounds', ''),
                       'obligations': len(r['log']['items']) if r.get('log') else 0, 'note': (r['narrow'] or r['msg'])[:300]} for r in rs],
            'functions_encoded': {k: funcs[k] for k in sorted(funcs)},
            'functions_replaced_by_verified_contracts': {k: stubs[k] for k in sorted(stubs)},
            'obligations_discharged': items, 'paths': paths, 'instructions_executed': steps, 'vacuity_witnesses': vac,
            'solver': {k: (round(v, 3) if isinstance(v, float) else v) for k, v in agg.items()},
            'notes': bnds, 'ir_units': b['units'], 'build_s': round(b['seconds'], 2), 'parse_s': round(parse_s, 2),
        },
        'assumptions': props.TRUST + props.ASSUME.get(pid, []),
        'violations': len(viol), 'wall_s': round(time.time() - t0, 2),
    }
    if open_:
        ev['coverage']['not_decided'] = ['%s: %s' % (r['name'], r['msg'][:200]) for r in open_]
    json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)
    for r in open_:
        print('OPEN %s: %s: %s' % (r['status'], r['name'], r['msg'][:600]))
    if viol:
        name, v = viol[0]
        f = os.path.join('evidence', 'replays', '%s-%s.json' % (pid, v['key']))
        json.dump({'property': pid, 'task': name, **v}, open(os.path.join(HERE, f), 'w'), indent=1)
        print('%s: %s' % (name, v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    soft = [r for r in open_ if r['status'] == 'inconclusive']
    if len(soft) < len(open_) or len(soft) * 5 > len(rs):
        return 2
    if soft:
        print('PARTIAL: %d of %d tasks were not decided (above); the property held on everything explored' % (len(soft), len(rs)))
    print('%s: %d tasks, %d obligations discharged, %d solver queries, %.1f s' % (pid, len(rs), items, agg.get('queries', 0), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
