#!/usr/bin/env python3-vt
"""check.py --property ID [--tier quick|thorough]: rebuild the MIR of /repo's working tree, generate and
discharge the obligations of every unit the property depends on, write evidence/<ID>.json.
Exit 0: everything discharged.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import sys, os, json, time, argparse, multiprocessing as mp, importlib, traceback, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import build

MODULES = [l.strip() for l in open(os.path.join(ROOT, 'engine', 'modules.txt')) if l.strip()]
for m in MODULES: importlib.import_module(m)
import ctx, mir, props, native

CONE = json.load(open(os.path.join(ROOT, 'engine', 'cone.json')))
def cone(names):
    """the units that verify the contracts used at the call sites of the given units (CONE: measured by --gen-cone on the committed tree)"""
    out = list(names); todo = list(names)
    while todo:
        for c in CONE['uses'].get(todo.pop(), []):
            for u in CONE['verified_by'].get(c, []):
                if u not in out and u in ctx.UNITS: out.append(u); todo.append(u)
    return out

PROG = None
def worker(name):
    try: return ctx.run_unit(PROG, name)
    except BaseException as e:
        return dict(unit=name, secs=0, obligs=[], ntriv=0, functions=[], inlined=[], contracts=[], trusted=[], cases=0, notes=[], bounded=[], assumed=[],
                    error=('tool-error', repr(e), traceback.format_exc()[-1500:]), z3=0, z3time=0)

def child(q, name):
    r = worker(name)
    q.put(r)

def run_units(names, jobs):
    """each unit in its own forked process (fresh solver state), longest first"""
    import queue
    times = json.load(open(os.path.join(ROOT, 'engine', 'times.json'))) if os.path.exists(os.path.join(ROOT, 'engine', 'times.json')) else {}
    todo = sorted(names, key=lambda n: -times.get(n, 5))
    q = mp.Queue(); live = {}; out = {}
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            p = mp.Process(target=child, args=(q, n)); p.start(); live[n] = (p, time.time())
        try:
            r = q.get(timeout=1); out[r['unit']] = r
            p, _ = live.pop(r['unit']); p.join(5)
            if p.is_alive(): p.kill()
            continue
        except queue.Empty: pass
        for n, (p, t0) in list(live.items()):
            dead = not p.is_alive()
            if dead:
                try:
                    r = q.get(timeout=1); out[r['unit']] = r; live.pop(r['unit'])[0].join(5); continue
                except queue.Empty: pass
            if dead or time.time() - t0 > ctx.UNITS[n].budget + (60 if ctx.TIER[0] == 'quick' else 300):
                if p.is_alive(): p.kill()
                live.pop(n)
                out[n] = dict(unit=n, secs=time.time() - t0, obligs=[], ntriv=0, functions=[], inlined=[], contracts=[], trusted=[], cases=0, notes=[], bounded=[], assumed=[],
                              error=('budget', 'the process was killed or ended', ''), z3=0, z3time=0)
    return [out[n] for n in names]

def main():
    global PROG
    ap = argparse.ArgumentParser()
    ap.add_argument('--property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit', action='append'); ap.add_argument('-j', type=int, default=8); ap.add_argument('--nobuild', action='store_true')
    ap.add_argument('--gen-cone', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    lk = build.lock()
    if a.nobuild: mirjson = os.path.join(build.BUILD, 'mir.json')
    else: mirjson = build.mir()
    tb = time.time() - t0
    PROG = mir.Prog(mirjson); ctx.TIER[0] = a.tier
    names = [n for n, u in ctx.UNITS.items() if (a.property in u.props if a.property else True)]
    own = list(names)
    if a.property: names = cone(names)
    if a.unit: names = [n for n in names if any(n.startswith(x) for x in a.unit)]
    res = run_units(names, a.j)
    if a.property and not a.unit:
        while True:      # contracts which only the changed source uses
            more = [u for r in res for c in r['contracts'] for u in CONE['verified_by'].get(c, []) if u in ctx.UNITS]
            more = [u for u in dict.fromkeys(more) if u not in names]
            if not more: break
            names += more; res += run_units(more, a.j)
    fails = []
    for r in res:
        for o in r['obligs']:
            if o['status'] != 'proved': fails.append((r, o))
        if r['error']:
            k, msg, where = r['error']
            fails.append((r, dict(unit=r['unit'], kind='limit:' + k, desc='the obligations of unit %s could not all be generated: %s' % (r['unit'], msg), status='undischarged', method='', secs=0, env={}, where=where)))
    if not a.property:
        for r in res: print('%-28s %6.1fs %4d obligations %s' % (r['unit'], r['secs'], len(r['obligs']), r['error'] or ''))
        for r, o in fails[:12]: print('  ', r['unit'], o['kind'], o['desc'][:200], o['status'], o['where'], str(o['env'])[:300])
        if a.gen_cone:
            by = {}
            for r in res:
                for f in r['functions']: by.setdefault(f, []).append(r['unit'])
            used = {c for r in res for c in r['contracts']}
            json.dump(dict(verified_by={c: sorted(by[c]) for c in sorted(used) if c in by}, uses={r['unit']: [c for c in r['contracts'] if c in by] for r in res}),
                      open(os.path.join(ROOT, 'engine', 'cone.json'), 'w'), indent=0)
        if not a.unit:
            json.dump({r['unit']: round(r['secs'], 1) for r in res}, open(os.path.join(build.BUILD, 'times.json'), 'w'), indent=0)
        print('total', round(time.time() - t0, 1), 's; cpu', round(sum(r['secs'] for r in res), 1))
        return 1 if fails else 0
    return verdict(a, seed, t0, tb, res, fails, lk)

def verdict(a, seed, t0, tb, res, fails, lk):
    pid = a.property
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    tool = [f for f in fails if f[1]['kind'] == 'limit:tool-error']
    nat = native.check(pid, a.tier, seed, fails)
    viol = []; knownhits = []
    for case in nat['failures']:
        k = match_known(known, pid, case)
        if k: knownhits.append(k)
        else: viol.append(case)
    violations = []
    rdir = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.json')
    if os.path.exists(rp): os.unlink(rp)
    real = [f for f in fails if f not in tool]
    if real or viol or tool:
        rep = dict(property=pid, failed_obligations=[dict(o, functions=r['functions']) for r, o in fails][:60], native_failures=viol[:20],
                   how_to_replay='python3-vt %s/engine/native.py --replay %s' % (ROOT, rp), native=nat.get('summary'))
        json.dump(rep, open(rp, 'w'), indent=1, default=str)
    for r, o in fails[:30]:
        print('FAILED obligation [%s] %s: %s (%s)%s' % (r['unit'], o['kind'], o['desc'][:300], o['status'], ' in ' + o['where'][:200] if o['where'] else ''))
        if (o['env'] or {}).get('input'): print('   counterexample of the contract: %s' % str(o['env']['input'])[:400])
    for c in viol[:5]: print('FAILING INPUT: %s' % json.dumps(c, default=str)[:600])
    for k in sorted(set(knownhits)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    nobl = sum(len(r['obligs']) + r['ntriv'] for r in res)
    ndis = nobl - sum(1 for _, o in fails if not o['kind'].startswith('limit'))
    ev = evidence(a, seed, res, fails, nobl, ndis, nat, t0, tb, len(viol) + (1 if real and not viol else 0))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d of %d obligations discharged in %d units, %.1f s (build %.1f s); native cases %d' % (pid, ndis, nobl, len(res), time.time() - t0, tb, nat['evaluations']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    if real or tool:
        # the proof could not be rebuilt from the changed source and no failing input was found
        if tool and not real: print('internal error of the verifier: ' + tool[0][1]['where'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); return 1
    return 0

def match_known(known, pid, case):
    for k in known.get('findings', []):
        if k.get('status') == 'open' and k['property'] == pid and all(case.get(x) == v for x, v in k['match'].items()): return k['what']
    return None

def evidence(a, seed, res, fails, nobl, ndis, nat, t0, tb, nviol):
    P = props.PROPS[a.property]
    meth = {}
    for r in res:
        meth['symbolic evaluation (no residual goal)'] = meth.get('symbolic evaluation (no residual goal)', 0) + r['ntriv']
        for o in r['obligs']:
            if o['status'] == 'proved': meth[o['method'] or '?'] = meth.get(o['method'] or '?', 0) + 1
    samples = []
    for r in res:
        for o in r['obligs'][:2]: samples.append('%s | %s | %s | %s | %.2fs' % (r['unit'], o['kind'], o['desc'][:140], o['method'], o['secs']))
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='python3-vt %s/check.py --property %s --tier %s' % (ROOT, a.property, a.tier),
               trusted_base=props.TRUSTED + sorted(set(x for r in res for x in r['trusted']))[:200],
               functions_under_contract=sorted(set(x for r in res for x in r['functions'])),
               functions_inlined=sorted(set(x for r in res for x in r['inlined'])),
               contracts_used_at_call_sites=sorted(set(x for r in res for x in r['contracts'])),
               discharged_by=meth, cases=sum(r['cases'] for r in res),
               solver_calls=sum(r['z3'] for r in res), solver_seconds=round(sum(r['z3time'] for r in res), 1),
               units={r['unit']: dict(obligations=len(r['obligs']) + r['ntriv'], seconds=round(r['secs'], 1), error=r['error'], bounded=r['bounded'], notes=r['notes']) for r in res},
               cross_check_cvc5={k: sum((r.get('cross') or {}).get(k, 0) for r in res) for k in ('confirmed', 'undecided', 'contradicted')} if a.tier == 'thorough' else 'thorough tier only',
               samples=samples[:40], undischarged=[dict(unit=r['unit'], kind=o['kind'], desc=o['desc'][:300]) for r, o in fails],
               native=dict(nat.get('summary') or {}, role='counterexample search on the real code and validation of the trusted contracts; bounded, never counted as proved', evaluations=nat['evaluations'], samples=nat['samples'][:5]),
               build_seconds=round(tb, 1))
    return dict(property=a.property, tier=a.tier, seed=seed, level=P.get('level', 'proof'), coverage=cov, assumptions=props.ASSUME + P.get('assume', []) + sorted(set(x for r in res for x in r['assumed'])),
                wall_s=round(time.time() - t0, 1), violations=nviol)

if __name__ == '__main__':
    try: rc = main()
    except build.BuildError as e:
        print('BUILD FAILED\n' + str(e)); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
