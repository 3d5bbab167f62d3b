"""z3 back end: decides 0/1 goals over linear integer arithmetic with division atoms."""
import time
import z3
import terms as T

TIMEOUT = 5000
HOOKS = {}     # atom kind -> f(atom, tr) returning list of constraints on tr.atom(atom)

class Tr:
    def __init__(s):
        s.m = {}; s.cons = []; s.monos = {}; s.pending = []

    def atom(s, a):
        r = s.m.get(a.id)
        if r is not None: return r
        if a.isb:
            b = z3.Bool('b%d' % a.id)
            r = s.m[a.id] = (b, z3.If(b, z3.IntVal(1), z3.IntVal(0)))
        else:
            i = z3.Int('a%d' % a.id)
            r = s.m[a.id] = (None, i)
            if a.lo is not None: s.cons.append(i >= a.lo)
            if a.hi is not None: s.cons.append(i <= a.hi)
        s.pending.append(a)
        return r

    def define(s, a):
        b, i = s.m[a.id]
        k = a.kind
        if k == 'fdiv':
            P, M = a.args
            p = s.val(P)
            c = [p >= M*i, p <= M*i + (M-1)]
            if a.guard:
                g = z3.And([s.bool(x) for x in a.guard])
                c = [z3.Implies(g, z3.And(c))]
            s.cons += c
        elif k == 'ge0': s.cons.append(b == (s.val(a.args[0]) >= 0))
        elif k == 'eq0': s.cons.append(b == (s.val(a.args[0]) == 0))
        elif k == 'and': s.cons.append(b == z3.And([s.bool(x) for x in a.args]))
        elif k in HOOKS: s.cons += HOOKS[k](a, s)

    def mono(s, m):
        if len(m) == 1: return s.atom(T.AT[m[0]])[1]
        r = s.monos.get(m)
        if r is not None: return r
        bs = [x for x in m if T.ISB[x]]
        rest = tuple(x for x in m if not T.ISB[x])
        if bs:
            c = z3.And([s.atom(T.AT[x])[0] for x in bs])
            r = z3.If(c, s.mono(rest) if rest else z3.IntVal(1), z3.IntVal(0))
        else:
            r = z3.Int('m' + '_'.join(map(str, m)))
            lo, hi = T.monoiv(m)
            if lo is not None: s.cons.append(r >= lo)
            if hi is not None: s.cons.append(r <= hi)
        s.monos[m] = r
        return r

    def val(s, v):
        if isinstance(v, int): return z3.IntVal(v)
        ts = []
        for m, c in v.p.items():
            if not m: ts.append(z3.IntVal(c)); continue
            t = s.mono(m)
            ts.append(t if c == 1 else c*t)
        r = z3.Sum(ts) if len(ts) > 1 else ts[0]
        return r

    def bool(s, v):
        if isinstance(v, int): return z3.BoolVal(bool(v))
        l = T.lit(v)
        if l and l[0].isb:
            b = s.atom(l[0])[0]
            return b if l[1] else z3.Not(b)
        return s.val(v) == 1

    def close(s):
        while s.pending: s.define(s.pending.pop())

CROSS = [None]   # thorough tier: the queries z3 found unsatisfiable, to be put to cvc5 as well
def crosscheck(seconds=150, each=4):
    """the collected queries through cvc5: counts of confirmed, undecided within the time, contradicted"""
    import subprocess
    qs = sorted(set(CROSS[0]), key=len); end = time.time() + seconds; n = dict(confirmed=0, undecided=0, contradicted=0)
    for q in qs:
        if time.time() > end: n['undecided'] += 1; continue
        try: r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (1000*each)], input='(set-logic ALL)\n' + q, capture_output=True, text=True, timeout=each + 5).stdout.split()
        except subprocess.TimeoutExpired: r = []
        n['confirmed' if 'unsat' in r else 'contradicted' if 'sat' in r else 'undecided'] += 1
    return n

RETRY = [90.0]   # seconds one unit may spend on second attempts
def _z3run(cons, timeout, retry=True, weak=None):
    """short attempts first (the same constraints in another order often take z3 a different way), then long ones;
    weak is a subset of the constraints: only its unsatisfiability counts"""
    if timeout < 3000 or not retry: return _z3once(cons, timeout)
    rev = cons[::-1]
    t = time.time()
    r, so = _z3once(cons, min(timeout, 1500))
    if r != z3.unknown: return r, so
    for q, ms, opts in ((weak, 1500, {}), (rev, 1500, {}), (cons, timeout, {'random_seed': 3}), (rev, timeout, {'random_seed': 5}),
                        (weak, timeout, {}), (cons, timeout, {'smt.arith.solver': 2}), (rev, 4 * timeout, {}), (cons, 4 * timeout, {'smt.arith.solver': 2, 'random_seed': 7})):
        if q is None: continue
        if RETRY[0] <= 0: break
        t = time.time()
        r, so = _z3once(q, int(min(ms, 1000 * RETRY[0] + 1)), opts)
        RETRY[0] -= time.time() - t
        if r == z3.unsat or (r == z3.sat and q is not weak): return r, so
    return z3.unknown, so

def _z3once(cons, timeout, opts=None):
    so = z3.Solver()
    so.set('timeout', timeout)
    for k, v in (opts or {}).items(): so.set(k, v)
    so.add(cons)
    t = time.time()
    r = so.check()
    T.STATS['z3'] += 1
    T.STATS['z3time'] += time.time() - t
    return r, so

def proved(so):
    if CROSS[0] is not None: CROSS[0].append(so.to_smt2())
    return 'proved', None

def prove(goal, extra=(), timeout=None, usepc=True):
    """('proved'|'refuted'|'unknown', model-or-None).  'refuted' means: no proof; z3 gives a model of the
    abstraction (monomials may be independent)."""
    if isinstance(goal, int):
        if goal: return 'proved', None
    g = T.subst_pc(goal)
    if isinstance(g, int) and g: return 'proved', None
    tr = Tr()
    goalz = tr.bool(g)
    tr.close()
    cons = [z3.Not(goalz)]
    weak = cons + tr.cons
    facts = list(extra) + (list(T.PC) if usepc else [])
    # facts sharing atoms with the goal closure, transitively
    rest = [(f, _atoms(f)) for f in facts]
    changed = True
    while changed and rest:
        changed = False
        keep = []
        for f, ids in rest:
            if ids & tr.m.keys():
                cons.append(tr.bool(f)); tr.close(); changed = True
            else: keep.append((f, ids))
        rest = keep
    r, so = _z3run(cons + tr.cons, timeout or TIMEOUT, weak=weak if len(rest) < len(facts) else None)
    if r == z3.unsat: return proved(so)
    if rest:
        for f, _ in rest: cons.append(tr.bool(f))
        tr.close()
        r, so = _z3run(cons + tr.cons, timeout or TIMEOUT)
        if r == z3.unsat: return proved(so)
    if r == z3.sat:
        m = so.model()
        env = {}
        for aid, (b, i) in tr.m.items():
            try:
                if b is not None: env[aid] = 1 if z3.is_true(m.eval(b, model_completion=True)) else 0
                else: env[aid] = m.eval(i, model_completion=True).as_long()
            except Exception: pass
        return 'refuted', env
    return 'unknown', None

_AC = {}
def _atoms(v):
    """atoms of v, transitively through definitions"""
    if isinstance(v, int): return frozenset()
    out = set()
    for m in v.p:
        for x in m: out |= _atom_closure(x)
    return out

def _atom_closure(x):
    r = _AC.get(x)
    if r is not None: return r
    a = T.AT[x]
    out = {x}
    for g in a.args:
        if isinstance(g, T.V): out |= _atoms(g)
    r = _AC[x] = frozenset(out)
    return r
T.RESET_HOOKS.append(_AC.clear)

def feasible(timeout=5000):
    """is the path condition satisfiable (unknown counts as feasible)"""
    if not T.PC: return True
    tr = Tr()
    cons = [tr.bool(f) for f in T.PC]
    tr.close()
    r, _ = _z3run(cons + tr.cons, timeout, False)
    return r != z3.unsat
