"""Identity prover: polynomial residues that must vanish (exactly or modulo a constant)."""
import random, time
import terms as T
import solver

DEBUG = False

def sample(a, rng):
    lo, hi = a.lo, a.hi
    if lo is None: lo = -(1 << 70) if hi is None else hi - (1 << 70)
    if hi is None: hi = lo + (1 << 70)
    r = rng.random()
    if r < .25: return lo
    if r < .5: return hi
    if r < .6: return min(hi, lo + rng.randrange(4))
    if r < .7: return max(lo, hi - rng.randrange(4))
    return rng.randint(lo, hi)

def make_env(rng, forced=None, uniform=False):
    seen = {}
    def env(a):
        if forced and a.id in forced: return forced[a.id]
        if a.id not in seen:
            lo, hi = a.lo, a.hi
            if uniform and lo is not None and hi is not None: seen[a.id] = rng.randint(lo, hi)
            else: seen[a.id] = sample(a, rng)
        return seen[a.id]
    env.seen = seen
    return env

def pc_holds(env, memo, pc):
    try: return all(T.evaluate(c, env, memo) for c in pc)
    except T.Unsupported: return False

def search(goal, pc, tries=300, seed=1, model=None, sampler=None):
    """concrete assignment of the unit's symbolic inputs that satisfies pc and falsifies goal"""
    rng = random.Random(seed)
    for k in range(tries + 1):
        forced = None
        if k == 0:
            if not model: continue
            forced = {i: v for i, v in model.items() if i < len(T.AT) and T.AT[i].kind == 'var'}
        env = sampler(rng) if sampler and k and k % 2 else make_env(rng, forced)
        memo = {}
        try:
            if pc and not pc_holds(env, memo, pc): continue
            if not T.evaluate(goal, env, memo):
                for a in T.AT:
                    if a.kind == 'var' and a.id in memo: pass
                return {T.AT[i].name or T.AT[i].id: v for i, v in memo.items() if i < len(T.AT) and T.AT[i].kind == 'var'}
        except (T.Unsupported, KeyError): return None
    return None

def center(p, M):
    q = {}
    for m, c in p.items():
        c %= M
        if c > M // 2: c -= M
        if c: q[m] = c
    return q

def _addp(q, p, c):
    q = dict(q)
    for m, d in p.items():
        e = q.get(m, 0) + c * d
        if e: q[m] = e
        else: q.pop(m, None)
    return q

def divisors(D, M, limit=12):
    """turn multiples of floor divisions by M into zero by unfolding:  (M/g)*fdiv(P, M/g') ... """
    return D

def prove_zero(D, modulus=None, pc=None, tries=200, timeout=None):
    """returns (status, info): D == 0 (mod modulus)"""
    if modulus: D = T.mk(center(T.poly(D), modulus)) if not isinstance(D, int) else D % modulus
    if isinstance(D, int): return ('proved', 'normal form') if D == 0 else ('refuted', {})
    goal = None
    rng = random.Random(7)
    samples = []
    for k in range(tries * (3 if pc else 1)):
        if len(samples) >= tries: break
        env = make_env(rng, uniform=k % 2 == 0); memo = {}
        if pc and not pc_holds(env, memo, pc): continue
        v = T.evaluate(D, env, memo)
        if (v % modulus if modulus else v):
            return 'refuted', {T.AT[i].name: x for i, x in memo.items() if T.AT[i].kind == 'var'}
        samples.append((env, memo))
    # groups of monomials by coefficient magnitude; each must be constant
    gr = {}
    for m, c in D.p.items():
        if m: gr.setdefault(abs(c), {})[m] = 1 if c > 0 else -1
    tot = D.p.get((), 0)
    if samples:
        ok = True; t0 = time.time()
        for c, q in gr.items():
            v = prove_const(q, samples, timeout)
            if DEBUG: print('   group', hex(c), T.mk(q), v, round(time.time() - t0, 2)); t0 = time.time()
            if v is None: ok = False; break
            tot += c * v
        if ok and (tot % modulus if modulus else tot) == 0: return 'proved', 'carry groups (z3)'
    if modulus:
        # D = modulus * k within its interval
        lo, hi = T.deep(D)
        if lo is not None and hi is not None and hi - lo < 64 * modulus:
            g = T.bany([T.eq(D, k * modulus) for k in range(-(-lo // modulus), hi // modulus + 1)])
            r, env = solver.prove(g, timeout=timeout)
            return r, env
        return 'unknown', None
    return solver.prove(T.eq0(D), timeout=timeout)

def prove_const(q, samples, timeout=None):
    """value v such that the polynomial q == v, proved segment by segment; None if it fails"""
    ms = sorted(q)
    whole = {sum(T.evaluate(T.V({m: c}, None, None), e, mm) for m, c in q.items()) for e, mm in samples}
    if len(whole) != 1: return None
    if len(ms) > 1 and prove_eq(T.mk(q), min(whole), 1000): return min(whole)
    tot = 0; i = 0
    vals = {m: [T.evaluate(T.V({m: c}, None, None), e, mm) for e, mm in samples] for m, c in q.items()}
    while i < len(ms):
        acc = [0] * len(samples); j = i; done = False
        while j < len(ms):
            acc = [x + y for x, y in zip(acc, vals[ms[j]])]
            j += 1
            if len(set(acc)) != 1: continue
            v = acc[0]
            w = T.mk({m: q[m] for m in ms[i:j]})
            if prove_eq(w, v, 1000 if j < len(ms) else timeout):
                tot += v; i = j; done = True; break
        if not done: return None
    return tot

def prove_eq(w, v, timeout=None):
    if isinstance(w, int): return w == v
    if solver.prove(T.eq0(T.sub(w, v)), timeout=timeout)[0] == 'proved': return True
    lo, hi = T.deep(T.sub(w, v))
    return solver.prove(T.ge(w, v), timeout=timeout)[0] == 'proved' and solver.prove(T.le(w, v), timeout=timeout)[0] == 'proved'
