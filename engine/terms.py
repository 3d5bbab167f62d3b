"""Integer terms of the verification-condition generator.

A value is a Python int or a V: a polynomial with integer coefficients over atoms, with an interval.
Atoms are symbolic inputs, floor divisions by constants, 0/1 truth values of comparisons and of
and/or combinations, and a few opaque bit operations.  Everything is exact integer arithmetic; the
machine width enters only through the explicit floor divisions that wrap-around produces.
"""
from math import gcd
from functools import reduce
from fractions import Fraction

class Unsupported(Exception):
    pass

INF = None

class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'isb', 'name', 'guard')

    def __init__(s, id, kind, args, lo, hi, name, guard=None):
        s.id = id; s.kind = kind; s.args = args; s.lo = lo; s.hi = hi
        s.isb = (lo == 0 and hi == 1); s.name = name; s.guard = guard

    def __repr__(s):
        return s.name or '%s%d' % (s.kind, s.id)

AT = []
ISB = []
INTERN = {}
_MONOIV = {}
ICACHE = {}
SCOPE = []        # stack of undo lists for scoped caches
PC = []           # path condition: list of 0/1 values assumed true
PCLIT = {}        # atom id -> 0/1 known on this path
STATS = {'z3': 0, 'z3time': 0.0, 'interval': 0, 'poly': 0, 'split': 0}

def reset():
    AT.clear(); ISB.clear(); INTERN.clear(); _MONOIV.clear(); ICACHE.clear(); SCOPE.clear(); PC.clear(); PCLIT.clear()
    _MM.clear()
    for f in RESET_HOOKS: f()
RESET_HOOKS = []

class V:
    __slots__ = ('p', 'lo', 'hi', '_k')

    def __init__(s, p, lo, hi):
        s.p = p; s.lo = lo; s.hi = hi; s._k = None

    @property
    def k(s):
        if s._k is None: s._k = frozenset(s.p.items())
        return s._k

    def __repr__(s):
        return show(s)
    def __deepcopy__(s, m): return s
    def __copy__(s): return s

def show(v, n=12):
    if isinstance(v, int): return str(v) if abs(v) < 10**6 else hex(v)
    out = []
    for m, c in sorted(v.p.items())[:n]:
        cs = str(c) if abs(c) < 10**6 else hex(c)
        out.append(cs + ('*' + '*'.join(map(lambda a: repr(AT[a]), m)) if m else ''))
    return '(' + ' + '.join(out) + (' + ...%d' % len(v.p) if len(v.p) > n else '') + ')[%s,%s]' % (hx(v.lo), hx(v.hi))

def hx(v):
    if v is None: return 'inf'
    return str(v) if abs(v) < 10**6 else hex(v)

# ---------------------------------------------------------------- atoms
def atom(kind, args, lo, hi, name=None, key=None, guard=None):
    if key is not None:
        a = INTERN.get(key)
        if a is not None: return a
    a = Atom(len(AT), kind, args, lo, hi, name, guard)
    AT.append(a); ISB.append(a.isb)
    if key is not None:
        if guard is not None and SCOPE:
            SCOPE[-1].append((INTERN, key, None, False))
        INTERN[key] = a
    return a

def av(a):
    if a.lo is not None and a.lo == a.hi: return a.lo
    return V({(a.id,): 1}, a.lo, a.hi)

def var(name, lo=None, hi=None):
    return av(atom('var', (), lo, hi, name))

def boolvar(name):
    return var(name, 0, 1)

# ---------------------------------------------------------------- scoped dict writes
_MISS = object()
def sset(d, k, v):
    if SCOPE: SCOPE[-1].append((d, k, d.get(k, _MISS), True))
    d[k] = v

def push_scope():
    SCOPE.append([]); return len(PC)

def pop_scope(npc):
    for d, k, old, _ in reversed(SCOPE.pop()):
        if old is _MISS or old is None: d.pop(k, None)
        else: d[k] = old
    del PC[npc:]

# ---------------------------------------------------------------- monomials
_MM = {}
def mmul(a, b):
    if not a: return b
    if not b: return a
    k = (a, b)
    r = _MM.get(k)
    if r is None:
        l = sorted(a + b)
        out = []
        for x in l:
            if out and out[-1] == x and ISB[x]: continue
            out.append(x)
        r = tuple(out)
        _MM[k] = r
    return r

def monoiv(m):
    r = _MONOIV.get(m)
    if r is not None: return r
    if len(m) == 1:
        a = AT[m[0]]; r = (a.lo, a.hi)
    else:
        lo = hi = 1
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]: j += 1
            a = AT[m[i]]; e = j - i
            r1 = ivpow((a.lo, a.hi), e)
            lo, hi = ivmul((lo, hi), r1)
            i = j
        r = (lo, hi)
    _MONOIV[m] = r
    return r

def ivpow(x, e):
    if e == 1: return x
    if x[0] is not None and x[0] >= 0: return (x[0]**e, None if x[1] is None else x[1]**e)
    if x[0] is None or x[1] is None: return (0, None) if e % 2 == 0 else (None, None)
    c = [x[0]**e, x[1]**e]
    if e % 2 == 0 and x[0] <= 0 <= x[1]: c.append(0)
    return (min(c), max(c))

def ivmul(x, y):
    if x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] >= 0:
        return (x[0]*y[0], None if x[1] is None or y[1] is None else x[1]*y[1])
    if None in x or None in y: return (None, None)
    c = [x[0]*y[0], x[0]*y[1], x[1]*y[0], x[1]*y[1]]
    return (min(c), max(c))

def naive(p):
    lo = hi = 0
    for m, c in p.items():
        if not m:
            if lo is not None: lo += c
            if hi is not None: hi += c
            continue
        a, b = monoiv(m)
        if c < 0: a, b = b, a
        lo = None if lo is None or a is None else lo + c*a
        hi = None if hi is None or b is None else hi + c*b
        if lo is None and hi is None: break
    return lo, hi

def _key(p):
    """(key of p without constant, sign)"""
    mm = None
    for m in p:
        if m and (mm is None or m < mm): mm = m
    if p[mm] > 0: return frozenset((m, c) for m, c in p.items() if m), 1
    return frozenset((m, -c) for m, c in p.items() if m), -1

def isect(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi

def iv_of(p):
    """interval of a polynomial from the cache and the atoms"""
    r = naive(p)
    k, s = _key(p)
    c = ICACHE.get(k)
    if c is not None:
        k0 = p.get((), 0)
        if s > 0: q = (None if c[0] is None else c[0]+k0, None if c[1] is None else c[1]+k0)
        else: q = (None if c[1] is None else -c[1]+k0, None if c[0] is None else -c[0]+k0)
        r = isect(r, q)
    return r

def note(p, lo, hi):
    k, s = _key(p)
    k0 = p.get((), 0)
    lo = None if lo is None else lo-k0
    hi = None if hi is None else hi-k0
    if s < 0: lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    c = ICACHE.get(k)
    n = (lo, hi) if c is None else isect(c, (lo, hi))
    if n != c: sset(ICACHE, k, n)

def mk(p, lo=None, hi=None):
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    r = iv_of(p)
    if (lo is not None and (r[0] is None or lo > r[0])) or (hi is not None and (r[1] is None or hi < r[1])):
        r = isect(r, (lo, hi))
        note(p, *r)
    if r[0] is not None and r[0] == r[1]: return r[0]
    return V(p, *r)

# ---------------------------------------------------------------- arithmetic
def poly(a):
    return ({(): a} if a else {}) if isinstance(a, int) else a.p
def ilo(a): return a if isinstance(a, int) else a.lo
def ihi(a): return a if isinstance(a, int) else a.hi

def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a + b
        a, b = b, a
    if isinstance(b, int):
        if b == 0: return a
        p = dict(a.p); c = p.get((), 0) + b
        if c: p[()] = c
        else: p.pop((), None)
        return mk(p, None if a.lo is None else a.lo+b, None if a.hi is None else a.hi+b)
    if len(a.p) < len(b.p): a, b = b, a
    p = dict(a.p)
    for m, c in b.p.items():
        d = p.get(m, 0) + c
        if d: p[m] = d
        else: del p[m]
    return mk(p, None if a.lo is None or b.lo is None else a.lo+b.lo, None if a.hi is None or b.hi is None else a.hi+b.hi)

def scale(a, c):
    if isinstance(a, int): return a*c
    if c == 0: return 0
    if c == 1: return a
    lo = None if a.lo is None else a.lo*c
    hi = None if a.hi is None else a.hi*c
    if c < 0: lo, hi = hi, lo
    return mk({m: d*c for m, d in a.p.items()}, lo, hi)

def neg(a): return scale(a, -1)
def sub(a, b): return add(a, neg(b))

def mul(a, b):
    if isinstance(a, int): return scale(b, a)
    if isinstance(b, int): return scale(a, b)
    p = {}
    if len(a.p) * len(b.p) > 200000: raise Unsupported('polynomial too large')
    for m, c in a.p.items():
        for n, d in b.p.items():
            k = mmul(m, n)
            e = p.get(k, 0) + c*d
            if e: p[k] = e
            else: p.pop(k, None)
    lo, hi = ivmul((a.lo, a.hi), (b.lo, b.hi))
    if a is b and lo is not None and lo < 0: lo = 0
    return mk(p, lo, hi)

def vsum(l):
    r = 0
    for x in l: r = add(r, x)
    return r

# ---------------------------------------------------------------- substitution of atom values
def subst_atom(a, aid, val):
    """replace atom aid (top level occurrences) by integer val"""
    if isinstance(a, int): return a
    p = {}
    hit = False
    for m, c in a.p.items():
        if aid in m:
            hit = True
            e = m.count(aid)
            c = c * val**e
            if c == 0: continue
            m = tuple(x for x in m if x != aid)
        d = p.get(m, 0) + c
        if d: p[m] = d
        else: p.pop(m, None)
    if not hit: return a
    return mk(p)

def subst_pc(a):
    if isinstance(a, int) or not PCLIT: return a
    ids = set()
    for m in a.p:
        for x in m:
            if x in PCLIT: ids.add(x)
    for x in ids: a = subst_atom(a, x, PCLIT[x])
    return a

REBUILD = {}
def rebuild(v, m, memo=None):
    """v with atoms replaced by the values of m, everything recomputed"""
    if isinstance(v, int): return v
    if memo is None: memo = {}
    r = 0
    for mono, c in v.p.items():
        t = c
        for x in mono: t = mul(t, rebuild_atom(x, m, memo))
        r = add(r, t)
    return r
def rebuild_atom(x, m, memo):
    if x in m: return m[x]
    if x in memo: return memo[x]
    a = AT[x]; k = a.kind
    R = lambda y: rebuild(y, m, memo) if isinstance(y, V) else y
    args = tuple(R(y) for y in a.args)
    if all(y is z or (isinstance(y, V) and isinstance(z, V) and y.p == z.p) or (isinstance(y, int) and y == z) for y, z in zip(args, a.args)): r = av(a)
    elif k == 'fdiv': r = fdiv(*args)
    elif k == 'ge0': r = ge0(args[0])
    elif k == 'eq0': r = eq0(args[0])
    elif k == 'and': r = ball(args)
    elif k == 'bor': r = reduce(bit_or, args)
    elif k == 'band': r = bit_and(args[0], args[1])
    elif k == 'bxor': r = bit_xor(args[0], args[1], args and 64)
    elif k in REBUILD: r = REBUILD[k](a, args)
    else: raise Unsupported('rebuild ' + k)
    memo[x] = r
    return r

# ---------------------------------------------------------------- floor division / modulus
def fdiv(a, M):
    """floor(a / M), M > 0 constant"""
    if isinstance(a, int): return a // M
    if M == 1: return a
    q = {}; r = {}
    for m, c in a.p.items():
        if c % M == 0: q[m] = c // M
        else: r[m] = c
    if () in r:
        c = r[()]
        q0, r0 = c // M, c % M
        if q0:
            q[()] = q.get((), 0) + q0
            if q[()] == 0: del q[()]
        if r0: r[()] = r0
        else: del r[()]
    if q: qv = mk(q)
    else: qv = 0
    if not r: return qv
    # interval of remainder part: a - M*q with a's own interval when q is constant
    rv = mk(r)
    if isinstance(rv, int): return add(qv, rv // M)
    if isinstance(qv, int):
        rv = mk(r, None if a.lo is None else a.lo - M*qv, None if a.hi is None else a.hi - M*qv)
        if isinstance(rv, int): return add(qv, rv // M)
    lo = None if rv.lo is None else rv.lo // M
    hi = None if rv.hi is None else rv.hi // M
    if lo is not None and lo == hi: return add(qv, lo)
    if not isinstance(qv, int) and a.lo is not None and a.hi is not None:
        dl, dh = a.lo // M, a.hi // M
        if lo is None or hi is None or dh - dl < hi - lo:
            # pulling multiples of M out would lose the bounds of the quotient: keep it whole
            k = a.p.get((), 0) // M
            if dl == dh: return dl
            w = mk({**{m: c for m, c in a.p.items() if m}, **({(): a.p[()] - k*M} if a.p.get((), 0) - k*M else {})}, a.lo - k*M, a.hi - k*M)
            return add(fdiv_atom(w, M, dl-k, dh-k), k)
    # 0/1 tabulation
    ids = sorted({x for m in r for x in m})
    if len(ids) <= 3 and all(ISB[x] for x in ids):
        return add(qv, tabulate(rv, ids, lambda v: v // M))
    # gcd reduction: floor(g*P/(g*M)) = floor(P/M); floor((g*P + c)/(g*M')) = floor((P + floor(c/g))/M')
    g = reduce(gcd, (c for m, c in r.items() if m), M)
    if g > 1:
        r = {m: (c // g) for m, c in r.items()}
        if () in r and r[()] == 0: del r[()]
        M //= g
        rv2 = mk(r, None if rv.lo is None else -((-rv.lo) // g) if r.get((), 0) * g == rv.p.get((), 0) else rv.lo // g,
                 None if rv.hi is None else rv.hi // g)
        return add(qv, fdiv(rv2, M))
    # drop a low part: floor((c*Q + R)/M) = floor(Q/(M/c)) when c | M and 0 <= R < c
    if len(r) > 1 and all(not m or (len(m) == 1 and AT[m[0]].kind == 'var' and low2(c) == abs(c).bit_length()) for m, c in r.items()):
        ms = sorted((m for m in r), key=lambda m: (low2(r[m]), m), reverse=True)
        g = M; i = 0
        while i < len(ms) - 1:
            g2 = gcd(g, r[ms[i]])
            if g2 == 1: break
            g = g2; i += 1
            if gcd(g, r[ms[i]]) == g: continue
            rest = {m: r[m] for m in ms[i:]}
            a1, b1 = naive(rest)
            if a1 is not None and b1 is not None and 0 <= a1 and b1 < g:
                return add(qv, fdiv(mk({m: r[m] // g for m in ms[:i]}), M // g))
    # nested: floor((floor(P/A) + Q)/M) = floor((P + A Q)/(A M))
    nf = [m for m in r if len(m) == 1 and AT[m[0]].kind == 'fdiv']
    if len(nf) == 1 and r[nf[0]] == 1 and inforce(AT[nf[0][0]].guard) and all(len(m) == 1 and AT[m[0]].kind == 'var' and abs(r[m]) > 1 and low2(r[m]) == abs(r[m]).bit_length() for m in r if m and m != nf[0]):
        P, A = AT[nf[0][0]].args
        return add(qv, fdiv(add(P, scale(mk({m: c for m, c in r.items() if m != nf[0]}), A)), A * M))
    res = fdiv_atom(rv, M, lo, hi)
    return add(qv, res)

def inforce(g):
    """the conditions under which an atom equals its definition hold here"""
    return g is None or (len(g) <= len(PC) and all(x is y for x, y in zip(g, PC)))

def low2(c): return (c & -c).bit_length()

def fdiv_atom(rv, M, lo, hi):
    key = ('fdiv', rv.k, M)
    a = INTERN.get(key)
    if a is None:
        guard = None
        if PC:
            # are these bounds path independent?  Recompute without scoped knowledge.
            g = naive(rv.p)
            if g[0] is None or g[1] is None or g[0] // M != lo or g[1] // M != hi:
                guard = tuple(PC)
        a = atom('fdiv', (rv, M), lo, hi, None, key, guard)
    return mk({(a.id,): 1}, lo, hi)

def tabulate(v, ids, f):
    """multilinear interpolation of f(v) over 0/1 atoms ids"""
    def go(v, i):
        if i == len(ids):
            assert isinstance(v, int)
            return f(v)
        v0 = go(subst_atom(v, ids[i], 0), i+1)
        v1 = go(subst_atom(v, ids[i], 1), i+1)
        if isinstance(v0, int) and v0 == v1 and isinstance(v1, int): return v0
        x = av(AT[ids[i]])
        return add(v0, mul(x, sub(v1, v0)))
    return go(v, 0)

def mod(a, M):
    if isinstance(a, int): return a % M
    if a.lo is not None and a.hi is not None and a.lo // M == a.hi // M: return sub(a, M * (a.lo // M))
    r = sub(a, scale(fdiv(a, M), M))
    if isinstance(r, int): return r
    return mk(r.p, 0, M-1)

# ---------------------------------------------------------------- booleans (0/1 values)
def isbool(a):
    if isinstance(a, int): return a in (0, 1)
    return a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi <= 1

def bnot(a): return sub(1, a)

def veq(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return a is b or a.p == b.p

def band(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    if veq(a, b): return a
    if veq(a, bnot(b)): return 0
    la = list(conj(a)); lb = list(conj(b))
    d = {x.k: x for x in la}
    for x in lb: d[x.k] = x
    for x in d.values():
        n = bnot(x)
        if not isinstance(n, int) and n.k in d: return 0
    if len(d) == 1: return next(iter(d.values()))
    ks = frozenset(d)
    a = atom('and', tuple(d.values()), 0, 1, None, ('and', ks))
    return mk({(a.id,): 1})

def lit(a):
    """(atom, polarity) if a is a literal"""
    if isinstance(a, int): return None
    p = a.p
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1: return AT[m[0]], 1
    elif len(p) == 2 and p.get(()) == 1:
        for m, c in p.items():
            if m and c == -1 and len(m) == 1: return AT[m[0]], 0
    return None

def conj(a):
    l = lit(a)
    if l and l[1] == 1 and l[0].kind == 'and':
        for x in l[0].args: yield from conj(x)
    else: yield a

def bor(a, b): return bnot(band(bnot(a), bnot(b)))
def ball(l):
    r = 1
    for x in l: r = band(r, x)
    return r
def bany(l):
    r = 0
    for x in l: r = bor(r, x)
    return r
def bxor(a, b):
    # a + b - 2ab
    if isinstance(a, int): return bnot(b) if a else b
    if isinstance(b, int): return bnot(a) if b else a
    return mk(sub(add(a, b), scale(mul(a, b), 2)).p, 0, 1) if not veq(a, b) else 0
def ite(c, a, b):
    if isinstance(c, int): return a if c else b
    if veq(a, b): return a
    r = add(b, mul(c, sub(a, b)))
    if isinstance(r, int): return r
    la, lb, ha, hb = ilo(a), ilo(b), ihi(a), ihi(b)
    return mk(r.p, None if la is None or lb is None else min(la, lb), None if ha is None or hb is None else max(ha, hb))

# ---------------------------------------------------------------- comparisons
def _bits_in(p):
    out = {}
    for m, c in p.items():
        for x in m:
            if ISB[x]: out[x] = max(out.get(x, 0), abs(c))
    return out

def _sgn(a):
    """True/False/None for a >= 0 by interval"""
    if isinstance(a, int): return a >= 0
    if a.lo is not None and a.lo >= 0: return True
    if a.hi is not None and a.hi < 0: return False
    return None

def _nz(a):
    """True if a == 0, False if a != 0, None unknown (by interval)"""
    if isinstance(a, int): return a == 0
    if (a.lo is not None and a.lo > 0) or (a.hi is not None and a.hi < 0): return False
    return None

def _split(a, test, depth=2):
    """decide test(a) as a 0/1 value by splitting on 0/1 atoms; None if undecided"""
    r = test(a)
    if r is not None: return int(r)
    bits = _bits_in(a.p)
    if not bits: return None
    mx = max(bits.values())
    cand = sorted((x for x in bits if bits[x] * 64 > mx), reverse=True)[:12]
    for x in cand:
        r0 = test(subst_atom(a, x, 0))
        if r0 is None: continue
        r1 = test(subst_atom(a, x, 1))
        if r1 is None: continue
        if r0 == r1: return int(r0)
        return av(AT[x]) if r1 else bnot(av(AT[x]))
    if depth > 1:
        for x in cand[:3]:
            r0 = _split(subst_atom(a, x, 0), test, depth-1)
            if r0 is None: continue
            r1 = _split(subst_atom(a, x, 1), test, depth-1)
            if r1 is None: continue
            v = av(AT[x])
            return bor(band(v, r1), band(bnot(v), r0))
    return None

def ge0(a):
    """truth value of a >= 0"""
    r = _sgn(a)
    if r is not None: return int(r)
    a = subst_pc(a)
    r = _sgn(a)
    if r is not None: return int(r)
    r = _split(a, _sgn)
    if r is not None:
        STATS['split'] += 1
        return r
    lo, hi = deep(a)
    if lo is not None and lo >= 0: return 1
    if hi is not None and hi < 0: return 0
    if lo != a.lo or hi != a.hi: note(a.p, lo, hi)
    return ge0_atom(a)

def ge0_atom(a):
    p = a.p
    g = reduce(gcd, (abs(c) for m, c in p.items() if m))
    c0 = p.get((), 0)
    q = {m: c // g for m, c in p.items() if m}
    k = c0 // g                      # Q >= ceil(-c0/g)  <=>  Q + floor(c0/g) >= 0
    mm = min(q)
    if q[mm] > 0:
        if k: q[()] = k
        return _cmpatom('ge0', q)
    # -Q' + k >= 0  <=> not (Q' - k - 1 >= 0)
    q = {m: -c for m, c in q.items()}
    if -k-1: q[()] = -k-1
    return bnot(_cmpatom('ge0', q))

def _cmpatom(kind, q):
    v = mk(q)
    if isinstance(v, int): return int(v >= 0) if kind == 'ge0' else int(v == 0)
    if kind == 'ge0':
        if v.lo is not None and v.lo >= 0: return 1
        if v.hi is not None and v.hi < 0: return 0
    a = atom(kind, (v,), 0, 1, None, (kind, v.k))
    if a.id in PCLIT: return PCLIT[a.id]
    return mk({(a.id,): 1})

def ge(a, b): return ge0(sub(a, b))
def le(a, b): return ge0(sub(b, a))
def lt(a, b): return bnot(ge(a, b))
def gt(a, b): return lt(b, a)

def eq0(a):
    if isinstance(a, int): return int(a == 0)
    if (a.lo is not None and a.lo > 0) or (a.hi is not None and a.hi < 0): return 0
    a = subst_pc(a)
    if isinstance(a, int): return int(a == 0)
    if (a.lo is not None and a.lo > 0) or (a.hi is not None and a.hi < 0): return 0
    p = a.p
    if isbool(a): return bnot(a)
    # opaque or / xor of words
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and AT[m[0]].kind == 'bor':
            return ball([eq0(x) for x in AT[m[0]].args])
        if len(m) == 1 and AT[m[0]].kind == 'bxor':
            x, y = AT[m[0]].args
            return eq0(sub(x, y))
        if len(m) >= 1 and m and all(AT[x].lo is not None for x in m) and len(set(m)) >= 1:
            return _eqatom(mk({m: 1}))
    if len(p) == 2 and () in p:
        for m, c in p.items():
            if m and len(m) == 1 and AT[m[0]].kind == 'band' and p[()] == -c * AT[m[0]].args[2]:
                return ball([eq0(sub(x, AT[m[0]].args[2])) for x in AT[m[0]].args[:2]])
    if a.lo == 0 and len(p) > 1 and () not in p and all(c > 0 and monoiv(m)[0] is not None and monoiv(m)[0] >= 0 for m, c in p.items()):
        return ball([eq0(mk({m: 1})) for m in p])     # sum of non-negative terms
    r = _split(a, _nz)
    if r is not None: return r
    return _eqatom(a)

def _eqatom(a):
    if isinstance(a, int): return int(a == 0)
    if not any(a.p): return int(not a.p)
    p = a.p
    g = reduce(gcd, (abs(c) for m, c in p.items() if m))
    c0 = p.get((), 0)
    if c0 % g: return 0
    mm = min(m for m in p if m)
    if p[mm] < 0: g = -g
    if g != 1: p = {m: c // g for m, c in p.items()}
    if a.hi is not None and a.lo is not None:
        if a.lo == 0 or a.hi == 0: pass
    return _cmpatom('eq0', dict(p))

def eq(a, b): return eq0(sub(a, b))
def ne(a, b): return bnot(eq(a, b))

# ---------------------------------------------------------------- deep intervals: relax divisions
def deep(a, limit=60):
    """interval of a by relaxing floor divisions  P/M - (M-1)/M <= fdiv(P,M) <= P/M"""
    if isinstance(a, int): return a, a
    hi = _deep_up(a.p, a.hi, limit)
    n = _deep_up({m: -c for m, c in a.p.items()}, None if a.lo is None else -a.lo, limit)
    return (None if n is None else -n), hi

def _deep_up(p, best, limit):
    p = {m: Fraction(c) for m, c in p.items()}
    cur = p
    for _ in range(limit):
        cand = None
        for m in cur:
            if len(m) == 1:
                a = AT[m[0]]
                if a.kind == 'fdiv' and a.guard is None and (cand is None or m[0] > cand): cand = m[0]
        if cand is None: break
        a = AT[cand]
        P, M = a.args
        c = cur[(cand,)]
        nxt = dict(cur); del nxt[(cand,)]
        f = c / M
        for m, d in P.p.items():
            e = nxt.get(m, 0) + d * f
            if e: nxt[m] = e
            else: nxt.pop(m, None)
        if c < 0:      # fdiv >= (P - M + 1)/M
            e = nxt.get((), 0) - f * (M - 1)
            if e: nxt[()] = e
            else: nxt.pop((), None)
        cur = nxt
        if len(cur) > 4000: break
        h = _iv_frac_up(cur)
        if h is not None and (best is None or h < best): best = h
    return best

def _iv_frac_up(p):
    from math import floor, lcm
    den = reduce(lcm, (c.denominator for c in p.values()), 1)
    q = {m: int(c*den) for m, c in p.items()}
    if not q: return 0
    if len(q) == 1 and () in q: return q[()] // den
    # common factor so that cached intervals of scaled polynomials are found
    r = iv_of(q)[1]
    g = reduce(gcd, (abs(c) for m, c in q.items() if m))
    if g > 1 and q.get((), 0) % g == 0:
        q2 = {m: c // g for m, c in q.items()}
        r2 = iv_of(q2)[1]
        if r2 is not None and (r is None or r2*g < r): r = r2*g
    return None if r is None else r // den

# ---------------------------------------------------------------- bit operations on non-negative values
def low_zeros(a):
    """number of low bits known zero"""
    if isinstance(a, int): return 10**6 if a == 0 else (a & -a).bit_length() - 1
    g = reduce(gcd, (abs(c) for c in a.p.values()))
    return (g & -g).bit_length() - 1

def nbits(a):
    h = ihi(a)
    return None if h is None else h.bit_length()

def bit_or(a, b):
    if isinstance(a, int) and isinstance(b, int): return a | b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    if veq(a, b): return a
    if isbool(a) and isbool(b): return bor(a, b)
    if ilo(a) is None or ilo(b) is None or ilo(a) < 0 or ilo(b) < 0: raise Unsupported('or of signed')
    if low_zeros(a) >= nbits(b) or low_zeros(b) >= nbits(a): return add(a, b)
    # canonical opaque or
    args = {}
    def coll(x):
        l = lit(x) if not isinstance(x, int) else None
        if l and l[1] and l[0].kind == 'bor':
            for y in l[0].args: coll(y)
        else: args[x if isinstance(x, int) else x.k] = x
    coll(a); coll(b)
    hi = (1 << max(nbits(a), nbits(b))) - 1
    at = atom('bor', tuple(args.values()), max(ilo(a), ilo(b)), hi, None, ('bor', frozenset(args)))
    return mk({(at.id,): 1})

def maskform(a):
    """a == f * m with f a 0/1 value and m all ones mask constant"""
    if isinstance(a, int): return None
    g = reduce(gcd, (abs(c) for c in a.p.values()))
    if g > 0 and (g & (g+1)) == 0 and g > 1:
        f = mk({m: c // g for m, c in a.p.items()})
        if isbool(f): return f, g
    return None

def bit_and(a, b):
    if isinstance(a, int) and isinstance(b, int): return a & b
    if isinstance(a, int): a, b = b, a
    if isbool(a) and isbool(b): return band(a, b)
    if veq(a, b): return a
    if ilo(a) is None or ilo(b) is None or ilo(b) < 0 or ilo(a) < 0: raise Unsupported('and of signed')
    if isinstance(b, int):
        if b == 0: return 0
        tz = (b & -b).bit_length() - 1
        w = (b >> tz)
        if w & (w+1) == 0:        # contiguous mask
            return scale(mod(fdiv(a, 1 << tz), w+1), 1 << tz)
    for x, y in ((a, b), (b, a)):
        m = maskform(x)
        if m:
            f, g = m
            return mul(f, mod(y, g+1))
        if isbool(x): return band(x, mod(y, 2)) if isbool(mod(y, 2)) else mul(x, mod(y, 2))
    # 0/1 tabulation when few
    if isinstance(b, int):
        ids = sorted({x for m in a.p for x in m})
        if len(ids) <= 3 and all(ISB[x] for x in ids): return tabulate(a, ids, lambda v: v & b)
        # split the constant into runs
        r = 0; bb = b; tz = 0
        while bb:
            tz += (bb & -bb).bit_length() - 1
            bb >>= (bb & -bb).bit_length() - 1
            run = (~bb & (bb+1)).bit_length() - 1
            r = add(r, scale(mod(fdiv(a, 1 << tz), 1 << run), 1 << tz))
            bb >>= run; tz += run
        return r
    n = max(nbits(a), nbits(b))
    ks = frozenset((a.k, b.k))
    hi = min(a.hi, b.hi)
    at = atom('band', (a, b, (1 << n) - 1), 0, hi, None, ('band', ks))
    return mk({(at.id,): 1})

def bit_xor(a, b, width):
    if isinstance(a, int) and isinstance(b, int): return a ^ b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int) and b == 0: return a
    if isbool(a) and isbool(b): return bxor(a, b)
    if isinstance(b, int) and b == (1 << width) - 1: return sub(b, a)
    if veq(a, b): return 0
    for x, y in ((a, b), (b, a)):
        m = maskform(x)
        if m:
            f, g = m
            if ihi(y) is not None and ihi(y) <= g and ilo(y) >= 0:
                return mk_pos(add(y, mul(f, sub(g, scale(y, 2)))), g)
    if isinstance(b, int):
        # flip bit by bit of the constant
        r = a
        for i in range(b.bit_length()):
            if (b >> i) & 1:
                bit = mod(fdiv(a, 1 << i), 2)
                r = add(r, sub(1 << i, scale(bit, 2 << i)))
        return mk_pos(r, (1 << max(nbits(a), b.bit_length())) - 1)
    n = max(nbits(a), nbits(b))
    at = atom('bxor', (a, b), 0, (1 << n) - 1, None, ('bxor', frozenset((a.k, b.k))))
    return mk({(at.id,): 1})

def mk_pos(v, hi):
    if isinstance(v, int): return v
    return mk(v.p, 0, hi)

# ---------------------------------------------------------------- path condition
def assume(c):
    """add a 0/1 value to the current path condition (inside a scope). Returns False if it is 0."""
    if isinstance(c, int): return bool(c)
    PC.append(c)
    _learn(c)
    return True

def _learn(c):
    l = lit(c)
    if not l: return
    a, pol = l
    if a.id not in PCLIT: sset(PCLIT, a.id, pol)
    if a.kind == 'and' and pol == 1:
        for x in a.args: _learn(x)
    elif a.kind == 'ge0':
        v = a.args[0]
        if pol: note(v.p, 0, None)
        else: note(v.p, None, -1)
    elif a.kind == 'eq0':
        v = a.args[0]
        if pol: note(v.p, 0, 0)
        else:
            if v.lo == 0: note(v.p, 1, None)
            elif v.hi == 0: note(v.p, None, -1)

# ---------------------------------------------------------------- concrete evaluation
def evaluate(v, env, memo):
    """value under env: atom id -> int for var atoms; others from their definitions"""
    if isinstance(v, int): return v
    t = 0
    for m, c in v.p.items():
        for x in m:
            c *= eval_atom(AT[x], env, memo)
            if c == 0: break
        t += c
    return t

EVAL_HOOKS = {}
def eval_atom(a, env, memo):
    r = memo.get(a.id)
    if r is not None: return r
    k = a.kind
    if k == 'var':
        r = env(a)
    elif k == 'fdiv': r = evaluate(a.args[0], env, memo) // a.args[1]
    elif k == 'ge0': r = int(evaluate(a.args[0], env, memo) >= 0)
    elif k == 'eq0': r = int(evaluate(a.args[0], env, memo) == 0)
    elif k == 'and': r = int(all(evaluate(x, env, memo) for x in a.args))
    elif k == 'bor': r = reduce(lambda x, y: x | y, (evaluate(x, env, memo) for x in a.args))
    elif k == 'band': r = evaluate(a.args[0], env, memo) & evaluate(a.args[1], env, memo)
    elif k == 'bxor': r = evaluate(a.args[0], env, memo) ^ evaluate(a.args[1], env, memo)
    elif k in EVAL_HOOKS: r = EVAL_HOOKS[k](a, env, memo)
    else: raise Unsupported('evaluate ' + k)
    memo[a.id] = r
    return r
