"""Abstract scalars: polynomials over Z_n (Laurent in atoms known to be non-zero) together with the canonical
integer, and the call-site contracts of core/src/scalar.rs (proved word by word in u_scalar.py).
Every contract assumes and returns canonical scalars (value < n)."""
import terms as T, exec as X
from exec import L, E, Slot, View, Abs, Alt
from terms import V, Unsupported
from ctx import N, be, words

# ---------------------------------------------------------------- polynomials over Z_n
NZ = set()        # atoms known non-zero mod n
CAN = {}          # atom -> polynomial of which the atom is the canonical integer
NZPOLY = []
_K = {}
INVDEF = {}       # atom -> poly: atom * poly = 1 on the paths where poly != 0
ZKEY = {}
ZPOLY = {}
def sreset():
    NZ.clear(); CAN.clear(); NZPOLY.clear(); _K.clear(); INVDEF.clear(); ZKEY.clear(); ZPOLY.clear()
T.RESET_HOOKS.append(sreset)

def const(c):
    c %= N
    return {(): c} if c else {}
def satom(a): return {((a, 1),): 1}
def mm(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n: d[x] = 1 if T.ISB[x] and n > 0 else n
        else: del d[x]
    return tuple(sorted(d.items()))
def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        e = (r.get(m, 0) + c) % N
        if e: r[m] = e
        else: r.pop(m, None)
    return r
def pscale(a, c):
    c %= N
    return {m: d*c % N for m, d in a.items()} if c else {}
def pneg(a): return pscale(a, -1)
def psub(a, b): return padd(a, pneg(b))
def pmul(a, b):
    r = {}
    if len(a) * len(b) > 200000: raise Unsupported('scalar polynomial too large')
    for m, c in a.items():
        for n, d in b.items():
            k = mm(m, n); e = (r.get(k, 0) + c*d) % N
            if e: r[k] = e
            else: r.pop(k, None)
    return pred(r)
def pred(p):
    """replace w*q by 1 where w is a path inverse of the atom q"""
    if not INVDEF: return p
    hit = False
    for m in p:
        for x, e in m:
            q = INVDEF.get(x)
            if q is not None and len(q) == 1: hit = True
    if not hit: return p
    r = {}
    for m, c in p.items():
        d = dict(m)
        for x in list(d):
            q = INVDEF.get(x)
            if q is None or len(q) != 1 or x not in d: continue
            (qm, qc), = q.items()
            while d.get(x, 0) > 0 and all(d.get(y, 0) >= f for y, f in qm):
                d[x] -= 1
                for y, f in qm: d[y] -= f
                c = c * pow(qc, -1, N) % N
                d = {y: f for y, f in d.items() if f}
                if x not in d: break
        k = tuple(sorted(d.items())); e = (r.get(k, 0) + c) % N
        if e: r[k] = e
        else: r.pop(k, None)
    return r
def ppow(a, n):
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((x, 1 if T.ISB[x] and n > 0 else e*n) for x, e in m): pow(c, n, N)}
    r = const(1)
    while n:
        if n & 1: r = pmul(r, a)
        n >>= 1
        if n: a = pmul(a, a)
    return r
def key(p): return frozenset(p.items())
def pcsub(p):
    if not T.PCLIT or not any(x in T.PCLIT for m in p for x, e in m): return p
    r = {}
    for m, c in p.items():
        d = []
        for x, e in m:
            if x in T.PCLIT:
                if T.PCLIT[x] == 0: d = None; break
            else: d.append((x, e))
        if d is None: continue
        k = tuple(d); v = (r.get(k, 0) + c) % N
        if v: r[k] = v
        else: r.pop(k, None)
    return r
def primitive(p):
    exps = None
    for m in p:
        d = dict(m)
        exps = d if exps is None else {x: min(exps.get(x, 0), d.get(x, 0)) for x in set(exps) | set(d)}
    cont = tuple(sorted((x, e) for x, e in exps.items() if e))
    q = {mm(m, tuple((x, -e) for x, e in cont)): c for m, c in p.items()}
    lc = q[max(q)]
    return cont, (pscale(q, pow(lc, -1, N)) if lc != 1 else q), lc

def clear_inv(p):
    """multiply by the defining polynomials of path inverses (valid where those are non-zero)"""
    for _ in range(20):
        us = {}
        for m in p:
            for x, e in m:
                if x in INVDEF: us[x] = max(us.get(x, 0), e)
        if not us: return p
        x = max(us); n = us[x]; q = {}
        for m, c in p.items():
            d = dict(m); e = d.pop(x, 0)
            q = padd(q, pmul({tuple(sorted(d.items())): c}, ppow(INVDEF[x], n - e)))
        p = q
    raise Unsupported('nested inverses')

ZERO_HOOKS = []   # decide the vanishing of logarithms of concrete points
def pzero(p, asis=False):
    """0/1 value: p == 0 mod n"""
    if not asis: p = pcsub(p)
    if not p: return 1
    if len(p) == 1 and () in p: return 0
    for h in ZERO_HOOKS:
        r = h(p)
        if r is not None: return r
    cont, q, lc = primitive(p)
    zs = []
    for x, e in cont:
        if x in NZ: continue
        zs.append(atom_zero(x))
    if len(q) > 1: zs.append(poly_zero(q))
    return T.bany(zs)
def atom_zero(x):
    a = T.AT[x]
    if x in INVDEF: return pzero(INVDEF[x])
    if a.isb: return T.bnot(T.av(a))
    if a.kind == 'var' and a.lo is not None and 0 <= a.lo and a.hi is not None and a.hi < N: return T.eq0(T.av(a))
    if a.kind == 'var' and a.lo is not None and 0 <= a.lo and a.hi is not None and a.hi < 2*N: return T.bor(T.eq0(T.av(a)), T.eq(T.av(a), N))
    if a.kind == 'var' and a.lo is not None and -N < a.lo and a.hi is not None and a.hi < N: return T.eq0(T.av(a))
    return poly_zero(satom(x))
ZHOOKS = []
def linear(q):
    """a small combination of integers of which one may exceed n (an abscissa, say): zero mod n exactly when the integer is a multiple of n"""
    if len(q) > 3: return None
    v, big = 0, False
    for m, c in q.items():
        if c > N // 2: c -= N
        if m == (): v = T.add(v, c); continue
        if len(m) != 1 or m[0][1] != 1: return None
        a = T.AT[m[0][0]]
        if a.kind != 'var' or a.lo != 0 and a.lo != 1 or a.hi is None or a.hi > 2*N or abs(c) > 2: return None
        big |= a.hi >= N; v = T.add(v, T.scale(T.av(a), c))
    if not big: return None
    lo, hi = T.ilo(v), T.ihi(v)
    return T.bany([T.eq(v, k * N) for k in range(-((-lo) // N), hi // N + 1)])
def poly_zero(q):
    if q in NZPOLY: return 0
    for h in ZHOOKS:
        r = h(q)
        if r is not None: return r
    # difference of two canonical integers: integer equality
    if len(q) == 2:
        at = [(m[0][0], c) for m, c in q.items() if len(m) == 1 and m[0][1] == 1]
        if len(at) == 2 and sum(c for _, c in at) % N == 0 and all(T.AT[x].kind == 'var' and T.AT[x].lo == 0 and T.AT[x].hi is not None and T.AT[x].hi < N for x, _ in at):
            return T.eq(T.av(T.AT[at[0][0]]), T.av(T.AT[at[1][0]]))
        if len(at) == 1 and () in q:
            x, c = at[0]; a = T.AT[x]
            if a.kind == 'var' and a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < N:
                return T.eq(T.av(a), -q[()] * pow(c, -1, N) % N)
    r = linear(q)
    if r is not None: return r
    k = key(q)
    a = ZKEY.get(k)
    if a is None:
        a = T.atom('seq0', (), 0, 1, 'seq%d' % len(T.AT), ('seq0', k))
        ZKEY[k] = a; ZPOLY[a.id] = q
    if a.id in T.PCLIT: return T.PCLIT[a.id]
    return T.av(a)
def peval(p, env, memo):
    t = 0
    for m, c in p.items():
        for x, e in m: c = c * pow(T.eval_atom(T.AT[x], env, memo), e, N) % N
        t += c
    return t % N
T.EVAL_HOOKS['seq0'] = lambda a, env, memo: int(peval(ZPOLY[a.id], env, memo) == 0)

def embed(v):
    if isinstance(v, int): return const(v)
    r = {}
    for m, c in v.p.items():
        t = const(c)
        for x in m:
            q = CAN.get(x)
            t = pmul(t, q if q is not None else satom(x))
        r = padd(r, t)
    return r

def nonzero(p):
    cont, q, lc = primitive(p)
    for x, e in cont: NZ.add(x)
    if len(q) > 1: NZPOLY.append(q)

def pshow(p, n=8):
    def co(c): return hex(c) if c < 2**64 else ('-' + hex(N-c) if N - c < 2**64 else '..')
    return ' + '.join(co(c) + ''.join('*%r^%d' % (T.AT[x], e) for x, e in m) for m, c in sorted(p.items())[:n]) + (' ..%d' % len(p) if len(p) > n else '')

# ---------------------------------------------------------------- abstract value
class SV(Abs):
    __slots__ = ('p', 'iv')
    def __init__(s, p, iv=None): s.p = p; s.iv = iv
    def merge(s, c, o):
        if isinstance(o, SV) and s.p == o.p: return s
        return None
    def materialize(s, ex):
        iv = ivof(s)
        return L([L([T.mod(T.fdiv(iv, 1 << (32*i)), 1 << 32) for i in range(8)])])
    def __repr__(s): return 'SV(%s)' % pshow(s.p, 3)

def svar(name, nz=False):
    v = T.var(name, 1 if nz else 0, N-1)
    a = next(iter(v.p))[0]
    if nz: NZ.add(a)
    return SV(satom(a), v)

def ivof(s):
    if s.iv is not None: return s.iv
    p = pcsub(s.p)
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = T.AT[m[0][0]]
            if a.kind == 'var' and a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < N: return T.av(a)
    k = key(p)
    v = _K.get(k)
    if v is None and key(pneg(p)) in _K:
        w = _K[key(pneg(p))]
        r = T.sub(T.scale(T.ne(w, 0), N), w)
        return T.mk(r.p, 0, N-1) if isinstance(r, V) else r
    if v is None:
        v = T.av(T.atom('var', (), 0, N-1, 'scan%d' % len(T.AT)))
        a = next(iter(v.p))[0]
        CAN[a] = p; _K[k] = v
    return v

def assv(v):
    if isinstance(v, SV): return v
    if isinstance(v, L) and len(v) == 1 and isinstance(v[0], L) and len(v[0]) == 8:
        iv = T.subst_pc(words(list(v[0])))
        if isinstance(iv, int):
            if iv >= N: raise Unsupported('scalar constant not canonical')
            return SV(const(iv), iv)
        hi = T.ihi(iv)
        return SV(embed(iv), iv)
    raise Unsupported('scalar value %r' % (v,))
def rd(ex, p): return assv(ex.readp(p))

def C(*names):
    def d(f):
        for n in names: CONTRACTS[n] = f
        return f
    return d
CONTRACTS = {}

@C('Scalar::clear')
def _(ex, fn, a): ex.writep(a[0], SV({}, 0)); return L([])
@C('Scalar::set_int')
def _(ex, fn, a): ex.writep(a[0], SV(embed(a[1]), a[1])); return L([])
@C('Scalar::from_int')
def _(ex, fn, a): return SV(embed(a[0]), a[0])
@C('<Scalar as Default>::default')
def _(ex, fn, a): return SV({}, 0)

@C('Scalar::bits', 'Scalar::bits_var')
def _(ex, fn, a):
    s = rd(ex, a[0]); off, cnt = a[1], a[2]
    if not (isinstance(off, int) and isinstance(cnt, int)): raise Unsupported('bits at a variable position')
    ex.oblige(int(0 < cnt < 32 and off + cnt <= 256), 'pre', 'bits: position in range')
    if fn.cname == 'Scalar::bits': ex.oblige(int((off + cnt - 1) >> 5 == off >> 5), 'pre', 'bits: within one word')
    return T.mod(T.fdiv(ivof(s), 1 << off), 1 << cnt)

@C('Scalar::check_overflow')
def _(ex, fn, a): rd(ex, a[0]); return L([0])

@C('Scalar::cadd_bit')
def _(ex, fn, a):
    s = rd(ex, a[0]); bit, flag = a[1], a[2]
    iv = ivof(s)
    if not isinstance(bit, int):
        # a 0/1 position
        ex.oblige(T.band(T.ge(bit, 0), T.le(bit, 1)), 'pre', 'cadd_bit: position')
        amount = T.add(1, bit)
    else:
        ex.oblige(int(0 <= bit < 256), 'pre', 'cadd_bit: position'); amount = 1 << bit
    v = T.add(iv, T.mul(flag, amount))
    ex.oblige(T.lt(v, N), 'pre', 'cadd_bit: the sum stays below n')
    ex.writep(a[0], SV(embed(v), v)); return L([])

@C('Scalar::set_b32')
def _(ex, fn, a):
    b = ex.readp(a[1]); v = T.subst_pc(be(list(b)))
    o = T.ge(v, N)
    def case(k):
        def f():
            iv = T.sub(v, k * N)
            if isinstance(iv, V): iv = T.mk(iv.p, 0, N-1)
            ex.writep(a[0], SV(embed(iv), iv)); return L([k])
        return f
    return Alt([(T.bnot(o), case(0)), (o, case(1))])

def bytes_of(iv, n=32): return L([T.mod(T.fdiv(iv, 1 << (8*(n-1-i))), 256) for i in range(n)])
@C('Scalar::fill_b32')
def _(ex, fn, a):
    s = rd(ex, a[0]); ex.writep(a[1], bytes_of(ivof(s))); return L([])
@C('Scalar::b32')
def _(ex, fn, a): return bytes_of(ivof(rd(ex, a[0])))

@C('Scalar::is_zero')
def _(ex, fn, a):
    s = rd(ex, a[0]); z = pzero(s.p)
    if isinstance(z, V) and isinstance(s.iv, V) and len(s.iv.p) > 1: return T.eq0(s.iv)
    return z
@C('Scalar::is_one')
def _(ex, fn, a): return pzero(psub(rd(ex, a[0]).p, const(1)))
@C('Scalar::is_high')
def _(ex, fn, a): return T.gt(ivof(rd(ex, a[0])), N // 2)
@C('Scalar::is_even')
def _(ex, fn, a): return T.bnot(T.mod(ivof(rd(ex, a[0])), 2))

def negiv(s):
    iv = ivof(s) if s.iv is not None else None
    if iv is None: return None
    if isinstance(iv, int): return -iv % N
    return T.sub(T.scale(T.ne(iv, 0), N), iv)
def sneg(s):
    iv = negiv(s)
    if isinstance(iv, V): iv = T.mk(iv.p, 0, N-1)
    return SV(pneg(s.p), iv)
@C('Scalar::cond_neg_assign')
def _(ex, fn, a):
    s = rd(ex, a[0]); f = a[1][0]
    f = T.subst_pc(f) if isinstance(f, V) else f
    def yes(): ex.writep(a[0], sneg(s)); return L([])
    def no(): ex.writep(a[0], s); return L([])
    return Alt([(f, yes), (T.bnot(f), no)])
@C('<Scalar as Neg>::neg')
def _(ex, fn, a): return sneg(assv(a[0]))
@C('<&Scalar as Neg>::neg')
def _(ex, fn, a): return sneg(rd(ex, a[0]))

def sadd(x, y): return SV(padd(x.p, y.p))
def smul(x, y): return SV(pmul(x.p, y.p))
@C('<Scalar as AddAssign<&Scalar>>::add_assign')
def _(ex, fn, a): ex.writep(a[0], sadd(rd(ex, a[0]), rd(ex, a[1]))); return L([])
@C('<Scalar as AddAssign>::add_assign')
def _(ex, fn, a): ex.writep(a[0], sadd(rd(ex, a[0]), assv(a[1]))); return L([])
@C('<Scalar as Add>::add')
def _(ex, fn, a): return sadd(assv(a[0]), assv(a[1]))
@C('<&Scalar as Add<&Scalar>>::add', '<&Scalar as Add>::add')
def _(ex, fn, a): return sadd(rd(ex, a[0]), rd(ex, a[1]))
@C('<Scalar as MulAssign<&Scalar>>::mul_assign')
def _(ex, fn, a): ex.writep(a[0], smul(rd(ex, a[0]), rd(ex, a[1]))); return L([])
@C('<Scalar as MulAssign>::mul_assign')
def _(ex, fn, a): ex.writep(a[0], smul(rd(ex, a[0]), assv(a[1]))); return L([])
@C('<Scalar as Mul>::mul')
def _(ex, fn, a): return smul(assv(a[0]), assv(a[1]))
@C('<&Scalar as Mul<&Scalar>>::mul', '<&Scalar as Mul>::mul')
def _(ex, fn, a): return smul(rd(ex, a[0]), rd(ex, a[1]))
@C('Scalar::mul_in_place')
def _(ex, fn, a): ex.writep(a[0], smul(rd(ex, a[1]), rd(ex, a[2]))); return L([])
@C('Scalar::sqr_in_place')
def _(ex, fn, a): s = rd(ex, a[1]); ex.writep(a[0], smul(s, s)); return L([])
@C('Scalar::sqr')
def _(ex, fn, a): s = rd(ex, a[0]); return smul(s, s)

@C('Scalar::shr_int')
def _(ex, fn, a):
    s = rd(ex, a[0]); n = a[1]
    if not isinstance(n, int): raise Unsupported('shr_int by a variable')
    ex.oblige(int(0 < n < 16), 'pre', 'shr_int: shift in range')
    iv = ivof(s); q = T.fdiv(iv, 1 << n)
    ex.writep(a[0], SV(embed(q), q)); return T.mod(iv, 1 << n)

def sinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        if all(x in NZ for x, e in m): return {tuple((x, -e) for x, e in m): pow(c, -1, N)}
    k = ('inv', key(p))
    a = _K.get(k)
    if a is None:
        v = T.var('sinv%d' % len(T.AT), 0, N-1)
        a = _K[k] = next(iter(v.p))[0]
        INVDEF[a] = p
    return satom(a)
def do_inv(ex, s, out):
    p = pcsub(s.p); z = pzero(p)
    if isinstance(z, int): return out(SV(sinv(p)) if not z else SV({}, 0))
    return Alt([(z, lambda: out(SV({}, 0))), (T.bnot(z), lambda: out(SV(sinv(p))))])
@C('Scalar::inv', 'Scalar::inv_var')
def _(ex, fn, a): return do_inv(ex, rd(ex, a[0]), lambda v: v)
@C('Scalar::inv_in_place')
def _(ex, fn, a):
    def out(v): ex.writep(a[0], v); return L([])
    return do_inv(ex, rd(ex, a[1]), out)
@C('<Scalar as PartialEq>::eq')
def _(ex, fn, a): return pzero(psub(rd(ex, a[0]).p, rd(ex, a[1]).p))
