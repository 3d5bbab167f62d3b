"""Abstract points of the curve and the call-site contracts of core/src/group.rs and core/src/ecmult.rs.

A point is known by its logarithm to the base G, a polynomial d over Z_n in symbolic logarithms and scalars (the group of
secp256k1 is cyclic of prime order n, so every point has one; the fact is checked numerically only in the sense that
n*G is infinity).  The affine coordinates of the point d are a pair of polynomials (X_d, Y_d) over F_p, for symbolic d a
pair of atoms with Y_d^2 = X_d^3 + 7, and X_{-d} = X_d, Y_{-d} = -Y_d.  Structures stay structures of field elements: a
Jacobian is (X v^2 z^2, Y v^3 z^3, z, d = 0) where v is the isomorphism (x, y) -> (x v^2, y v^3) of the curve on which the
caller works.  The contracts below are those proved over the field contracts in u_group.py."""
import terms as T, exec as X, fe, sc, solver, oracle
from exec import L, E, Slot, View, Abs, Alt, NONE, UN, NotInductive
from terms import V, Unsupported
from ctx import P, N
from fe import FV, fmul, fadd, fsub, fneg, fscale, fpow, fconst, fatom
from sc import SV, padd, psub, pmul, pneg, pscale, pzero, satom

PT = {}         # key of the canonical logarithm -> (X, Y)
ATX = {}        # atom standing for an abscissa -> logarithm
PRX = {}        # key of the primitive part of an abscissa that is not a monomial -> [(logarithm)]
CONSTPT = {}    # concrete (x, y) -> logarithm
CONC = {}       # atom: the unknown logarithm of a concrete point -> (x, y)
MULT = {}
def greset():
    PT.clear(); ATX.clear(); PRX.clear(); CONSTPT.clear(); CONC.clear(); MULT.clear()
    CONSTPT[(oracle.GX, oracle.GY)] = sc.const(1)
T.RESET_HOOKS.append(greset)

def concrete(d):
    """the point d when it is a combination of G and concrete points: (x, y), 'inf', or None"""
    acc = oracle.jac(None)
    for m, c in d.items():
        if m == (): q = oracle.gmul(c % N)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in CONC:
            k = (m[0][0], c % N)
            if k not in MULT: MULT[k] = oracle.mul(c % N, CONC[m[0][0]])
            q = MULT[k]
        else: return None
        acc = oracle.jadd(acc, oracle.jac(q))
    return oracle.aff(acc) or 'inf'
def conc_zero(p):
    if not CONC or any(m and not (len(m) == 1 and m[0][0] in CONC) for m in p): return None
    r = concrete(p)
    return None if r is None else int(r == 'inf')
sc.ZERO_HOOKS.append(conc_zero)

def canon(d):
    """(d or -d, sign)"""
    n = pneg(d)
    return (d, 1) if sorted(d.items()) <= sorted(n.items()) else (n, -1)

def register(d, X_, Y_):
    """the point d has the coordinates (X, Y)"""
    c, s = canon(d)
    PT[sc.key(c)] = (X_, Y_ if s == 1 else fneg(Y_))
    if len(X_) == 1 and () not in X_:
        (m, k), = X_.items()
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            ATX[m[0][0]] = c; return
    if len(X_) == 1 and () in X_:
        CONSTPT[(X_[()], PT[sc.key(c)][1].get((), 0))] = c; return
    PRX[fe.fkey(fe.primitive(X_)[1])] = c

def coords(d, asis=False):
    """affine coordinates of the point d (not infinity)"""
    if not asis: d = sc.pcsub(d)
    if not d: raise Unsupported('coordinates of infinity')
    c, s = canon(d)
    k = sc.key(c)
    if k not in PT:
        xy = concrete(c)
        if xy == 'inf': raise Unsupported('coordinates of infinity')
        if xy is not None:
            x, y = xy
            PT[k] = (fconst(x), fconst(y)); CONSTPT[(x, y)] = c
        else:
            xv = T.av(T.atom('var', (), 1, P-1, 'X%d' % len(T.AT))); yv = T.av(T.atom('var', (), 1, P-1, 'Y%d' % len(T.AT)))
            xa = next(iter(xv.p))[0]; ya = next(iter(yv.p))[0]
            fe.NZ.add(xa); fe.NZ.add(ya)
            fe.RULES[ya] = (2, fadd(fpow(fatom(xa), 3), fconst(7)))
            PT[k] = (fatom(xa), fatom(ya)); ATX[xa] = c
    x, y = PT[k]
    return x, (y if s == 1 else fneg(y))

def fresh_nz(name):
    v = T.av(T.atom('var', (), 1, P-1, '%s%d' % (name, len(T.AT))))
    a = next(iter(v.p))[0]; fe.NZ.add(a)
    return fatom(a)

def flag(d):
    """0/1: the point d is infinity"""
    z = pzero(d)
    return T.subst_pc(z) if isinstance(z, V) else z

def decided(ex, f):
    """0, 1 or None"""
    f = T.subst_pc(f) if isinstance(f, V) else f
    if isinstance(f, int): return f
    return None

def half(m):
    if any(e % 2 for _, e in m): return None
    return tuple((x, e // 2) for x, e in m)
def mpow(m, n): return tuple((x, e * n) for x, e in m)

def mono(p, what):
    p = fe.pcsub(fe.freduce(p))
    if len(p) != 1: raise Unsupported('%s is not a monomial: %s' % (what, fe.fshow(p, 4)))
    (m, c), = p.items()
    for x, e in m:
        if x not in fe.NZ: raise Unsupported('%s may vanish' % what)
    return m, c

class Pnt:
    """what recognise finds: logarithm d, isomorphism v (monomial, None for infinity), z (poly), flag, magnitudes"""
    __slots__ = ('d', 'v', 'z', 'inf', 'mags')

def recognise(ex, st, what='point', checkflag=True):
    r = Pnt()
    inf = st[-1]
    inf = T.subst_pc(inf) if isinstance(inf, V) else inf
    if inf is UN: raise Unsupported('%s: uninitialised' % what)
    if isinstance(inf, int) and inf == 1:
        r.d, r.v, r.z, r.inf = {}, None, None, 1
        r.mags = tuple(f.mag if isinstance(f, FV) else 8 for f in st[:-1]); return r
    fs = [fe.asfv(f) for f in st[:-1]]
    zm, zc = mono(fs[2].p, 'z of ' + what) if len(fs) == 3 else ((), 1)
    x = fe.pcsub(fe.freduce(fs[0].p)); y = fe.pcsub(fe.freduce(fs[1].p))
    if not x or not y: raise Unsupported('%s: zero coordinate' % what)
    zi = pow(zc, -1, P)
    x = fmul(x, {mpow(zm, -2): zi * zi % P}); y = fmul(y, {mpow(zm, -3): pow(zi, 3, P)})
    cont, q, lc = fe.primitive(x)
    d = None
    if len(q) == 1:
        cand = [a for a, e in cont if a in ATX]
        if len(cand) == 1: d = ATX[cand[0]]
        elif not cand:
            h = half(cont)
            if h is None: raise Unsupported('%s: odd isomorphism' % what)
            ym = fmul(y, {mpow(h, -3): 1})
            if len(ym) != 1 or () not in ym: raise Unsupported('%s is not a known point' % what)
            d = CONSTPT.get((lc, ym[()]))
            if d is None:
                d = CONSTPT.get((lc, P - ym[()]))
                if d is None: raise Unsupported('%s: concrete point of unknown logarithm' % what)
                d = pneg(d)
        else: raise Unsupported('%s: several abscissae' % what)
    else: d = PRX.get(fe.fkey(q))
    if d is None: raise Unsupported('%s is not a known point: x = %s' % (what, fe.fshow(x, 4)))
    X_, Y_ = coords(d, True)                # the logarithm may have a simpler form under the path condition by now
    c0, q0, l0 = fe.primitive(X_)
    v2 = fe.mmulF(cont, mpow(c0, -1))
    h = half(v2)
    if h is None or lc != l0: raise Unsupported('%s: x is not an image of the abscissa' % what)
    y = fe.freduce(fmul(y, {mpow(h, -3): 1}))
    if y == fe.freduce(Y_): r.d = d
    elif y == fe.freduce(fneg(Y_)): r.d = pneg(d)
    else: raise Unsupported('%s: y does not belong to x' % what)
    r.v = h; r.z = {zm: zc}; r.inf = inf; r.mags = tuple(f.mag for f in fs)
    if isinstance(inf, V) and T.veq(pzero(r.d, True), inf): r.inf = inf = flag(r.d)      # the same fact, as it reads under the path condition
    if checkflag:
        f = flag(r.d)
        if not T.veq(f, inf):
            ex.oblige(T.eq(f, inf), 'pre', '%s: the infinity flag is set exactly for the neutral element' % what)
    return r

def finvmono(z):
    """inverse of a monomial that is not zero (a ratio q is as arbitrary as the product z q)"""
    (m, c), = z.items()
    return {mpow(m, -1): pow(c, -1, P)}

def maxmag(*l):
    r = 0
    for x in l: r = max(r, x) if isinstance(x, int) else 8
    return r

OUT = (6, 4, 2)
def junkF(mag=8): return FV(fatom(next(iter(T.var('junk%d' % len(T.AT), 0, P-1).p))[0]), mag, 0)

def mkjac(d, v, z=None, mags=OUT, inf=None):
    """Jacobian structure of the point d"""
    d = sc.pcsub(d)
    f = flag(d) if inf is None else inf
    if isinstance(f, int) and f: return L([junkF(), junkF(), junkF(), 1])
    if not d: raise Unsupported('finite structure for infinity')
    if v is None: raise Unsupported('isomorphism of a finite point unknown')
    if z is None: z = fresh_nz('z')
    X_, Y_ = coords(d)
    w = fmul({v: 1}, z)
    return L([FV(fmul(X_, fmul(w, w)), mags[0], 0), FV(fmul(Y_, fpow(w, 3)), mags[1], 0), FV(z, mags[2], 0), f])

def mkaff(d, v=(), mags=(1, 1), norm=0, inf=None):
    d = sc.pcsub(d)
    f = flag(d) if inf is None else inf
    if isinstance(f, int) and f: return L([junkF(), junkF(), 1])
    X_, Y_ = coords(d)
    return L([FV(fmul(X_, {mpow(v, 2): 1}), mags[0], norm), FV(fmul(Y_, {mpow(v, 3): 1}), mags[1], norm), f])

def pre_mags(ex, p, what):
    if p.inf == 1 and isinstance(p.inf, int): return
    for m, k in zip(p.mags, 'xyz'): fe.pre(ex, T.le(m, 8), '%s: magnitude of %s at most 8' % (what, k))

CONTRACTS = {}
def C(*names):
    def d(f):
        for n in names: CONTRACTS[n] = f
        return f
    return d

def opt(a):
    """Option<&mut Field>"""
    if not isinstance(a, E): raise Unsupported('option')
    return a[1] if a[0] == 1 else None

def isint1(f): return isinstance(f, int) and f == 1
def isint0(f): return isinstance(f, int) and f == 0

def dbl(ex, a, rzr, what, nonzero=False):
    A = recognise(ex, a, what + ': argument'); pre_mags(ex, A, what)
    if isint1(A.inf):
        if nonzero: ex.oblige(0, 'pre', what + ': the argument is not infinity')
        if rzr is not None: ex.writep(rzr, FV(fconst(1), 1, 1, 1))
        return mkjac({}, None)
    if nonzero: ex.oblige(T.bnot(A.inf), 'pre', what + ': the argument is not infinity')
    d = pscale(A.d, 2)
    z = None
    if rzr is not None:
        z = fresh_nz('z'); ex.writep(rzr, FV(fmul(z, finvmono(A.z)), 2, 0))
    return mkjac(d, A.v, z, OUT if isint0(A.inf) else (8, 8, 8))

@C('Jacobian::double_var_in_place')
def _(ex, fn, a):
    ex.writep(a[0], dbl(ex, ex.readp(a[1]), opt(a[2]), 'double_var')); return L([])
@C('Jacobian::double_nonzero_in_place')
def _(ex, fn, a):
    ex.oblige(T.bnot(ex.readp(a[0])[3]), 'pre', 'double_nonzero: the destination is not infinity')
    ex.writep(a[0], dbl(ex, ex.readp(a[1]), opt(a[2]), 'double_nonzero', True)); return L([])
@C('Jacobian::double_var')
def _(ex, fn, a): return dbl(ex, ex.readp(a[0]), opt(a[1]), 'double_var')

def plus(ex, a, b, rzr, what, bzinv=None, bfinite=False):
    A = recognise(ex, a, what + ': first point'); B = recognise(ex, b, what + ': second point')
    pre_mags(ex, A, what + ', first point'); pre_mags(ex, B, what + ', second point')
    if bfinite: ex.oblige(T.bnot(B.inf), 'pre', what + ': the second point is not infinity')
    vb = B.v
    if bzinv is not None and vb is not None:
        fe.pre(ex, T.le(bzinv.mag, 8), what + ': magnitude of the factor at most 8')
        m, c = mono(bzinv.p, what + ': factor')
        if c != 1: raise Unsupported('constant factor')
        vb = fe.mmulF(vb, m)
    if A.v is None: v = vb
    elif vb is None: v = A.v
    else:
        if A.v != vb: raise Unsupported('%s: points on different isomorphic curves' % what)
        v = A.v
    d = sc.pcsub(padd(A.d, B.d))
    if rzr is not None:
        ex.oblige(T.bnot(A.inf), 'pre', what + ': first point not infinity when the ratio is asked for')
        f = flag(d)
        if isint0(A.inf) and isint0(f):
            if isint1(B.inf):
                ex.writep(rzr, FV(fconst(1), 1, 1, 1)); return mkjac(A.d, A.v, A.z, A.mags)
            z = fresh_nz('z'); ex.writep(rzr, FV(fmul(z, finvmono(A.z)), 8, 0))
            return mkjac(d, v, z, OUT if isint0(B.inf) else (8, 8, 8))
        raise Unsupported('%s: ratio with points that may cancel' % what)
    if isint1(A.inf) and isint1(B.inf): return mkjac({}, None)
    if isint1(A.inf): return mkjac(B.d, vb, None, (8, 8, 8), None)
    if isint1(B.inf): return mkjac(A.d, A.v, A.z, A.mags)
    return mkjac(d, v, None, OUT if isint0(A.inf) and isint0(B.inf) else (8, 8, 8))

@C('Jacobian::add_var_in_place')
def _(ex, fn, a): ex.writep(a[0], plus(ex, ex.readp(a[1]), ex.readp(a[2]), opt(a[3]), 'add_var')); return L([])
@C('Jacobian::add_var')
def _(ex, fn, a): return plus(ex, ex.readp(a[0]), ex.readp(a[1]), opt(a[2]), 'add_var')
@C('Jacobian::add_ge_var_in_place')
def _(ex, fn, a): ex.writep(a[0], plus(ex, ex.readp(a[1]), ex.readp(a[2]), opt(a[3]), 'add_ge_var')); return L([])
@C('Jacobian::add_ge_var')
def _(ex, fn, a): return plus(ex, ex.readp(a[0]), ex.readp(a[1]), opt(a[2]), 'add_ge_var')
@C('Jacobian::add_ge_in_place')
def _(ex, fn, a): ex.writep(a[0], plus(ex, ex.readp(a[1]), ex.readp(a[2]), None, 'add_ge', bfinite=True)); return L([])
@C('Jacobian::add_ge')
def _(ex, fn, a): return plus(ex, ex.readp(a[0]), ex.readp(a[1]), None, 'add_ge', bfinite=True)
@C('Jacobian::add_zinv_var_in_place')
def _(ex, fn, a): ex.writep(a[0], plus(ex, ex.readp(a[1]), ex.readp(a[2]), None, 'add_zinv_var', fe.rd(ex, a[3]))); return L([])
@C('Jacobian::add_zinv_var')
def _(ex, fn, a): return plus(ex, ex.readp(a[0]), ex.readp(a[1]), None, 'add_zinv_var', fe.rd(ex, a[2]))

# ---------------------------------------------------------------- stored points
class StoredPt(Abs):
    """AffineStorage holding the affine coordinates of the finite point d (v = 1)"""
    __slots__ = ('d',)
    def __init__(s, d): s.d = d
    def merge(s, c, o):
        if isinstance(o, StoredPt):
            if o.d == s.d: return s
            return StoredPt(padd(o.d, pmul(sc.embed(c), psub(s.d, o.d))))
        return None
    def __repr__(s): return 'Stored(%s)' % sc.pshow(s.d, 3)
class StoredSel(Abs):
    """result of conditional moves: old overwritten by the entries whose flag is set, in order"""
    __slots__ = ('old', 'ents')
    def __init__(s, old, ents): s.old = old; s.ents = ents

def resolve(ex, s):
    if isinstance(s, StoredPt): return s
    if not isinstance(s, StoredSel): raise Unsupported('stored value %r' % (s,))
    ents = s.ents
    # flags (b = i) for i = 0 .. k over one term b with the range [0, k]
    # (a complete cover makes whatever was selected before it irrelevant)
    base = []
    for f, st in reversed(ents):
        l = T.lit(f) if isinstance(f, V) else None
        e = inner_eq(l[0]) if l and l[1] == 1 else None
        if e is None or (base and e[0] != base[0][0][0]): break
        base.insert(0, (e, st))
    if base and len(base) > 1:
        b, k = try_cover(base)
        if b is not None:
            d0 = base[0][1].d if base[0][0][1] == 0 else None
            by = {c: st for (m, c), st in base}
            d0, d1 = by[0].d, by[1].d
            step = psub(d1, d0)
            for i in range(k + 1):
                if by[i].d != padd(d0, pscale(step, i)): raise Unsupported('selected table is not an arithmetic progression')
            return StoredPt(padd(d0, pmul(step, sc.embed(b))))
    # booleans: exact when the old value is known
    old = resolve(ex, s.old)
    d = old.d
    for f, st in ents: d = padd(d, pmul(sc.embed(f), psub(st.d, d)))
    return StoredPt(d)

def inner_eq(a):
    """the atom says (term b) = (constant c): (poly key without constant, c, sign) """
    if a.isb and a.kind == 'eq0':
        v = a.args[0]
        c = v.p.get((), 0)
        q = {m: k for m, k in v.p.items() if m}
        mm = min(q)
        s = 1 if q[mm] > 0 else -1
        return (tuple(sorted((m, k * s) for m, k in q.items())), -c * s)
    return None

def try_cover(base):
    """all flags test the same term; after adding the right offset they cover a complete range 0..k"""
    m0 = base[0][0][0]
    if any(e[0] != m0 for e, _ in base): return None, 0
    cs = [e[1] for e, _ in base]
    if len(set(cs)) != len(cs): return None, 0
    q = T.mk(dict(m0))
    lo, hi = min(cs), max(cs)
    if hi - lo + 1 != len(cs): return None, 0
    # the sign of the term: ascending entries in program order
    b = T.sub(q, lo) if cs[0] == lo else T.sub(hi, q)
    l, h = T.ilo(b), T.ihi(b)
    if l is None or h is None or l < 0 or h > len(cs) - 1:
        st, _ = solver.prove(T.band(T.ge(b, 0), T.le(b, len(cs) - 1)))
        if st != 'proved': return None, 0
        b = T.mk(b.p, 0, len(cs) - 1)
    for i, (e, st) in enumerate(base):
        c = e[1] - lo if cs[0] == lo else hi - e[1]
        base[i] = ((e[0], c), st)
    return b, len(cs) - 1

@C('<Affine as From<AffineStorage>>::from')
def _(ex, fn, a):
    if not isinstance(a[0], (StoredPt, StoredSel)): return NotImplemented
    s = resolve(ex, a[0])
    f = flag(s.d)
    if not isint0(f):
        # a stored point is finite, so its logarithm is not zero
        if not isint1(f): sc.nonzero(sc.pcsub(s.d))
        else: raise Unsupported('stored infinity')
    return mkaff(s.d, (), (1, 1), 1, inf=0)

@C('<Affine as Into<AffineStorage>>::into')
def _(ex, fn, a):
    try: A = recognise(ex, a[0], 'into storage')
    except Unsupported: return NotImplemented
    pre_mags(ex, A, 'into storage')
    ex.oblige(T.bnot(A.inf), 'pre', 'into storage: the point is not infinity')
    if A.v != (): raise Unsupported('storing a point of an isomorphic curve')
    return StoredPt(A.d)

@C('AffineStorage::cmov')
def _(ex, fn, a):
    old = ex.readp(a[0]); new = ex.readp(a[1]); f = T.subst_pc(a[2]) if isinstance(a[2], V) else a[2]
    if not isinstance(new, (StoredPt, StoredSel)): return NotImplemented
    if isinstance(f, int):
        if f: ex.writep(a[0], new)
        return L([])
    new = resolve(ex, new)
    if isinstance(old, StoredSel) and len(old.ents) < 5000:
        # a complete cover makes everything before it irrelevant
        ex.writep(a[0], StoredSel(old.old, old.ents + [(f, new)]))
    else: ex.writep(a[0], StoredSel(old, [(f, new)]))
    return L([])

# ---------------------------------------------------------------- digit arrays (wNAF)
class DigitArr(L):
    """an array of signed digits known by contract: every digit is zero or odd, |d| <= dmax, zero from index `top` on,
    and sum d_j 2^j = sc"""
    __slots__ = ('name', 'sv', 'top', 'dmax', 'cache', 'reads', 'n')
    def __init__(s, n, name, sv, top, dmax):
        list.__init__(s, [UN] * 0); s.born = 0; s.n = n; s.name = name; s.sv = sv; s.top = top; s.dmax = dmax; s.cache = {}; s.reads = []
    def __len__(s): return s.n
    def digit(s, ex, i):
        k = i if isinstance(i, int) else i.k
        if k not in s.cache:
            v = T.var('%s%d' % (s.name, len(T.AT)), -s.dmax, s.dmax)
            s.cache[k] = (v, i)
        v, _ = s.cache[k]
        s.reads.append((i, v))
        ex.fact(T.bor(T.lt(i, s.top), T.eq(v, 0))); ex.fact(T.bor(T.eq(v, 0), T.eq(T.mod(v, 2), 1)))
        return v
    def symread(s, ex, i): return s.digit(ex, unwrap(i))
    def __getitem__(s, i):
        if isinstance(i, slice): raise Unsupported('slice of digits')
        return s.digit(EX[0], i)
    def __setitem__(s, i, v): raise Unsupported('write to digits')
    def __iter__(s): raise Unsupported('iteration over digits')
EX = [None]
def unwrap(i):
    """x for (x mod 2^64) with 0 <= x < 2^64 on this path"""
    if not isinstance(i, V): return i
    r = i
    for m, c in i.p.items():
        if c == -(1 << 64) and len(m) == 1: r = T.add(r, T.scale(T.mk({m: 1}), 1 << 64))
    if r is i or not isinstance(r, V): return i
    if solver.prove(T.band(T.ge(r, 0), T.lt(r, 1 << 64)))[0] != 'proved': return i
    return r

# ---------------------------------------------------------------- accumulator loops
def isjac(v): return isinstance(v, L) and not isinstance(v, E) and len(v) == 4 and all(isinstance(f, FV) or (isinstance(f, L) and len(f) == 3) for f in v[:3]) and isinstance(v[3], (int, V))

class Acc:
    """inference and use of the invariant 'the accumulator is the point T_k' for a loop whose bound is symbolic"""
    def __init__(s, arrays): s.arrays = arrays      # () -> list of DigitArr / key sequences in play

def accloop(ex, fr, bb, stop):
    """contract of a loop T_{k+1} = c T_k + sum_a a[i_k] * base_a; None when the loop is not symbolic"""
    if bb in fr.unroll: return None
    EX[0] = ex
    backs = ex.collect(fr, bb)
    if not backs or all(not pc for _, pc in backs):
        fr.unroll.add(bb); return None
    cells = {}
    for ch, pc in backs:
        for q, (l, i, old, new) in ch.items():
            if old is not new: cells[q] = (l, i, old)
    ints, accs, junk, views = {}, {}, {}, {}
    for q, (l, i, old) in cells.items():
        news = [ch[q][3] for ch, pc in backs if q in ch]
        if len(news) == len(backs) and isinstance(old, X.View) and all(isinstance(x, X.View) and x.l is old.l and x.arr == old.arr for x in news):
            es = [(T.sub(x.start, old.start), T.sub(x.n, old.n)) for x in news]
            if all(isinstance(e, int) and isinstance(f, int) and (e, f) == es[0] for e, f in es):
                views[q] = (l, i, old) + es[0]; continue
        if len(news) == len(backs) and all(isinstance(x, (int, V)) for x in news) and isinstance(old, (int, V)):
            es = [T.sub(x, old) for x in news]
            if all(isinstance(e, int) and e == es[0] for e in es):
                if es[0]: ints[q] = (l, i, old, es[0])
                continue
        if isjac(old) and all(isjac(x) for x in news): accs[q] = (l, i, old)
        else: junk[q] = (l, i, old)
    if len(accs) != 1: raise Unsupported('loop over points: %d accumulators' % len(accs))
    if not ints and not any(f for *_, f in views.values()): ex.oblige(0, 'termination', 'the loop makes progress')
    (aq, (al, ai, aold)), = accs.items()
    A0 = recognise(ex, aold, 'accumulator on entry')
    start = sc.pcsub(A0.d)
    # the isomorphic curve on which the loop works
    vs = set()
    for ch, pc in backs:
        if aq not in ch: continue
        n = ch[aq][3]
        npc = T.push_scope()
        try:
            for c in pc: T.assume(c)
            try: v = recognise(ex, n, 'accumulator', False).v
            except Unsupported: v = None
            if v is not None: vs.add(v)
        finally: T.pop_scope(npc)
    if len(vs) > 1: raise Unsupported('accumulator on different curves')
    v = vs.pop() if vs else ()
    kv = T.var('iter%d' % len(T.AT), 0, 1 << 40); kid = next(iter(kv.p))[0]
    tv = T.var('acc%d' % len(T.AT), 0, N - 1); t = satom(next(iter(tv.p))[0])
    def setgen():
        for l, i, old, e in ints.values(): ex.wr(l, i, T.add(old, T.scale(kv, e)))
        for l, i, old, e, f in views.values(): ex.wr(l, i, X.View(old.l, T.add(old.start, T.scale(kv, e)), T.add(old.n, T.scale(kv, f)), old.arr))
        for l, i, old in junk.values(): ex.wr(l, i, UN)
        ex.wr(al, ai, mkjac(t, v, None, (8, 8, 8)))
    # generic iteration
    npc = T.push_scope(); ex.mark()
    try:
        setgen()
        at0 = len(T.AT)
        for a in ex.arrays: a.reads.clear()
        gb = ex.collect(fr, bb)
        steps = []
        C = T.bany([T.ball(pc) for _, pc in gb])
        for ch, pc in gb:
            m = T.push_scope()
            try:
                for c in pc: T.assume(c)
                for q, (l, i, old, e) in ints.items():
                    if q not in ch or not T.veq(T.sub(ch[q][3], T.add(old, T.scale(kv, e))), e): raise Unsupported('loop counter is not uniform')
                for q, (l, i, old, e, f) in views.items():
                    x = ch[q][3] if q in ch else None
                    if not (isinstance(x, X.View) and x.l is old.l and T.veq(T.sub(x.start, T.add(old.start, T.scale(kv, e))), e) and T.veq(T.sub(x.n, T.add(old.n, T.scale(kv, f))), f)): raise Unsupported('loop slice is not uniform')
                for q, (l, i, old, new) in ch.items():
                    if q in views: continue
                    if q not in ints and q not in accs and q not in junk and old is not new and not (isinstance(old, (int, V)) and isinstance(new, (int, V)) and T.veq(old, new)):
                        raise Unsupported('loop changes more than the first iteration does')
                S = recognise(ex, ch[aq][3], 'accumulator after an iteration') if aq in ch else None
                d = S.d if S else t
                if S and S.v is not None and S.v != v: raise Unsupported('accumulator changes curve')
                if S:
                    for mg in S.mags: ex.oblige(T.le(mg, 8), 'invariant', 'loop: magnitude of the accumulator at most 8')
                steps.append((sc.pcsub(d), list(pc)))
            finally: T.pop_scope(m)
        reads = {id(a): (a, list(a.reads)) for a in ex.arrays if a.reads}
    finally: ex.undo(); T.pop_scope(npc)
    ta = next(iter(t))[0][0]
    mult = None
    for d, pc in steps:
        c = d.get(((ta, 1),), 0)
        if mult is None: mult = c
        elif mult != c: raise Unsupported('loop: accumulator scaled differently')
    bases = {}; idx = {}
    for a, rd in reads.values():
        ks = {(i if isinstance(i, int) else i.k): (i, dv) for i, dv in rd}
        if len(ks) != 1: raise Unsupported('loop reads several digits of one array')
        (i, dv), = ks.values()
        idx[id(a)] = i
        datom = a.logatom(dv)
        for d, pc in steps:
            co = {}
            for m, c in d.items():
                e = dict(m)
                if e.pop(datom, 0) == 1: co[tuple(sorted(e.items()))] = c
            if co:
                if id(a) in bases and bases[id(a)] != co: raise Unsupported('loop: inconsistent multiples')
                bases[id(a)] = co
        bases.setdefault(id(a), {})
    # every path realises  T' = mult * T + sum digit * base
    for d, pc in steps:
        e = pscale(t, mult)
        m = T.push_scope()
        try:
            for c in pc: T.assume(c)
            for a, rd in reads.values():
                if hasattr(a, 'digit'): a.digit(ex, rd[0][0])       # its facts, also where the path does not read it
                if a.absent(rd[0][1]): continue
                e = padd(e, pmul(satom(a.logatom(rd[0][1])), bases[id(a)]))
            z = pzero(psub(d, e))
            ex.oblige(z, 'invariant', 'loop: the accumulator is multiplied by %d and the digits times their bases are added' % mult)
        finally: T.pop_scope(m)
    total = start
    if start and (mult != 1 or A0.v not in (None, v)): raise Unsupported('accumulator does not start at infinity')
    sums = []
    for a, rd in reads.values():
        i = idx[id(a)]
        i0 = T.rebuild(i, {kid: 0}); i1 = T.sub(i, i0) if isinstance(i, V) else None
        if i1 is None or not (T.veq(i1, kv) or T.veq(i1, T.neg(kv))): raise Unsupported('loop: index is not linear')
        if hasattr(a, 'rangesum'):
            if mult != 1: raise Unsupported('the terms are not summed')
            sums.append((a, i0, i, 1 if T.veq(i1, kv) else -1))
        else: total = padd(total, pmul(a.total(mult, 1 if T.veq(i1, kv) else -1), bases[id(a)]))
    def onexit(ex_, fr_):
        for a, rd in reads.values():
            i = idx[id(a)]; i0 = T.rebuild(i, {kid: 0})
            if not hasattr(a, 'rangesum'): a.exit_obligations(ex, i0, T.mk(dict(i.p)) if isinstance(i, V) else i, kv)
        if fr_ is fr:
            tot = total
            for a, i0, i, up in sums: tot = padd(tot, pmul(a.rangesum(ex, i0, T.mk(dict(i.p)) if isinstance(i, V) else i, up), bases[id(a)]))
            ex.wr(al, ai, mkjac(tot, v, None, (8, 8, 8)))
    setgen()
    ex.fact(T.bor(T.eq(kv, 0), T.rebuild(C, {kid: T.sub(kv, 1)})) if isinstance(C, V) else 1)
    return from_header_exit(ex, fr, bb, stop, onexit)

def old_only(c, at0):
    """the condition speaks only about quantities that exist before the iteration (and the iteration number)"""
    seen = set()
    def go(v):
        if not isinstance(v, V): return True
        for m in v.p:
            for x in m:
                if x in seen: continue
                seen.add(x); a = T.AT[x]
                if a.args:
                    if not all(go(y) for y in a.args): return False
                elif x >= at0: return False
        return True
    return go(c)

def from_header_exit(ex, fr, bb, stop, onexit):
    lr = X.LoopRun(fr, bb, 'fresh'); lr.backs = ['exit']; lr.onback = None
    lr.onexit = onexit
    lr.exits = {t for b in lr.body for t in fr.fn.succ[b] if t not in lr.body}
    ex.lruns.append(lr)
    try: return ex.run(fr, bb, stop, fresh=True)
    finally: ex.lruns.remove(lr)

def _logatom(s, dv): return next(iter(dv.p))[0]
DigitArr.logatom = _logatom
def _total(s, mult, slope):
    if mult != 2 or slope != -1: raise Unsupported('digits are not combined from the top by doubling')
    return s.sv.p
DigitArr.total = _total
def _exitob(s, ex, i0, i, kv):
    ex.oblige(T.eq(i, -1), 'invariant', 'loop: every digit of %s down to index 0 was used' % s.name)
    ex.oblige(T.ge(T.add(i0, 1), s.top), 'invariant', 'loop: no digit of %s above the first index' % s.name)
DigitArr.exit_obligations = _exitob
DigitArr.absent = lambda s, dv: solver.prove(T.eq(dv, 0))[0] == 'proved'
