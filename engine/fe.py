"""Abstract field elements: polynomials over F_p (Laurent in atoms known to be non-zero), with magnitude and
normalisation flag, and the call-site contracts of core/src/field.rs (proved limb by limb in u_field.py)."""
import terms as T, exec as X
from exec import L, E, Slot, View, Abs, Alt, NONE
from terms import V, Unsupported
from ctx import P, be, words

# ---------------------------------------------------------------- polynomials over F_p: {((atom,exp),...): coef}
def fconst(c):
    c %= P
    return {(): c} if c else {}
def fatom(a): return {((a, 1),): 1}

NZ = set()          # atoms known non-zero
RULES = {}          # atom -> (exp, poly): atom^exp rewrites to poly
NZPOLY = []         # primitive polys known non-zero (path independent facts of the unit)
CAN = {}            # atom id -> poly (atom is the canonical integer of poly)
FEQ = {}
def freset():
    NZ.clear(); RULES.clear(); NZPOLY.clear(); CAN.clear(); FEQ.clear(); _CANK.clear()
_CANK = {}
T.RESET_HOOKS.append(freset)

def mmulF(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n: d[x] = 1 if T.ISB[x] and n > 0 else n
        else: del d[x]
    return tuple(sorted(d.items()))

def fadd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        e = (r.get(m, 0) + c) % P
        if e: r[m] = e
        else: r.pop(m, None)
    return r
def fscale(a, c):
    c %= P
    if c == 0: return {}
    return {m: d*c % P for m, d in a.items()}
def fneg(a): return fscale(a, -1)
def fsub(a, b): return fadd(a, fneg(b))
def fmul0(a, b):
    r = {}
    if len(a) * len(b) > 400000: raise Unsupported('field polynomial too large')
    for m, c in a.items():
        for n, d in b.items():
            k = mmulF(m, n)
            e = (r.get(k, 0) + c*d) % P
            if e: r[k] = e
            else: r.pop(k, None)
    return r
def fmul(a, b): return freduce(fmul0(a, b))
def fpow(a, n):
    if len(a) == 1:
        (m, c), = a.items()
        return freduce({tuple((x, 1 if T.ISB[x] and n > 0 else e*n) for x, e in m): pow(c, n, P)})
    if n < 0: return finv(fpow(a, -n))
    r = fconst(1)
    while n:
        if n & 1: r = fmul(r, a)
        a = fmul(a, a); n >>= 1
    return r

def freduce(p):
    if not RULES: return p
    for _ in range(10000):
        for m, c in p.items():
            hit = None
            for x, e in m:
                r = RULES.get(x)
                if r and e >= r[0]: hit = (x, e, r); break
            if hit: break
        else: return p
        x, e, (n, q) = hit
        p = dict(p); del p[m]
        rest = tuple((a, b) for a, b in m if a != x)
        if e - n: rest = tuple(sorted(rest + ((x, e - n),)))
        for m2, c2 in q.items():
            k = mmulF(rest, m2)
            v = (p.get(k, 0) + c * c2) % P
            if v: p[k] = v
            else: p.pop(k, None)
    raise Unsupported('rewriting does not terminate')

def fkey(p): return frozenset(p.items())

def finv(p):
    """inverse of a polynomial known to be non-zero"""
    if len(p) == 1:
        (m, c), = p.items()
        if all(x in NZ for x, e in m):
            return {tuple((x, -e) for x, e in m): pow(c, -1, P)}
    # fresh unit w = p  (content pulled out)
    cont, prim, lc = primitive(p)
    k = fkey(prim)
    a = _CANK.get(('unit', k))
    if a is None:
        v = T.var('unit%d' % len(T.AT), 1, P-1)
        a = next(iter(v.p))[0]
        NZ.add(a); _CANK[('unit', k)] = a
        UNITDEF[a] = prim
    return {mmulF(tuple((x, -e) for x, e in cont), ((a, -1),)): pow(lc, -1, P)}
UNITDEF = {}
T.RESET_HOOKS.append(UNITDEF.clear)

def clear_units(p):
    """multiply out the units introduced by finv (each stands for its defining polynomial)"""
    for _ in range(50):
        us = {}
        for m in p:
            for x, e in m:
                if x in UNITDEF: us[x] = min(us.get(x, 0), e)
        if not us: return p
        x, e = next(iter(us.items()))
        if e < 0: p = {mmulF(m, ((x, -e),)): c for m, c in p.items()}
        q = {}
        for m, c in p.items():
            d = dict(m); n = d.pop(x, 0)
            q = fadd(q, fmul({tuple(sorted(d.items())): c}, fpow(UNITDEF[x], n)))
        p = freduce(q)
    raise Unsupported('units')

def primitive(p):
    """(content monomial, primitive part, leading coefficient)"""
    exps = None
    for m in p:
        d = dict(m)
        if exps is None: exps = d
        else:
            exps = {x: min(exps.get(x, 0), d.get(x, 0)) for x in set(exps) | set(d)}
    cont = tuple(sorted((x, e) for x, e in exps.items() if e))
    q = {mmulF(m, tuple((x, -e) for x, e in cont)): c for m, c in p.items()}
    lm = max(q)
    lc = q[lm]
    if lc != 1: q = fscale(q, pow(lc, -1, P))
    return cont, q, lc

def nonzero_fact(p):
    cont, q, lc = primitive(p)
    for x, e in cont: NZ.add(x)
    if len(q) > 1: NZPOLY.append(q)

def pcsub(p):
    """replace 0/1 atoms decided on the current path"""
    if not T.PCLIT: return p
    hit = any(x in T.PCLIT for m in p for x, e in m)
    if not hit: return p
    r = {}
    for m, c in p.items():
        d = []
        for x, e in m:
            if x in T.PCLIT:
                if T.PCLIT[x] == 0: d = None; break
            else: d.append((x, e))
        if d is None: continue
        k = tuple(d); v = (r.get(k, 0) + c) % P
        if v: r[k] = v
        else: r.pop(k, None)
    return r

def fzero(p):
    """0/1 value: p == 0 in F_p"""
    p = pcsub(freduce(p))
    if not p: return 1
    p = clear_units(p)
    if not p: return 1
    if len(p) == 1 and () in p: return 0
    cont, q, lc = primitive(p)
    zs = []
    for x, e in cont:
        if x not in NZ: zs.append(atom_zero(x))
    if len(q) > 1:
        zs.append(poly_zero(q))
    return T.bany(zs)

def atom_zero(x):
    a = T.AT[x]
    if a.isb: return T.bnot(T.av(a))
    return T.eq0(T.av(a))

def poly_zero(q):
    for n in NZPOLY:
        if n == q: return 0
    for h in ZERO_HOOKS:
        r = h(q)
        if r is not None: return r
    # linear in T atoms with small integer range?  decide through integers
    k = fkey(q)
    a = FEQ.get(k)
    if a is None:
        a = T.atom('feq0', (), 0, 1, 'feq%d' % len(T.AT), ('feq0', k))
        FEQ[k] = a
        FEQP[a.id] = q
    if a.id in T.PCLIT: return T.PCLIT[a.id]
    return T.av(a)
FEQP = {}
T.RESET_HOOKS.append(FEQP.clear)
ZERO_HOOKS = []

def feval(p, env, memo):
    t = 0
    for m, c in p.items():
        for x, e in m:
            v = T.eval_atom(T.AT[x], env, memo) if x not in UNITDEF else feval(UNITDEF[x], env, memo)
            c = c * pow(v, e, P) % P
        t += c
    return t % P
def _evfeq(a, env, memo): return int(feval(FEQP[a.id], env, memo) == 0)
T.EVAL_HOOKS['feq0'] = _evfeq

def embed(v):
    """integer term -> field polynomial"""
    if isinstance(v, int): return fconst(v)
    r = {}
    for m, c in v.p.items():
        t = fconst(c)
        for x in m:
            q = CAN.get(x)
            t = fmul(t, q if q is not None else fatom(x))
        r = fadd(r, t)
    return r

def fshow(p, n=8):
    return ' + '.join('%s%s' % (hex(c) if c < 2**64 else ('-' + hex(P-c) if P - c < 2**64 else '..'), ''.join('*%r^%d' % (T.AT[x], e) for x, e in m)) for m, c in sorted(p.items())[:n]) + (' ..%d' % len(p) if len(p) > n else '')

# ---------------------------------------------------------------- abstract value
class FV(Abs):
    __slots__ = ('p', 'mag', 'norm', 'iv')
    def __init__(s, p, mag, norm=0, iv=None): s.p = p; s.mag = mag; s.norm = norm; s.iv = iv
    def merge(s, c, o):
        if isinstance(o, FV) and s.p == o.p and T.veq(s.norm, o.norm) and T.veq(s.mag, o.mag): return s
        if MERGE[0] and isinstance(o, FV):
            cc = embed(c)
            return FV(fadd(o.p, fmul(cc, fsub(s.p, o.p))), T.ite(c, s.mag, o.mag), T.ite(c, s.norm, o.norm))
        return None
    def materialize(s, ex): raise Unsupported('limbs of an abstract field element')
    def __repr__(s): return 'FV(%s; mag %s%s)' % (fshow(s.p, 3), s.mag, ' norm' if s.norm == 1 else '')
MERGE = [False]

def fvar(name, mag, norm=0, nz=False):
    v = T.var(name, 1 if nz else 0, P-1)
    a = next(iter(v.p))[0]
    if nz: NZ.add(a)
    return FV(fatom(a), mag, norm, v if T.veq(norm, 1) else None)

def aid(fv):
    (m, c), = fv.p.items()
    return m[0][0]

def ivof(f):
    """canonical integer of a (normalised) element"""
    if f.iv is not None: return f.iv
    p = pcsub(freduce(f.p))
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and T.AT[m[0][0]].kind == 'var' and T.AT[m[0][0]].hi is not None and T.AT[m[0][0]].hi < P and T.AT[m[0][0]].lo >= 0:
            return T.av(T.AT[m[0][0]])
        if c == P-1 and len(m) == 1 and m[0][1] == 1 and T.AT[m[0][0]].kind == 'var' and T.AT[m[0][0]].hi is not None and T.AT[m[0][0]].hi < P and T.AT[m[0][0]].lo >= 0:
            x = T.av(T.AT[m[0][0]]); r = T.sub(P if m[0][0] in NZ else T.scale(T.ne(x, 0), P), x)
            return T.mk(r.p, 0, P-1)
    k = fkey(p)
    v = _CANK.get(k)
    if v is None:
        v = T.av(T.atom('var', (), 0, P-1, 'can%d' % len(T.AT)))
        a = next(iter(v.p))[0]
        CAN[a] = p; _CANK[k] = v
        for h in CAN_HOOKS: h(a, p)
    return v
CAN_HOOKS = []

def asfv(v):
    if isinstance(v, FV): return v
    if isinstance(v, L) and len(v) == 3 and isinstance(v[0], L) and len(v[0]) == 10:
        iv = T.vsum([T.scale(x, 1 << (26*i)) for i, x in enumerate(v[0])])
        if isinstance(iv, int) and isinstance(v[1], int): return FV(fconst(iv), v[1], v[2], iv % P)
    raise Unsupported('field value %r' % (v,))

def rd(ex, p): return asfv(ex.readp(p))

def pre(ex, c, desc): 
    ex.oblige(c, 'pre', desc)

def C(*names):
    def d(f):
        for n in names: CONTRACTS[n] = f
        return f
    return d
CONTRACTS = {}

MAGN = 31

@C('Field::normalize', 'Field::normalize_var')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, MAGN), 'normalize: magnitude at most 31')
    ex.writep(a[0], FV(f.p, 1, 1, f.iv))
    return L([])

@C('Field::normalize_weak')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, MAGN), 'normalize_weak: magnitude at most 31')
    ex.writep(a[0], FV(f.p, 1, f.norm, f.iv))
    return L([])

@C('Field::normalizes_to_zero', 'Field::normalizes_to_zero_var')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, MAGN), 'normalizes_to_zero: magnitude at most 31')
    return fzero(f.p)

@C('Field::set_int')
def _(ex, fn, a):
    pre(ex, T.lt(a[1], 2**26), 'set_int: argument below 2^26')
    ex.writep(a[0], FV(embed(a[1]), 1, 1, a[1])); return L([])

@C('Field::from_int')
def _(ex, fn, a):
    pre(ex, T.lt(a[0], 2**26), 'from_int: argument below 2^26')
    return FV(embed(a[0]), 1, 1, a[0])

@C('Field::is_zero')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, f.norm, 'is_zero: argument normalized')
    return fzero(f.p)

@C('Field::is_odd')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, f.norm, 'is_odd: argument normalized')
    return oddof(f)

def oddof(f): return T.mod(ivof(f), 2)

@C('Field::clear')
def _(ex, fn, a): ex.writep(a[0], FV({}, 0, 1, 0)); return L([])

@C('<Field as Default>::default')
def _(ex, fn, a): return FV({}, 0, 1, 0)

@C('Field::set_b32')
def _(ex, fn, a):
    b = ex.readp(a[1])
    v = T.subst_pc(be(list(b)))
    ok = T.lt(v, P)
    old = ex.readp(a[0])
    def yes():
        ex.writep(a[0], FV(embed(v), 1, 1, T.mk(v.p, 0, P-1) if isinstance(v, V) else v)); return 1
    def no():
        n = getattr(old, 'mag', 0)
        ex.writep(a[0], X.UN); return 0
    return Alt([(ok, yes), (T.bnot(ok), no)])

def bytes_of(iv, n=32): return L([T.mod(T.fdiv(iv, 1 << (8*(n-1-i))), 256) for i in range(n)])

@C('Field::fill_b32')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, f.norm, 'fill_b32: argument normalized')
    ex.writep(a[1], bytes_of(ivof(f))); return L([])

@C('Field::b32')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, f.norm, 'b32: argument normalized')
    return bytes_of(ivof(f))

@C('Field::neg_in_place')
def _(ex, fn, a):
    f = rd(ex, a[1]); pre(ex, T.le(f.mag, a[2]), 'neg: magnitude within the stated bound'); pre(ex, T.le(a[2], 31), 'neg: bound at most 31')
    ex.writep(a[0], FV(fneg(f.p), T.add(a[2], 1), 0)); return L([])

@C('Field::neg')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, a[1]), 'neg: magnitude within the stated bound'); pre(ex, T.le(a[1], 31), 'neg: bound at most 31')
    return FV(fneg(f.p), T.add(a[1], 1), 0)

@C('Field::mul_int')
def _(ex, fn, a):
    f = rd(ex, a[0])
    if not isinstance(a[1], int): raise Unsupported('mul_int by a variable')
    pre(ex, T.le(T.scale(f.mag, a[1]), 32), 'mul_int: magnitude of the product at most 32')
    ex.writep(a[0], FV(fscale(f.p, a[1]), T.scale(f.mag, a[1]), 0)); return L([])

@C('<Field as AddAssign<&Field>>::add_assign')
def _(ex, fn, a):
    f = rd(ex, a[0]); g = rd(ex, a[1])
    m = T.add(f.mag, g.mag)
    pre(ex, T.le(m, 32), 'add: sum of magnitudes at most 32')
    ex.writep(a[0], FV(freduce(fadd(f.p, g.p)), m, 0)); return L([])

@C('Field::mul_in_place')
def _(ex, fn, a):
    f = rd(ex, a[1]); g = rd(ex, a[2])
    pre(ex, T.le(f.mag, 8), 'mul: magnitude of the first factor at most 8'); pre(ex, T.le(g.mag, 8), 'mul: magnitude of the second factor at most 8')
    ex.writep(a[0], FV(fmul(f.p, g.p), 1, 0)); return L([])

@C('Field::sqr_in_place')
def _(ex, fn, a):
    f = rd(ex, a[1]); pre(ex, T.le(f.mag, 8), 'sqr: magnitude at most 8')
    ex.writep(a[0], FV(fmul(f.p, f.p), 1, 0)); return L([])

@C('Field::sqr')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, 8), 'sqr: magnitude at most 8')
    return FV(fmul(f.p, f.p), 1, 0)

@C('<Field as PartialEq>::eq')
def _(ex, fn, a):
    f = rd(ex, a[0]); g = rd(ex, a[1])
    pre(ex, T.le(T.add(f.mag, g.mag), 30), 'eq: sum of magnitudes at most 30')
    return fzero(fsub(f.p, g.p))

@C('Field::eq_var')
def _(ex, fn, a):
    f = rd(ex, a[0]); g = rd(ex, a[1])
    pre(ex, T.le(f.mag, 1), 'eq_var: magnitude of self at most 1'); pre(ex, T.le(g.mag, 29), 'eq_var: magnitude of other at most 29')
    return fzero(fsub(f.p, g.p))

@C('Field::cmp_var')
def _(ex, fn, a):
    f = rd(ex, a[0]); g = rd(ex, a[1])
    pre(ex, f.norm, 'cmp: self normalized'); pre(ex, g.norm, 'cmp: other normalized')
    return ex.cmp3(ivof(f), ivof(g))

@C('Field::inv', 'Field::inv_var')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, 8), 'inv: magnitude at most 8')
    p = pcsub(freduce(f.p))
    z = fzero(p)
    if isinstance(z, int): return FV(finv(p) if not z else {}, 1, 0)
    return Alt([(z, lambda: FV({}, 1, 0)), (T.bnot(z), lambda: FV(finv_path(p), 1, 0))])

def finv_path(p):
    """inverse where p != 0 is only known on this path: an atom w with w*p = 1 there"""
    k = ('inv', fkey(p))
    a = _CANK.get(k)
    if a is None:
        v = T.var('inv%d' % len(T.AT), 0, P-1)
        a = _CANK[k] = next(iter(v.p))[0]
        INVOF[a] = p
    return fatom(a)
INVOF = {}
T.RESET_HOOKS.append(INVOF.clear)

@C('Field::sqrt')
def _(ex, fn, a):
    """(r, ok): ok iff self is a square, then r^2 = self; r is itself a square; otherwise r^2 = -self"""
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, 8), 'sqrt: magnitude at most 8')
    p = freduce(f.p)
    r, ok = sqrt_atoms(p)
    def junk():
        T.assume(T.bnot(fzero(p)))       # zero is a square
        return L([FV(sqrt_junk(p), 1, 0), 0])
    return Alt([(ok, lambda: L([FV(r, 1, 0), 1])), (T.bnot(ok), junk)])

SQ = {}
T.RESET_HOOKS.append(SQ.clear)
SQRT_HOOKS = []
def sqrt_atoms(p):
    """(polynomial of the square root that is a square, 0/1 value 'p is a square')"""
    k = fkey(p)
    if k in SQ: return SQ[k]
    for h in SQRT_HOOKS:
        r = h(p)
        if r is not None:
            SQ[k] = r; return r
    ok = T.boolvar('issq%d' % len(T.AT))
    v = T.var('root%d' % len(T.AT), 0, P-1)
    a = next(iter(v.p))[0]
    RULES[a] = (2, p)
    SQ[k] = (fatom(a), ok)
    ROOTOF[a] = (p, ok)
    return SQ[k]
ROOTOF = {}
T.RESET_HOOKS.append(ROOTOF.clear)
def sqrt_junk(p):
    v = T.var('nroot%d' % len(T.AT), 0, P-1); a = next(iter(v.p))[0]
    RULES[a] = (2, fneg(p))              # -1 is no square, so -p is one
    return fatom(a)

@C('Field::is_quad_var')
def _(ex, fn, a):
    f = rd(ex, a[0]); pre(ex, T.le(f.mag, 8), 'is_quad: magnitude at most 8')
    return sqrt_atoms(freduce(f.p))[1]

@C('Field::cmov')
def _(ex, fn, a):
    f = ex.readp(a[0]); g = ex.readp(a[1]); c = T.subst_pc(a[2]) if isinstance(a[2], V) else a[2]
    if isinstance(c, int):
        if c: ex.writep(a[0], g)
        return L([])
    r = asfv(g).merge(c, asfv(f))
    if r is not None:
        ex.writep(a[0], r); return L([])
    def y(): ex.writep(a[0], g); return L([])
    return Alt([(c, y), (T.bnot(c), lambda: L([]))])

@C('<Field as Into<FieldStorage>>::into')
def _(ex, fn, a):
    f = asfv(a[0]); pre(ex, f.norm, 'into storage: argument normalized')
    iv = ivof(f)
    return L([L([T.mod(T.fdiv(iv, 1 << (32*i)), 1 << 32) for i in range(8)])])

@C('<Field as From<FieldStorage>>::from')
def _(ex, fn, a):
    s = a[0][0]
    iv = T.subst_pc(words(list(s)))
    pre(ex, T.lt(iv, P), 'from storage: stored value below p')
    if isinstance(iv, V): iv = T.mk(iv.p, 0, P-1)
    return FV(embed(iv), 1, 1, iv)
