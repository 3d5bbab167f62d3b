"""Contracts of core/src/ecdsa.rs, core/src/ecdh.rs and the point-level operations of src/lib.rs over the contracts of the
three multiplications (proved in u_mult.py), in the model of points by logarithms (pts.py)."""
import terms as T, exec as X, fe, sc, pts, solver, oracle
from ctx import *
from exec import Alt, E, L, Slot, View, ParamArr, UN, NONE
from terms import V
from fe import FV, fconst, fadd, fsub, fneg, fpow, fatom
from sc import SV, svar, padd, psub, pmul, pneg, pscale, pzero, satom, sinv, ivof
from pts import mkaff, mkjac, recognise, StoredPt, coords, register
from u_mult import CON, ctx_g, junkjac, junkaff
from u_codec import iserr, ok, evar, bytes8
from seq import Seq, refresh

# ---------------------------------------------------------------- equality of small integer combinations in F_p
ON = [0]
T.RESET_HOOKS.append(lambda: ON.__setitem__(0, 0))
def linear(q):
    """q = sum c_i a_i + c_0 over variables of known range: zero in F_p exactly when the integer is a multiple of p"""
    if not ON[0]: return None
    v = q.get((), 0)
    if v > P // 2: v -= P
    for m, c in q.items():
        if m == (): continue
        if len(m) != 1 or m[0][1] != 1: return None
        a = T.AT[m[0][0]]
        if a.kind != 'var' or a.lo is None or a.hi is None or a.lo < -P or a.hi > 2*P: return None
        if c > P // 2: c -= P
        if abs(c) > 4: return None
        v = T.add(v, T.scale(T.av(a), c))
    lo, hi = T.ilo(v), T.ihi(v)
    if lo is None or hi is None: return None
    k0, k1 = -((-lo) // P), hi // P
    if k1 - k0 > 6: return None
    return T.bany([T.eq(v, k * P) for k in range(k0, k1 + 1)])
fe.ZERO_HOOKS.append(linear)

def start(c, con, label):
    ex = c.fresh(con, label); ex.nomerge = True; pts.EX[0] = ex; ON[0] = 1
    return ex

# ---------------------------------------------------------------- call-site contracts
def isctx(ex, p, what):
    """the context is well formed: made by the caller so, or a static of the crate (C07)"""
    if any(isinstance(p, Slot) and p.l is q.l for q in ex.statics.values()): return
    g = ex.readp(p)
    if not (isinstance(g, L) and len(g) and isinstance(g[0], (ParamArr, Gen))): raise T.Unsupported('context of ' + what)
class Gen(X.Abs):
    """the tables of a well-formed ECMultGenContext"""
    __slots__ = ()
    def materialize(s, ex): raise T.Unsupported('inside of the signing table')
def ctx_gen(): return L([Gen(), Gen(), Gen()])

def out(ex, p, d): ex.writep(p, mkjac(d, (), None, (8, 8, 8))); return L([])
def point(ex, p, what, mags=8):
    A = recognise(ex, ex.readp(p), what)
    ex.oblige(T.bnot(A.inf), 'pre', what + ': the point is finite')
    if A.v != (): raise T.Unsupported(what + ': point of an isomorphic curve')
    for m in A.mags: ex.oblige(T.le(m, mags), 'pre', what + ': magnitudes at most %d' % mags)
    return A.d
def c_ecmult(ex, fn, a):
    isctx(ex, a[0], 'ecmult'); d = point(ex, a[2], 'ecmult')
    return out(ex, a[1], padd(pmul(sc.rd(ex, a[3]).p, d), sc.rd(ex, a[4]).p))
def c_ecmult_gen(ex, fn, a):
    isctx(ex, a[0], 'ecmult_gen'); return out(ex, a[1], sc.rd(ex, a[2]).p)
def c_ecmult_const(ex, fn, a):
    d = point(ex, a[2], 'ecmult_const'); return out(ex, a[1], pmul(sc.rd(ex, a[3]).p, d))

LIFT = {}          # abscissa -> (0/1 value 'on the curve', logarithm of its point with even ordinate)
T.RESET_HOOKS.append(LIFT.clear)
def known_x(p):
    """(condition, logarithm up to sign) of a point with this abscissa"""
    p = fe.pcsub(fe.freduce(p))
    k = fe.fkey(p)
    if k in LIFT: return LIFT[k]
    for q in list(pts.PT):
        d = dict(q)
        if fe.pcsub(fsub(coords(d)[0], p)) == {}: return 1, d
    return None
def yparity(d):
    return fe.oddof(FV(coords(d)[1], 1, 1))
def c_set_xo_var(ex, fn, a):
    """true exactly when x^3 + 7 is a square; then the point with this abscissa and the asked parity of the ordinate"""
    f = fe.rd(ex, a[1]); odd = a[2]
    fe.pre(ex, T.le(f.mag, 8), 'set_xo_var: magnitude at most 8')
    x = fe.pcsub(fe.freduce(f.p))
    if known_x(x) is None:
        kv = svar('kappa', nz=True); ya = T.atom('var', (), 1, P - 1, 'yk%d' % len(T.AT)); fe.NZ.add(ya.id); fe.RULES[ya.id] = (2, fadd(fpow(x, 3), fconst(7)))
        LIFT[fe.fkey(x)] = (T.boolvar('liftable'), kv.p); register(kv.p, x, fatom(ya.id))
    good, d = known_x(x)
    def put(d): ex.writep(a[0], mkaff(d, (), (max(f.mag, 1), 2), 0, inf=0)); return 1
    def no(): ex.writep(a[0], L([f, pts.junkF(1), 0])); return 0
    if not isinstance(good, int):
        ex.fact(T.bor(T.bnot(good), T.eq(yparity(d), 0))); ex.fact(T.bor(T.bnot(good), T.bnot(fe.fzero(x))))     # 7 is no square
    par = yparity(d); same = T.eq(par, odd)
    alts = [(T.band(good, same), lambda: put(d)), (T.band(good, T.bnot(same)), lambda: put(pneg(d)))]
    if not isinstance(good, int): alts.append((T.bnot(good), no))
    return Alt(alts)
OPS = {'ECMultContext::ecmult': c_ecmult, 'ECMultGenContext::ecmult_gen': c_ecmult_gen, 'ECMultContext::ecmult_const': c_ecmult_const, 'Affine::set_xo_var': c_set_xo_var}
CONE = {**CON, **OPS}

# ---------------------------------------------------------------- helpers
def key(name='q', mags=(2, 2)):
    """a valid public key and its logarithm"""
    d = svar(name, nz=True)
    return L([mkaff(d.p, (), mags, 0, inf=0)]), d.p
def samept(c, ex, st, d, desc):
    A = recognise(ex, st, desc)
    c.check(pzero(psub(A.d, d)) if A.d else pzero(d), desc); c.check(int(A.v in (None, ())), desc + ': on the curve itself')
    return A
def okkey(c, ex, st, d, desc):
    """a valid public key: finite, magnitudes within what the library uses"""
    A = samept(c, ex, st, d, desc)
    c.check(T.bnot(A.inf), desc + ': finite'); c.check(T.band(T.le(A.mags[0], 2), T.le(A.mags[1], 2)), desc + ': magnitudes of a valid key')
def xmod(d):
    x = fe.ivof(FV(coords(d)[0], 1, 1)); return T.sub(x, T.scale(T.ge(x, N), N))

# ---------------------------------------------------------------- C04
@unit('key.from_secret', 'C04 C09 C19 C24')
def _(c):
    for nm, args in (('PublicKey::from_secret_key_with_context', lambda s: [ref(L([s])), ref(ctx_gen())]), ('PublicKey::from_secret_key', lambda s: [ref(L([s]))])):
        ex = start(c, CONE, nm); s = svar('s', nz=True)
        for v in c.call(nm, args(s)): okkey(c, ex, v[0], s.p, 'the key is the secret times G')

# ---------------------------------------------------------------- C08
def validity(r, s, m, d):
    """the ECDSA predicate for r, s in [0, n)"""
    rz, sz = pzero(r.p), pzero(s.p)
    e = pmul(sinv(s.p), padd(m, pmul(r.p, d)))
    e = sc.pcsub(e)
    if not e: return 0
    return T.ball([T.bnot(rz), T.bnot(sz), T.bnot(pzero(e)), T.eq(xmod(e), ivof(r))])
VERIFY = (('ECMultContext::verify_raw', lambda r, s, q, m: [ref(ctx_g()), ref(r), ref(s), ref(q[0]), ref(m)]),
          ('verify_with_context', lambda r, s, q, m: [ref(L([m])), ref(L([r, s])), ref(q), ref(ctx_g())]),
          ('verify', lambda r, s, q, m: [ref(L([m])), ref(L([r, s])), ref(q)]))
@unit('ecdsa.verify', 'C08 C24')
def _(c):
    for nm, args in VERIFY:
        ex = start(c, CONE, nm); q, d = key(); r, s, m = svar('r'), svar('s'), svar('m')
        for v in c.call(nm, args(r, s, q, m)):
            c.check(T.eq(v, validity(r, s, m.p, d)), 'true exactly for the valid signatures')

# ---------------------------------------------------------------- C11
RECOVER = (('ECMultContext::recover_raw', lambda r, s, i, m: [ref(ctx_g()), ref(r), ref(s), i, ref(m)], lambda k: k),
           ('recover_with_context', lambda r, s, i, m: [ref(L([m])), ref(L([r, s])), ref(L([i])), ref(ctx_g())], lambda k: k[0]),
           ('recover', lambda r, s, i, m: [ref(L([m])), ref(L([r, s])), ref(L([i]))], lambda k: k[0]))
def recover_case(c, nm, args, get, i):
    ex = start(c, CONE, '%s id %d' % (nm, i)); r, s, m = svar('r'), svar('s'), svar('m')
    for v in c.call(nm, args(r, s, i, m)):
        iv = T.add(ivof(r), N * (i >> 1)); x = fe.embed(iv)
        inr = T.lt(iv, P); rz, sz = pzero(r.p), pzero(s.p)
        hit = known_x(x); up, d = hit if hit else (1, None)
        base = T.ball([T.bnot(rz), T.bnot(sz), inr, up])
        if not ok(v) and solver.prove(T.bnot(base))[0] == 'proved': c.check(T.bnot(base), 'refused when r or s is zero, x is not below p or not on the curve')
        elif d is None: c.check(0, 'refused only when r or s is zero, x is not below p or not on the curve')
        else:
            if solver.prove(T.eq(yparity(d), i & 1))[0] != 'proved': d = pneg(d)
            c.check(T.eq(yparity(d), i & 1), 'the ordinate of the point has the parity the id asks for')
            e = sc.pcsub(pmul(sinv(r.p), psub(pmul(s.p, d), m.p)))
            c.check(T.eq(ok(v), T.band(base, T.bnot(pzero(e)))), 'a key exactly when the point exists and the key is finite')
            if ok(v):
                okkey(c, ex, get(v[1]), e, 'the key is (s*R - m*G)/r')
                for b in c.call('ECMultContext::verify_raw', [ref(ctx_g()), ref(r), ref(s), ref(get(v[1])), ref(m)]): c.check(b, 'the key verifies the message and signature')
        if not ok(v): iserr(c, v, 'InvalidSignature')
@unit('ecdsa.recover', 'C11 C24')
def _(c):
    for nm, args, get in RECOVER:
        for i in range(4): recover_case(c, nm, args, get, i)

# ---------------------------------------------------------------- C09
def nonce(c, name='k'):
    """a non-zero nonce whose point has an abscissa below n (the probability of the contrary is below 2^-127; the code asserts it)"""
    k = svar(name, nz=True); x = coords(k.p)[0]
    xv = fe.ivof(FV(x, 1, 1)); c.assume(T.lt(xv, N)); sc.NZ.add(next(iter(xv.p))[0])
    return k, xv
@unit('ecdsa.sign_raw', 'C09 C10 C24')
def _(c):
    ex = start(c, CONE, 'sign_raw'); k, x = nonce(c); d, m = svar('d', nz=True), svar('m')
    e = pmul(sinv(k.p), padd(m.p, pmul(sc.embed(x), d.p)))
    par = yparity(k.p)
    for v in c.call('ECMultGenContext::sign_raw', [ref(ctx_gen()), ref(d), ref(m), ref(k)]):
        z = pzero(e); c.check(T.eq(ok(v), T.bnot(z)), 'refused exactly when s would be zero')
        if not ok(v): iserr(c, v, 'InvalidMessage'); continue
        r, s, rec = v[1]; r = sc.assv(r); s = sc.assv(s)
        c.check(T.eq(ivof(r), x), 'r is the abscissa of the nonce point')
        flip = T.gt(ivof(SV(e)), N // 2)
        c.check(T.band(T.bor(flip, pzero(psub(s.p, e))), T.bor(T.bnot(flip), pzero(padd(s.p, e)))), 's is (m + r d)/k or its opposite, whichever is in the lower half')
        c.check(T.le(ivof(s), N // 2), 's is in the lower half')
        c.check(T.eq(rec, T.ite(flip, T.sub(1, par), par)), 'the recovery id is the parity of the ordinate, flipped with s')

@unit('ecdsa.sign_then', 'C09 C10 C11')
def _(c):
    """verification and recovery of what the signer returns; m is written as s*k - r*d, which loses nothing (for given r, d and
    k != 0 every m arises from exactly one s = (m + r d)/k, and the signer refuses s = 0)"""
    ex = start(c, CONE, 'every message arises'); k, x = nonce(c); d, m = svar('d', nz=True), svar('m')
    s = pmul(sinv(k.p), padd(m.p, pmul(sc.embed(x), d.p)))
    c.check(pzero(psub(psub(pmul(s, k.p), pmul(sc.embed(x), d.p)), m.p)), 'm = s k - r d', 'lemma')
    for what in ('verify', 'recover'):
        ex = start(c, CONE, 'sign then ' + what); k, x = nonce(c); d, s = svar('d', nz=True), svar('s', nz=True)
        m = SV(psub(pmul(s.p, k.p), pmul(sc.embed(x), d.p)))
        for v in c.call('ECMultGenContext::sign_raw', [ref(ctx_gen()), ref(d), ref(m), ref(k)]):
            c.check(ok(v), 'a signature is returned')
            if not ok(v): continue
            r, t, rec = v[1]
            if what == 'verify':
                for q in c.call('PublicKey::from_secret_key_with_context', [ref(L([d])), ref(ctx_gen())]):
                    for b in c.call('verify_with_context', [ref(L([m])), ref(L([r, t])), ref(q), ref(ctx_g())]): c.check(b, 'the signature is valid under the signer public key')
            else:
                for b in c.call('recover_with_context', [ref(L([m])), ref(L([r, t])), ref(L([rec])), ref(ctx_g())]):
                    c.check(ok(b), 'recovery returns a key')
                    if ok(b): okkey(c, ex, b[1][0], d.p, 'which is the signer public key')

# ---------------------------------------------------------------- C10
@unit('ecdsa.nonce', 'C10 C24')
def _(c):
    for nm in ('sign_with_context', 'sign'):
        ex = start(c, {}, nm); ex.autoloops = True; ex.havoc = True
        stream = Seq('drbg', 1 << 80); refuse = Seq('refused', 1 << 80); log = []
        d, m = svar('d', nz=True), svar('m')
        def byts(v):
            if isinstance(v, Slot): v = View(ex.readp(v), 0, len(ex.readp(v)))
            if not isinstance(v, View) or not isinstance(v.n, int): raise T.Unsupported('DRBG input')
            return [ex.load(v.l, T.add(v.start, i)) for i in range(v.n)]
        def be32(b): return T.vsum([T.scale(x, 1 << (8*(31 - i))) for i, x in enumerate(b)])
        def isb32(b, s, what):
            ex.oblige(int(len(b) == 32), 'post', 'the %s is 32 bytes' % what)
            if len(b) == 32:
                ex.oblige(T.eq(be32(b), ivof(s)), 'post', 'the %s is the big-endian value' % what)
                for x in b: ex.oblige(T.band(T.ge(x, 0), T.le(x, 255)), 'type', 'a byte')
        def new(ex, fn, a):
            # the generator is a function of the concatenation of its three inputs (drbg.rfc6979)
            seed = byts(a[0]) + byts(a[1]) + byts(a[2])
            ex.oblige(int(len(seed) == 64), 'post', 'the seed of the DRBG is 64 bytes')
            isb32(seed[:32], d, 'first half of the seed (secret key)'); isb32(seed[32:], m, 'second half of the seed (message)')
            return L([0])
        def draw(ex, st):
            j = st[0]; ex.wr(st, 0, T.add(j, 1)); return [stream.at(T.add(T.scale(j, 32), i)) for i in range(32)]
        def noadd(a): ex.oblige(int(isinstance(a, E) and a[0] == 0), 'post', 'no additional input to the DRBG')
        def generate(ex, fn, a): noadd(a[1]); return L(draw(ex, a[0].l[a[0].i]))
        def gslice(ex, fn, a):
            noadd(a[2]); v = a[1]
            if not isinstance(v.n, int) or v.n != 32: raise T.Unsupported('DRBG output of another length')
            for i, x in enumerate(draw(ex, a[0].l[a[0].i])): ex.wr(v.l, T.add(v.start, i), x)
            return L([])
        def block(j): return T.vsum([T.scale(stream.at(T.add(T.scale(j, 32), i)), 1 << (8*(31 - i))) for i in range(32)])
        def refused(j): return T.eq(refuse.at(j), 0)
        drbg = []
        def signraw(ex, fn, a):
            k = sc.rd(ex, a[3])
            isctx(ex, a[0], 'sign_raw')
            ex.oblige(pzero(psub(sc.rd(ex, a[1]).p, d.p)), 'post', 'signs with the secret key'); ex.oblige(pzero(psub(sc.rd(ex, a[2]).p, m.p)), 'post', 'signs the message')
            ex.oblige(T.ne(ivof(k), 0), 'pre', 'sign_raw: the nonce is not zero')
            at = [x[0] for x in drbgs(ex)]
            if len(at) != 1: raise T.Unsupported('DRBG state not found')
            j = T.sub(at[0][0], 1)
            ex.oblige(T.eq(ivof(k), block(j)), 'post', 'the nonce is the last block drawn, unchanged')
            def good():
                r = E([0, L([svar('sigr'), svar('sigs'), T.var('recid', 0, 3)])]); log.append((r[1], list(r[1]), j)); return r
            return Alt([(T.bnot(refused(j)), good), (refused(j), lambda: E([1, E([evar(c, 'InvalidMessage')])]))])
        def drbgs(ex):
            out = []
            for fr in ex.stack:
                for i, v in enumerate(fr.loc):
                    if isinstance(v, L) and not isinstance(v, E) and type(v) is L and len(v) == 1 and isinstance(v[0], (int, V)) and 'HmacDRBG' in str(ex.ty(fr.fn.locals[i]).get('name')): out.append((v, i))
            return out
        con = {**CONE, 'ECMultGenContext::sign_raw': signraw, 'HmacDRBG::<Sha256>::new': new, 'HmacDRBG::<Sha256>::generate_to_slice': gslice}
        for k in c.p.byname:
            if k.startswith('HmacDRBG::<Sha256>::generate::<'): con[k] = generate
            if k.startswith('<GenericArray<u8') and k.endswith(' as Deref>::deref') or (k.startswith('GenericArray::<u8') and k.endswith('::as_slice')): con[k] = lambda ex, fn, a: View(a[0].l[a[0].i], 0, 32)
        ex.contracts = con
        n = 0
        for v in c.call(nm, [ref(L([m])), ref(L([d]))] + ([ref(ctx_gen())] if 'with' in nm else [])):
            n += 1
            sg, rid = v
            hit = [(x, j) for _, x, j in log if sc.assv(sg[0]) is x[0] and sc.assv(sg[1]) is x[1]]
            if len(hit) != 1: c.check(0, 'the signature is what sign_raw returned'); continue
            (x, j), = hit; c.check(int(rid[0] is x[2] or T.veq(rid[0], x[2])), 'the recovery id is what sign_raw returned')
            c.check(T.band(T.ge(block(j), 1), T.lt(block(j), N)), 'the nonce used is in [1, n-1]'); c.check(T.bnot(refused(j)), 'and gives a signature')
            i = T.var('earlier', 0, 1 << 63); T.assume(T.lt(i, j))
            for kk, pc, C in ex.foralls: T.assume(T.bor(T.ge(i, kk), C(i)))
            c.check(T.bor(refused(i), T.bnot(T.band(T.ge(block(i), 1), T.lt(block(i), N)))), 'every earlier block was not in [1, n-1] or gave no signature')

U32 = 'UInt<' * 6 + 'UTerm, B1>' + ', B0>' * 5
class HState(T.V if False else X.Abs):
    """HMAC-SHA256 in progress: key and message bytes"""
    __slots__ = ('k', 'm')
    def __init__(s, k, m): s.k = tuple(k); s.m = tuple(m)
    def materialize(s, ex): raise T.Unsupported('HMAC internals')
@unit('drbg.rfc6979', 'C10 C24')
def _(c):
    """crate hmac-drbg (trusted otherwise): the state after new() and the blocks generate() returns are those of RFC 6979, section
    3.2, for HMAC-SHA256 as an uninterpreted function"""
    tab = {}
    def bkey(l): return tuple(x if isinstance(x, int) else x.k for x in l)
    def H(k, m):
        """32 bytes"""
        kk = (bkey(k), bkey(m))
        if kk not in tab: tab[kk] = [T.var('hmac%d_%d' % (len(tab), i), 0, 255) for i in range(32)]
        return list(tab[kk])
    def byts(ex, v):
        if isinstance(v, Slot): v = ex.readp(v)
        if type(v) is L: return list(v)
        if not isinstance(v, View) or not isinstance(v.n, int): raise T.Unsupported('HMAC input')
        return [ex.load(v.l, T.add(v.start, i)) for i in range(v.n)]
    con = {}
    con['<Hmac<Sha256> as NewMac>::new_varkey'] = lambda ex, fn, a: E([0, HState(byts(ex, a[0]), [])])
    def up(ex, fn, a):
        h = ex.readp(a[0]); ex.writep(a[0], HState(h.k, h.m + tuple(byts(ex, a[1])))); return L([])
    con['<Hmac<Sha256> as Mac>::update'] = up
    con['<Hmac<Sha256> as Mac>::finalize'] = lambda ex, fn, a: a[0]
    con['Output::<Hmac<Sha256>>::into_bytes'] = lambda ex, fn, a: L(H(a[0].k, a[0].m))
    for k in c.p.byname:
        if 'GenericArray' not in k or U32 not in k or U32.replace('B1>', 'B1>, B0>') in k: continue
        if k.endswith('Default for GenericArray<u8, %s>>::default' % U32) or k.endswith(' as Default>::default'): con[k] = lambda ex, fn, a: L([0] * 32)
        elif k.endswith(('::as_slice', '::as_mut_slice', ' as Deref>::deref', ' as DerefMut>::deref_mut')): con[k] = lambda ex, fn, a: View(a[0].l[a[0].i], 0, 32)
    def state(st):
        """(k, v) of an HmacDRBG"""
        return list(st[0]), list(st[1])
    def same(ex, got, want, desc):
        ex.oblige(int(len(got) == len(want) and all((x is y) or T.veq(x, y) for x, y in zip(got, want))), 'post', desc)
    gen = [k for k in c.p.byname if k.startswith('HmacDRBG::<Sha256>::generate::<') and k.endswith('<%s>' % U32)]
    for nx, nh, np in ((32, 32, 0), (32, 0, 32), (16, 48, 0), (0, 64, 0), (21, 21, 22), (64, 0, 0)):
        tab.clear(); ex = start(c, con, 'new %d+%d+%d bytes' % (nx, nh, np))
        seed = [T.var('s%d' % i, 0, 255) for i in range(64)]
        cut = [seed[:nx], seed[nx:nx+nh], seed[nx+nh:]]
        for st in c.call('HmacDRBG::<Sha256>::new', [View(L(list(x)), 0, len(x)) for x in cut]):
            K, V_ = state(st); k0, v0 = [0]*32, [1]*32
            k1 = H(k0, v0 + [0] + seed); v1 = H(k1, v0); k2 = H(k1, v1 + [1] + seed); v2 = H(k2, v1)
            same(ex, K, k2, 'K after seeding with x || h is that of RFC 6979 3.2 d to g'); same(ex, V_, v2, 'V after seeding')
    for which in ['HmacDRBG::<Sha256>::generate_to_slice'] + gen:
        tab.clear(); ex = start(c, con, which.split('::<')[0] + ' ' + which.split('::')[2][:20])
        k = [T.var('k%d' % i, 0, 255) for i in range(32)]; v = [T.var('v%d' % i, 0, 255) for i in range(32)]
        cnt = T.var('count', 0, 2**63); st = box(L([L(list(k)), L(list(v)), cnt])); out = L([T.var('o%d' % i, 0, 255) for i in range(32)]); out.born = 0
        for r in c.call(which, [Slot(st, 0), E([0])] if which in gen else [Slot(st, 0), View(out, 0, 32), E([0])]):
            K, V_ = state(st[0]); v1 = H(k, v); k1 = H(k, v1 + [0]); v2 = H(k1, v1)
            same(ex, list(r) if which in gen else list(out), v1, 'the block is T = HMAC_K(V) (RFC 6979 3.2 h.2)')
            same(ex, K, k1, 'K is updated to HMAC_K(V || 0) (h.3)'); same(ex, V_, v2, 'V is updated to HMAC_K(V)')
    c.record(len(gen) == 1, 'HmacDRBG::generate of 32 bytes was found', 'vacuity')

# ---------------------------------------------------------------- C17
ADD = (('PublicKey::tweak_add_assign_with_context', 1), ('PublicKey::tweak_add_assign', 0))
MUL = (('PublicKey::tweak_mul_assign_with_context', 1), ('PublicKey::tweak_mul_assign', 0))
def samekey(c, a, b, desc):
    c.check(int(all((x is y) or (isinstance(x, FV) and isinstance(y, FV) and x.p == y.p) or (isinstance(x, (int, V)) and T.veq(x, y)) for x, y in zip(a, b))), desc)
@unit('pubkey.tweak', 'C17 C24')
def _(c):
    for op, names in (('add', ADD), ('mul', MUL)):
        for nm, withctx in names:
            ex = start(c, CONE, nm); q, d = key(); t = svar('t'); r = box(q); old = list(q[0])
            want = padd(d, t.p) if op == 'add' else pmul(d, t.p)
            for v in c.call(nm, [Slot(r, 0), ref(L([t]))] + ([ref(ctx_g())] if withctx else [])):
                if op == 'add': c.check(T.eq(ok(v), T.bnot(pzero(want))), 'refused exactly when the sum is infinity')
                else: c.check(T.eq(ok(v), T.bnot(pzero(t.p))), 'refused exactly when the tweak is zero')
                if ok(v): okkey(c, ex, r[0][0], want, 'the key is Q + t*G' if op == 'add' else 'the key is t*Q')
                else: iserr(c, v, 'TweakOutOfRange'); samekey(c, r[0][0], old, 'the key is unchanged when refused')
    for op in ('add', 'mul'):
        ex = start(c, CONE, op + ': commutes with the secret key tweak'); d, t = svar('d', nz=True), svar('t'); sk = box(L([d]))
        for q in c.call('PublicKey::from_secret_key_with_context', [ref(L([d])), ref(ctx_gen())]):
            pk = box(q)
            for a in c.call('SecretKey::tweak_%s_assign' % op, [Slot(sk, 0), ref(L([t]))]):
                for b in c.call('PublicKey::tweak_%s_assign_with_context' % op, [Slot(pk, 0), ref(L([t])), ref(ctx_g())]):
                    c.check(T.eq(ok(a), ok(b)), 'both tweaks are refused together')
                    if ok(a) and ok(b): samept(c, ex, pk[0][0], sc.assv(sk[0][0]).p, 'the tweaked public key belongs to the tweaked secret key')

# ---------------------------------------------------------------- C18
class KeySeq(L):
    """a list of valid public keys of any length"""
    __slots__ = ('n', 'cache', 'reads', 'tot', 'name')
    def __init__(s, n, tot):
        list.__init__(s); s.born = 0; s.n = n; s.cache = {}; s.reads = []; s.tot = tot; s.name = 'the keys'
    def symread(s, ex, i):
        i = pts.unwrap(i); k = i if isinstance(i, int) else i.k
        if k not in s.cache:
            d = svar('key%d' % len(T.AT), nz=True); s.cache[k] = (L([mkaff(d.p, (), (2, 2), 0, inf=0)]), T.av(T.AT[next(iter(d.p))[0][0]]), i)
        s.reads.append((i, s.cache[k][1]))
        return s.cache[k][0]
    def __getitem__(s, i):
        if isinstance(i, slice): raise T.Unsupported('slice of the keys')
        return s.symread(pts.EX[0], i)
    def __setitem__(s, i, v): raise T.Unsupported('write to the keys')
    def __len__(s): raise T.Unsupported('len of the keys')
    def __iter__(s): raise T.Unsupported('iteration over the keys')
    def __bool__(s): return True
    def logatom(s, dv): return next(iter(dv.p))[0]
    def absent(s, dv): return False
    def key(s, ex, i):
        s.symread(ex, i); s.reads.pop()
        return satom(s.logatom(s.cache[i if isinstance(i, int) else i.k][1]))
    def prefix(s, ex, i):
        """the sum of the keys before index i: known at the start, at the end, and a fixed number of keys from either"""
        i = pts.unwrap(i)
        for c in range(4):
            if T.veq(i, c) or solver.prove(T.eq(i, c))[0] == 'proved':
                r = sc.const(0)
                for j in range(c): r = padd(r, s.key(ex, j))
                return r
            e = T.sub(s.n, c)
            if T.veq(i, e) or solver.prove(T.eq(i, e))[0] == 'proved':
                r = s.tot.p
                for j in range(1, c + 1): r = psub(r, s.key(ex, T.sub(s.n, j)))
                return r
        raise T.Unsupported('sum of an unknown part of the keys')
    def rangesum(s, ex, i0, i, up):
        """the keys visited from index i0 to the present index"""
        lo, hi = (i0, i) if up > 0 else (T.add(i, 1), T.add(i0, 1))
        ex.oblige(T.band(T.ge(lo, 0), T.le(hi, s.n)), 'invariant', 'loop: only keys of the list are added')
        return psub(s.prefix(ex, hi), s.prefix(ex, lo))

@unit('pubkey.combine', 'C18 C24')
def _(c):
    ex = start(c, CON, 'combine'); ex.accloops = pts.accloop
    n = T.var('count', 0, 1 << 44); tot = svar('sum'); seq = KeySeq(n, tot); ex.arrays = [seq]
    c.assume(T.bor(T.ne(n, 0), T.eq(ivof(tot), 0)))          # the empty sum
    for v in c.call('PublicKey::combine', [View(seq, 0, n)]):
        k = refresh(n)
        c.check(T.eq(ok(v), T.bnot(pzero(tot.p))), 'refused exactly when the sum is infinity')
        if ok(v): okkey(c, ex, v[1][0], tot.p, 'the key is the sum of all keys')
        else: iserr(c, v, 'InvalidPublicKey')

# ---------------------------------------------------------------- C19
class Tok(X.Abs):
    __slots__ = ('kind', 'x')
    def __init__(s, kind, x=None): s.kind = kind; s.x = x
    def materialize(s, ex): raise T.Unsupported('inside of ' + s.kind)
def digest_contracts(c, ex):
    """an arbitrary digest: what it returns is a function of the bytes absorbed"""
    def byts(v):
        if isinstance(v, Slot): v = View(ex.readp(v), 0, len(ex.readp(v)))
        if not isinstance(v, View) or not isinstance(v.n, int): raise T.Unsupported('digest input')
        return tuple(ex.load(v.l, T.add(v.start, i)) for i in range(v.n))
    def update(ex, fn, a):
        d = ex.readp(a[0]); ex.writep(a[0], Tok('state', d.x + byts(a[1]))); return L([])
    def fin(ex, fn, a):
        d = ex.readp(a[0]); ex.writep(a[0], Tok('state', ())); return Tok('hash', d.x)
    def fin1(ex, fn, a): return Tok('hash', a[0].x)
    def chain(ex, fn, a): return Tok('state', a[0].x + byts(a[1]))
    con = {}
    for k in c.p.byname:
        if not k.startswith('<AnyDigest as '): continue
        m = k.split('>::', 1)[1]
        if m.startswith('default') or m == 'new': con[k] = lambda ex, fn, a: Tok('state', ())
        elif m.startswith('update'): con[k] = update
        elif m.startswith('chain'): con[k] = chain
        elif m in ('finalize_reset', 'finalize_fixed_reset'): con[k] = fin
        elif m in ('finalize', 'finalize_fixed'): con[k] = fin1
    return con
def compressed(d):
    x, y = coords(d)
    return [T.add(2, T.mod(fe.ivof(FV(y, 1, 1)), 2))] + list(fe.bytes_of(fe.ivof(FV(x, 1, 1))))
@unit('ecdh.secret', 'C19 C24')
def _(c):
    D = '::<AnyDigest>'
    for nm, args, get in (('ECMultContext::ecdh_raw' + D, lambda q, s: [ref(ctx_g()), ref(q[0]), ref(s)], lambda v: (v[0] == 1, v[1] if v[0] else None)),
                          ('SharedSecret' + D + '::new_with_context', lambda q, s: [ref(q), ref(L([s])), ref(ctx_g())], lambda v: (v[0] == 0, v[1][0] if v[0] == 0 else None)),
                          ('SharedSecret' + D + '::new', lambda q, s: [ref(q), ref(L([s]))], lambda v: (v[0] == 0, v[1][0] if v[0] == 0 else None))):
        ex = start(c, CONE, nm); ex.contracts = {**CONE, **digest_contracts(c, ex)}
        q, d = key(); s = svar('s'); want = pmul(s.p, d)
        for v in c.call(nm, args(q, s)):
            good, h = get(v)
            c.check(T.eq(int(good), T.bnot(pzero(s.p))), 'refused exactly when the secret is zero')
            if not good:
                if 'Shared' in nm: iserr(c, v, 'InvalidSecretKey')
                continue
            c.check(int(isinstance(h, Tok) and h.kind == 'hash' and len(h.x) == 33), 'the digest of 33 bytes')
            if isinstance(h, Tok) and len(h.x) == 33:
                w = compressed(want)
                c.check(T.eq(h.x[0], w[0]), 'first byte: 2 + parity of y of s*Q'); bytes8(c, h.x)
                c.check_zero(T.sub(be(list(h.x[1:])), be(w[1:])), 'then the 32 big-endian bytes of x of s*Q')
    # both parties
    ex = start(c, CONE, 'symmetry'); ex.contracts = {**CONE, **digest_contracts(c, ex)}
    a, b = svar('a', nz=True), svar('b', nz=True)
    def secret(s, t, then):
        for q in c.call('PublicKey::from_secret_key_with_context', [ref(L([s])), ref(ctx_gen())]):
            for v in c.call('SharedSecret' + D + '::new_with_context', [ref(q), ref(L([t])), ref(ctx_g())]):
                c.check(ok(v), 'a secret')
                if ok(v): then(v[1][0].x)
    def both(x, y): c.check(int(len(x) == len(y)) and T.ball([T.eq(u, v) for u, v in zip(x, y)]), 'both parties hash the same bytes')
    secret(a, b, lambda x: secret(b, a, lambda y: both(x, y)))
