"""Contracts of the encodings and scalar-level operations of src/lib.rs: SecretKey, Message, Signature, RecoveryId, PublicKey."""
import terms as T, exec as X, sc, fe, solver
from ctx import *
from seq import Seq, refresh
from sc import SV
from fe import FV

CON = {**fe.CONTRACTS, **sc.CONTRACTS}
NMAX = 1 << 48
def evar(c, name, ty='libsecp256k1::Error'):
    for t in c.p.types.values():
        if t['name'] == ty: return [v['name'] for v in t['variants']].index(name)
    raise Missing(ty)
def fresh(c, con, label):
    ex = c.fresh(con, label); ex.nomerge = True
    return ex
def ok(r): return int(r[0] == 0)
def iserr(c, r, name): c.check(int(r[0] == 1 and list(r[1]) == [evar(c, name)]), 'the error is ' + name)
def val(v): return sc.ivof(sc.assv(v))
def seqbe(s, a, b): return T.vsum([T.scale(s.at(a + j), 1 << (8*(b-a-1-j))) for j in range(b - a)])

def slices(c, nm, size, extra, verdict, lenerr='InvalidInputLength'):
    """nm takes a slice of any length: refused unless it has `size` bytes, then verdict(s, r)"""
    fresh(c, CON, nm); n = T.var('len', 0, NMAX); s = Seq('input', n)
    for r in c.call(nm, [s.view()] + extra):
        k = refresh(n)
        if isinstance(k, int) and k == size: verdict(s, r)
        else: c.check(T.ne(n, size), 'refused only at another length'); c.check(T.bnot(ok(r)), 'refused'); iserr(c, r, lenerr)

# ---------------------------------------------------------------- C12
def sk_parsed(c, b, r):
    v = seqbe(b, 0, 32) if isinstance(b, Seq) else be(b)
    good = T.band(T.gt(v, 0), T.lt(v, N))
    c.check(T.eq(ok(r), good), 'accepted exactly from 1 to n-1')
    if ok(r): c.check(T.eq(val(r[1][0]), v), 'the big-endian value')
    else: iserr(c, r, 'InvalidSecretKey')

@unit('seckey.codec', 'C12 C24')
def _(c):
    fresh(c, CON, 'parse'); b = bytesvar('b', 32)
    for r in c.call('SecretKey::parse', [ref(b)]): sk_parsed(c, list(b), r)
    slices(c, 'SecretKey::parse_slice', 32, [], lambda s, r: sk_parsed(c, s, r))
    fresh(c, CON, 'serialize'); s = sc.svar('s', nz=True)
    for v in c.call('SecretKey::serialize', [ref(L([s]))]): c.check_zero(T.sub(be(list(v)), val(s)), 'the 32 big-endian bytes'); bytes8(c, v)
    fresh(c, CON, 'round trip'); s = sc.svar('s', nz=True)
    for v in c.call('SecretKey::serialize', [ref(L([s]))]):
        for r in c.call('SecretKey::parse', [ref(v)]):
            c.check(ok(r), 'accepted')
            if ok(r): c.check(T.eq(val(r[1][0]), val(s)), 'parse(serialize(s)) = s')
    fresh(c, CON, 'try_from'); s = sc.svar('s')
    for r in c.call('<SecretKey as TryFrom<Scalar>>::try_from', [s]):
        c.check(T.eq(ok(r), T.ne(val(s), 0)), 'accepted exactly when not zero')
        if ok(r): c.check(T.eq(val(r[1][0]), val(s)), 'same scalar')
        else: iserr(c, r, 'InvalidSecretKey')
    fresh(c, CON, 'into'); s = sc.svar('s')
    for v in c.call('<SecretKey as Into<Scalar>>::into', [L([s])]): c.check(T.eq(val(v), val(s)), 'same scalar')
    for v in c.call('<SecretKey as Default>::default', []): c.check(T.eq(val(v[0]), 1), 'the default key is 1')
    s, t = sc.svar('s1'), sc.svar('s2')
    for v in c.call('<SecretKey as PartialEq>::eq', [ref(L([s])), ref(L([t]))]): c.check(T.eq(v, T.eq(val(s), val(t))), 'equal exactly when the scalars are')

def bytes8(c, v):
    for x in list(v): c.check(T.band(T.ge(x, 0), T.le(x, 255)), 'a byte', 'type')

# ---------------------------------------------------------------- C16, C26
@unit('seckey.tweak', 'C16 C24')
def _(c):
    fresh(c, CON, 'tweak_add_assign'); s, t = sc.svar('s', nz=True), sc.svar('t'); r = box(L([s])); w = sc.padd(s.p, t.p)
    for v in c.call('SecretKey::tweak_add_assign', [Slot(r, 0), ref(L([t]))]):
        c.check(T.eq(ok(v), T.bnot(sc.pzero(w))), 'refused exactly when the sum is 0 mod n')
        if ok(v): c.check(sc.pzero(sc.psub(sc.assv(r[0][0]).p, w)), 'the sum mod n')
        else: iserr(c, v, 'TweakOutOfRange'); c.check(sc.pzero(sc.psub(sc.assv(r[0][0]).p, s.p)), 'unchanged when refused')
    fresh(c, CON, 'tweak_mul_assign'); s, t = sc.svar('s', nz=True), sc.svar('t'); r = box(L([s])); w = sc.pmul(s.p, t.p)
    for v in c.call('SecretKey::tweak_mul_assign', [Slot(r, 0), ref(L([t]))]):
        c.check(T.eq(ok(v), T.ne(val(t), 0)), 'refused exactly when the tweak is 0')
        if ok(v): c.check(sc.pzero(sc.psub(sc.assv(r[0][0]).p, w)), 'the product mod n'); c.check(T.bnot(sc.pzero(sc.assv(r[0][0]).p)), 'not zero')
        else: iserr(c, v, 'TweakOutOfRange'); c.check(sc.pzero(sc.psub(sc.assv(r[0][0]).p, s.p)), 'unchanged when refused')
    fresh(c, CON, 'inv'); s = sc.svar('s', nz=True)
    for v in c.call('SecretKey::inv', [ref(L([s]))]): c.check(sc.pzero(sc.psub(sc.pmul(sc.assv(v[0]).p, s.p), sc.const(1))), 'the product with the key is 1 mod n')

def volatile(c, s):
    v = c.ex.volatile
    def hit(l, i): return any(x is l and y == i for x, y in v)
    c.check(int(hit(s, 0) or all(hit(s[0], i) for i in range(8))), 'by volatile stores, which are not optimised away')

@unit('seckey.clear', 'C26 C24')
def _(c):
    fresh(c, CON, 'clear'); s = sc.svar('s'); r = box(L([s]))
    for v in c.call('SecretKey::clear', [Slot(r, 0)]): c.check(T.eq(val(r[0][0]), 0), 'the scalar is zero')
    for v in c.call('SecretKey::is_zero', [Slot(r, 0)]): c.check(v, 'is_zero after clear')
    fresh(c, CON, 'is_zero'); s = sc.svar('s')
    for v in c.call('SecretKey::is_zero', [ref(L([s]))]): c.check(T.eq(v, T.eq(val(s), 0)), 'is_zero')
    fresh(c, {}, 'clear down to the words'); r = box(L([L([u32s('w', 8)])]))
    for v in c.call('SecretKey::clear', [Slot(r, 0)]): 
        c.check(T.ball([T.eq(x, 0) for x in r[0][0][0]]), 'every word of the key is zero'); volatile(c, r[0][0])
    fresh(c, {}, 'Scalar::clear'); r = box(L([u32s('w', 8)]))
    for v in c.call('Scalar::clear', [Slot(r, 0)]): 
        c.check(T.ball([T.eq(x, 0) for x in r[0][0]]), 'every word is zero'); volatile(c, r[0])
    fresh(c, {}, 'Field::clear'); r = box(L([u32s('w', 10), T.var('m', 0, 32), T.boolvar('nn')]))
    for v in c.call('Field::clear', [Slot(r, 0)]): c.check(T.ball([T.eq(x, 0) for x in r[0][0]]), 'every limb is zero')

# ---------------------------------------------------------------- C20
@unit('codec.signature', 'C20 C24')
def _(c):
    def over(b, r):
        for k in (0, 1):
            v = seqbe(b, 32*k, 32*k + 32) if isinstance(b, Seq) else be(b[32*k:32*k + 32])
            c.check(T.eq(val(r[k]), T.sub(v, T.scale(T.ge(v, N), N))), '%s: the value mod n' % 'rs'[k])
    def std(b, r):
        w = [seqbe(b, 32*k, 32*k + 32) if isinstance(b, Seq) else be(b[32*k:32*k + 32]) for k in (0, 1)]
        c.check(T.eq(ok(r), T.band(T.lt(w[0], N), T.lt(w[1], N))), 'accepted exactly when r and s are both below n')
        if ok(r):
            for k in (0, 1): c.check(T.eq(val(r[1][k]), w[k]), '%s: the big-endian value' % 'rs'[k])
        else: iserr(c, r, 'InvalidSignature')
    fresh(c, CON, 'parse_overflowing'); b = bytesvar('b', 64)
    for r in c.call('Signature::parse_overflowing', [ref(b)]): over(list(b), r)
    fresh(c, CON, 'parse_standard'); b = bytesvar('b', 64)
    for r in c.call('Signature::parse_standard', [ref(b)]): std(list(b), r)
    def over2(s, r): c.check(ok(r), 'accepted'); over(s, r[1])
    slices(c, 'Signature::parse_overflowing_slice', 64, [], over2)
    slices(c, 'Signature::parse_standard_slice', 64, [], std)
    fresh(c, CON, 'serialize'); r, s = sc.svar('r'), sc.svar('s')
    for v in c.call('Signature::serialize', [ref(L([r, s]))]):
        for k in (0, 1): c.check_zero(T.sub(be(list(v)[32*k:32*k + 32]), val((r, s)[k])), '%s: 32 big-endian bytes' % 'rs'[k])
        bytes8(c, v)
    fresh(c, CON, 'round trip'); r, s = sc.svar('r'), sc.svar('s')
    for v in c.call('Signature::serialize', [ref(L([r, s]))]):
        for q in c.call('Signature::parse_standard', [ref(v)]):
            c.check(ok(q), 'accepted')
            if ok(q): c.check(T.band(T.eq(val(q[1][0]), val(r)), T.eq(val(q[1][1]), val(s))), 'parse_standard(serialize(sig)) = sig')
    fresh(c, CON, 'eq'); a = [sc.svar('a%d' % i) for i in range(4)]
    for v in c.call('<Signature as PartialEq>::eq', [ref(L(a[:2])), ref(L(a[2:]))]): c.check(T.eq(v, T.band(T.eq(val(a[0]), val(a[2])), T.eq(val(a[1]), val(a[3])))), 'equal exactly when both scalars are')

@unit('codec.message', 'C20 C24')
def _(c):
    def msg(b, r):
        v = seqbe(b, 0, 32) if isinstance(b, Seq) else be(b)
        c.check(T.eq(val(r[0]), T.sub(v, T.scale(T.ge(v, N), N))), 'the value mod n')
    fresh(c, CON, 'parse'); b = bytesvar('b', 32)
    for r in c.call('Message::parse', [ref(b)]): msg(list(b), r)
    def sl(s, r): c.check(ok(r), 'accepted'); msg(s, r[1])
    slices(c, 'Message::parse_slice', 32, [], sl)
    fresh(c, CON, 'serialize'); s = sc.svar('m')
    for v in c.call('Message::serialize', [ref(L([s]))]): c.check_zero(T.sub(be(list(v)), val(s)), 'the 32 big-endian bytes'); bytes8(c, v)

# ---------------------------------------------------------------- C23, C25
@unit('codec.normalize_s', 'C23 C24')
def _(c):
    fresh(c, CON, 'normalize_s'); r, s = sc.svar('r'), sc.svar('s'); g = box(L([r, s]))
    for _ in c.call('Signature::normalize_s', [Slot(g, 0)]):
        c.check(int(sc.assv(g[0][0]).p == r.p), 'r unchanged')
        v = val(s); high = T.gt(v, N // 2)
        c.check(T.eq(val(g[0][1]), T.ite(high, T.sub(N, v), v)), 's, or n - s when s > n/2'); c.check(T.le(val(g[0][1]), N // 2), 'low s')
    fresh(c, {}, 'is_high'); w = u32s('w', 8); c.assume(T.lt(words(w), N))
    for v in c.call('Scalar::is_high', [ref(L([w]))]): c.check(T.eq(v, T.gt(words(w), N // 2)), 'is_high exactly above n/2')

@unit('codec.recovery_id', 'C25 C24')
def _(c):
    fresh(c, CON, 'parse'); b = T.var('b', 0, 255)
    for r in c.call('RecoveryId::parse', [b]):
        c.check(T.eq(ok(r), T.lt(b, 4)), 'accepted exactly below 4')
        if ok(r): c.check(T.eq(r[1][0], b), 'same id')
        else: iserr(c, r, 'InvalidRecoveryId')
    fresh(c, CON, 'parse_rpc'); b = T.var('b', 0, 255)
    for r in c.call('RecoveryId::parse_rpc', [b]):
        c.check(T.eq(ok(r), T.band(T.ge(b, 27), T.lt(b, 31))), 'accepted exactly from 27 to 30')
        if ok(r): c.check(T.eq(r[1][0], T.sub(b, 27)), 'id minus 27')
        else: iserr(c, r, 'InvalidRecoveryId')
    fresh(c, CON, 'out'); b = T.var('b', 0, 255)
    for v in c.call('RecoveryId::serialize', [ref(L([b]))]): c.check(T.eq(v, b), 'serialize')
    for nm in ('u8', 'i32'):
        for v in c.call('<RecoveryId as Into<%s>>::into' % nm, [L([b])]): c.check(T.eq(v, b), 'into ' + nm)

# ---------------------------------------------------------------- C14, C15
def curve(x, y): return fe.fzero(fe.fsub(fe.fmul(y, y), fe.fadd(fe.fpow(x, 3), fe.fconst(7))))
def pkmag(c, k, what):
    c.check(T.band(T.le(fe.asfv(k[0]).mag, 2), T.le(fe.asfv(k[1]).mag, 2)), what + ': magnitudes at most 2', 'type')
def full_parsed(c, b, r, tagok=None, coords=None):
    tag = b[0]; x, y = (be(b[i:i + 32]) for i in (1, 33))
    X_, Y_ = fe.embed(x), fe.embed(y)
    hy = T.band(T.ge(tag, 6), T.le(tag, 7))
    good = T.ball([T.bor(T.eq(tag, 4), T.band(hy, T.eq(T.sub(tag, 6), T.mod(y, 2)))), T.lt(x, P), T.lt(y, P)])
    if ok(r):
        c.check(good, 'accepted: tag 4, or 6/7 with the parity of y; both coordinates below p'); c.check(curve(X_, Y_), 'accepted: on the curve')
        k = r[1][0]
        for i, w in ((0, x), (1, y)): c.check(fe.fzero(fe.fsub(fe.asfv(k[i]).p, (X_, Y_)[i])), 'coordinate %d is the encoded one' % i)
        c.check(T.eq(k[2], 0), 'finite'); pkmag(c, k, 'key')
    else:
        c.check(T.bnot(T.band(good, curve(X_, Y_))), 'refused only when the tag is wrong, a coordinate is not below p, or the point is off the curve'); iserr(c, r, 'InvalidPublicKey')
def comp_parsed(c, b, r):
    tag = b[0]; x = be(b[1:33]); X_ = fe.embed(x)
    good = T.ball([T.bor(T.eq(tag, 2), T.eq(tag, 3)), T.lt(x, P)])
    root, sq = fe.sqrt_atoms(fe.fadd(fe.fpow(X_, 3), fe.fconst(7)))
    if ok(r):
        c.check(T.band(good, sq), 'accepted: tag 2 or 3, x below p, x^3+7 a square'); k = r[1][0]
        c.check(fe.fzero(fe.fsub(fe.asfv(k[0]).p, X_)), 'x is the encoded one'); c.check(curve(fe.asfv(k[0]).p, fe.asfv(k[1]).p), 'on the curve')
        import u_group
        c.check(T.eq(u_group.parity(fe.asfv(k[1])), T.sub(tag, 2)), 'y has the parity of the tag'); c.check(T.eq(k[2], 0), 'finite'); pkmag(c, k, 'key')
    else: c.check(T.bnot(T.band(good, sq)), 'refused only when the tag is wrong, x is not below p, or x^3+7 is no square'); iserr(c, r, 'InvalidPublicKey')

class KeyV:
    """a public key: finite point of the curve, coordinates of magnitude at most 2 in any representation"""
    def __init__(s, c, name='k', sign=1, mag=2):
        X_ = fe.fvar(name + '.x', mag); Y = fe.fvar(name + '.y', mag, nz=True); a = fe.aid(Y)
        s.rhs = fe.fadd(fe.fpow(X_.p, 3), fe.fconst(7))
        fe.RULES[a] = (2, s.rhs)
        fe.SQ[fe.fkey(s.rhs)] = (fe.fatom(a), 1); fe.ROOTOF[a] = (s.rhs, 1)    # one of y, -y is the root that is a square
        s.x, s.y = X_, Y if sign > 0 else FV(fe.fneg(Y.p), mag)
        s.xv, s.yv = fe.ivof(FV(s.x.p, 1, 1)), fe.ivof(FV(s.y.p, 1, 1))
        s.aff = L([s.x, s.y, 0]); s.k = L([s.aff])
    def same(s, c, k, what):
        for i in (0, 1): c.check(fe.fzero(fe.fsub(fe.asfv(k[i]).p, (s.x, s.y)[i].p)), '%s: coordinate %d' % (what, i))
        c.check(T.eq(k[2], 0), what + ': finite')
def some(k): return E([1, E([k])])
FMT = {'Compressed': 33, 'Full': 65, 'Raw': 64}
def fmtv(c, name): return evar(c, name, 'libsecp256k1::PublicKeyFormat')

@unit('pubkey.parse', 'C14 C24', budget=400)
def _(c):
    fresh(c, CON, 'parse'); b = bytesvar('b', 65)
    for r in c.call('PublicKey::parse', [ref(b)]): full_parsed(c, list(b), r)
@unit('pubkey.parse_compressed', 'C15 C24', budget=400)
def _(c):
    fresh(c, CON, 'parse_compressed'); b = bytesvar('b', 33)
    for r in c.call('PublicKey::parse_compressed', [ref(b)]): comp_parsed(c, list(b), r)

def parse_stub(calls, tag):
    """uninterpreted: the result of the array parser on the given bytes"""
    def f(ex, fn, a):
        b = L(list(ex.readp(a[0]))); res = E([0, L([X.Opaque('key')])]); calls.append((tag, b, res)); return res
    return f

@unit('pubkey.parse_slice', 'C14 C15 C24', budget=400)
def _(c):
    for fm in (None, 'Compressed', 'Full', 'Raw'):
        calls = []
        fresh(c, {**CON, 'PublicKey::parse': parse_stub(calls, 'full'), 'PublicKey::parse_compressed': parse_stub(calls, 'compressed')}, 'format %s' % fm)
        n = T.var('len', 0, NMAX); s = Seq('input', n)
        arg = E([0]) if fm is None else some(fmtv(c, fm))
        sizes = [FMT[fm]] if fm else [33, 64, 65]
        for r in c.call('PublicKey::parse_slice', [s.view(), arg]):
            k = refresh(n)
            if not isinstance(k, int) or k not in sizes:
                c.check(T.ball([T.ne(n, z) for z in sizes]), 'refused only at another length'); iserr(c, r, 'InvalidInputLength'); continue
            hit = [(t, b) for t, b, x in calls if r[0] == 0 and x[1][0] is r[1][0]]
            if len(hit) != 1: c.check(0, 'the result of one of the array parsers'); continue
            t, b = hit[0]
            want = ([4] if k == 64 else []) + [s.at(i) for i in range(k)]
            c.check(int(t == ('compressed' if k == 33 else 'full') and len(b) == len(want)), 'compressed parser at 33 bytes, full parser otherwise')
            if len(b) == len(want): c.check(T.ball([T.eq(x, y) for x, y in zip(b, want)]), 'on these bytes (with tag 4 in front when raw)')

@unit('pubkey.serialize', 'C14 C15 C24', budget=400)
def _(c):
    for sg in (1, -1):
        fresh(c, CON, 'serialize'); k = KeyV(c, sign=sg)
        for v in c.call('PublicKey::serialize', [ref(k.k)]):
            v = list(v); c.check(T.eq(v[0], 4), 'tag 4'); bytes8(c, v)
            c.check_zero(T.sub(be(v[1:33]), k.xv), 'x: 32 big-endian bytes'); c.check_zero(T.sub(be(v[33:]), k.yv), 'y: 32 big-endian bytes')
        fresh(c, CON, 'serialize_compressed'); k = KeyV(c, sign=sg)
        for v in c.call('PublicKey::serialize_compressed', [ref(k.k)]):
            v = list(v); c.check(T.eq(v[0], T.add(2, T.mod(k.yv, 2))), 'tag 2 + parity of y'); bytes8(c, v)
            c.check_zero(T.sub(be(v[1:]), k.xv), 'x: 32 big-endian bytes')
        fresh(c, CON, 'full round trip'); k = KeyV(c, sign=sg)
        for v in c.call('PublicKey::serialize', [ref(k.k)]):
            for r in c.call('PublicKey::parse', [ref(v)]):
                c.check(ok(r), 'accepted')
                if ok(r): k.same(c, r[1][0], 'parse(serialize(k)) = k')
        fresh(c, CON, 'compressed round trip'); k = KeyV(c, sign=sg)
        for v in c.call('PublicKey::serialize_compressed', [ref(k.k)]):
            for r in c.call('PublicKey::parse_compressed', [ref(v)]):
                c.check(ok(r), 'accepted')
                if ok(r): k.same(c, r[1][0], 'parse_compressed(serialize_compressed(k)) = k')

@unit('pubkey.affine', 'C14 C24')
def _(c):
    fresh(c, CON, 'try_from'); x, y, i = fe.fvar('x', 8), fe.fvar('y', 8), T.boolvar('inf')
    for r in c.call('<PublicKey as TryFrom<Affine>>::try_from', [L([x, y, i])]):
        c.check(T.eq(ok(r), T.band(T.bnot(i), curve(x.p, y.p))), 'accepted exactly when finite and on the curve')
        if ok(r): c.check(int(fe.asfv(r[1][0][0]).p == x.p and fe.asfv(r[1][0][1]).p == y.p), 'same point')
        else: iserr(c, r, 'InvalidAffine')
    fresh(c, CON, 'into'); k = KeyV(c)
    for v in c.call('<PublicKey as Into<Affine>>::into', [k.k]): k.same(c, v, 'same point')

# ---------------------------------------------------------------- C27
@unit('codec.hex', 'C27 C24')
def _(c):
    from std import Text
    ex = fresh(c, {}, 'LowerHex of Scalar'); w = u32s('w', 8); f = box(L([Text()]))
    for r in c.call('<Scalar as LowerHex>::fmt', [ref(L([w])), Slot(f, 0)]):
        if r[0] == 1: c.check(T.bnot(T.ball([x for x in written(ex)])), 'fails only when a write fails'); continue
        t = f[0][0].toks; c.check(int(all(isinstance(n, int) for n, _ in t) and sum(n for n, _ in t if isinstance(n, int)) == 64), '64 hexadecimal digits')
        v = 0
        for n, x in t: c.check(T.band(T.ge(x, 0), T.lt(x, 16**n)), '%d digits' % n); v = T.add(T.scale(v, 16**n), x)
        c.check_zero(T.sub(v, words(w)), 'the digits are the big-endian value')
    seen = []
    def inner(ex, fn, a):
        o = a[1].l[a[1].i]; seen.append(1); ex.wr(o, 0, Text(o[0].toks + ((64, sc.ivof(sc.rd(ex, a[0]))),))); return E([0, L([])])
    ex = fresh(c, {**CON, '<Scalar as LowerHex>::fmt': inner}, 'LowerHex of SecretKey'); s = sc.svar('s'); f = box(L([Text()]))
    for r in c.call('<SecretKey as LowerHex>::fmt', [ref(L([s])), Slot(f, 0)]):
        t = f[0][0].toks; c.check(int(r[0] == 0 and len(t) == 1 and t[0][0] == 64), 'the 64 digits of its scalar')
        if len(t) == 1: c.check(T.eq(t[0][1], val(s)), 'the value')
def written(ex): return [T.av(a) for a in T.AT if a.kind == 'var' and str(a.name).startswith('written')] if isinstance(T.AT, list) else [T.av(a) for a in T.AT.values() if str(a.name).startswith('written')]

# ---------------------------------------------------------------- C13
@unit('seckey.random', 'C13 C24')
def _(c):
    ex = c.fresh({}, 'random'); ex.nomerge = True; ex.autoloops = True; ex.havoc = True
    stream = Seq('stream', 1 << 80); rng = L([0])
    def fill(ex, fn, a):
        st = a[0].l[a[0].i]; v = a[1]
        if not isinstance(v.n, int): raise T.Unsupported('random bytes of symbolic length')
        for j in range(v.n): ex.wr(v.l, T.add(v.start, j), stream.at(T.add(st[0], j)))
        ex.wr(st, 0, T.add(st[0], v.n)); return L([])
    ex.contracts = {**CON, '<AnyRng as RngCore>::fill_bytes': fill}
    def block(j): return T.vsum([T.scale(stream.at(T.add(T.scale(j, 32), i)), 1 << (8*(31 - i))) for i in range(32)])
    good = lambda v: T.band(T.gt(v, 0), T.lt(v, N))
    cell = box(rng)
    for r in c.call('SecretKey::random::<AnyRng>', [Slot(cell, 0)]):
        pos = refresh(rng[0]); v = val(r[0])
        m = T.fdiv(pos, 32); c.check(T.eq(T.scale(m, 32), pos), 'whole 32-byte blocks are drawn'); c.check(T.ge(m, 1), 'at least one')
        last = block(T.sub(m, 1))
        c.check(T.eq(v, last), 'the key is the last block drawn, unchanged'); c.check(good(last), 'which is in [1, n-1]')
        # the first two blocks apart, the others generically (a loop may be cut behind its first draw)
        def inst(j):
            for k, pc, C in ex.foralls:
                for d in (0, 1):
                    if T.ilo(T.sub(j, d)) >= 0: T.assume(T.bor(T.ge(T.sub(j, d), k), C(T.sub(j, d))))
        inst(0); inst(1)
        for j in (0, 1): c.check(T.bor(T.ge(j, T.sub(m, 1)), T.bnot(good(block(j)))), 'every earlier block was not in [1, n-1]')
        j = T.var('earlier', 2, 1 << 63)
        if not T.assume(T.lt(j, T.sub(m, 1))): continue
        inst(j)
        c.check(T.bnot(good(block(j))), 'every earlier block was not in [1, n-1]')

# ---------------------------------------------------------------- C28
class Tok(X.Abs):
    """an opaque library value"""
    __slots__ = ('kind', 'x')
    def __init__(s, kind, x=None): s.kind = kind; s.x = x
    def materialize(s, ex): raise T.Unsupported('inside of ' + s.kind)

def rdbytes(ex, v):
    """the bytes behind a slice or a reference to an array"""
    if isinstance(v, View): return [ex.load(v.l, T.add(v.start, i)) for i in range(v.n)] if isinstance(v.n, int) else v
    if isinstance(v, Slot): return rdbytes(ex, ex.readp(v)) if isinstance(ex.readp(v), (View, Slot)) else list(ex.readp(v))
    return v

@unit('serde.serialize', 'C28 C24')
def _(c):
    for human in (0, 1):
        log = []; k65 = bytesvar('k', 65)
        def encode(ex, fn, a): return Tok('base64', (rdbytes(ex, a[1]),))
        def sstr(ex, fn, a): log.append(('str', ex.readp(a[1]))); return E([0, L([])])
        def sbytes(ex, fn, a): log.append(('bytes', rdbytes(ex, a[1]))); return E([0, L([])])
        con = {**CON, 'PublicKey::serialize': lambda ex, fn, a: L(list(k65)), '<AnySer as Serializer>::is_human_readable': lambda ex, fn, a: human,
               '<AnySer as Serializer>::serialize_str': sstr, '<AnySer as Serializer>::serialize_bytes': sbytes,
               '<GeneralPurpose as Engine>::encode::<&[u8]>': encode, '<String as Deref>::deref': lambda ex, fn, a: ref(ex.readp(a[0]))}
        fresh(c, con, 'human readable' if human else 'binary'); k = KeyV(c)
        for r in c.call('<PublicKey as Serialize>::serialize::<AnySer>', [ref(k.k), Tok('serializer')]):
            c.check(int(len(log) == 1 and r[0] == 0), 'one value is written and its result returned')
            if len(log) != 1: continue
            kind, v = log[0]
            if human: v = v.x[0] if kind == 'str' and isinstance(v, Tok) and v.kind == 'base64' else None
            elif kind != 'bytes': v = None
            c.check(int(isinstance(v, list) and len(v) == 65 and all(x is y or T.veq(x, y) for x, y in zip(v, k65))), ('base64 of ' if human else '') + 'the 65-byte form')

def parsed(res, bag):
    """contract of parse_slice (unit pubkey.parse_slice): at the right length an uninterpreted result, otherwise InvalidInputLength"""
    def f(ex, fn, a):
        v, fm = a; names = [t for t in ex.p.types.values() if t['name'] == 'libsecp256k1::PublicKeyFormat'][0]['variants']
        sizes = [33, 64, 65] if fm[0] == 0 else [FMT[names[fm[1][0]]['name']]]
        fit = T.bany([T.eq(v.n, z) for z in sizes])
        errs = [x['name'] for x in [t for t in ex.p.types.values() if t['name'] == 'libsecp256k1::Error'][0]['variants']]
        def good():
            res.append(v); return E([0, L([Tok('key', v.l)])])
        key = bag['valid']
        return X.Alt([(T.bnot(fit), lambda: E([1, E([errs.index('InvalidInputLength')])])), (T.band(fit, key), good),
                      (T.band(fit, T.bnot(key)), lambda: E([1, E([errs.index('InvalidPublicKey')])]))])
    return f

@unit('serde.deserialize', 'C28 C24')
def _(c):
    for human in (0, 1):
        log = []
        def des(kind):
            def f(ex, fn, a): log.append((kind, fn.cname)); return E([0, L([Tok('result')])])
            return f
        con = {**CON, '<AnyDe as Deserializer>::is_human_readable': lambda ex, fn, a: human}
        for n in c.p.byname:
            if n.startswith('<AnyDe as Deserializer>::deserialize_'): con[n] = des(n.split('::')[1])
        fresh(c, con, 'deserialize, human readable %d' % human)
        for r in c.call('<PublicKey as Deserialize>::deserialize::<AnyDe>', [Tok('deserializer')]):
            c.check(int(len(log) == 1 and log[0][0] == ('deserialize_str' if human else 'deserialize_bytes') and ('StrVisitor' if human else 'BytesVisitor') in log[0][1]), 'asks for %s with its visitor' % ('a string' if human else 'bytes'))
            c.check(int(r[0] == 0 and isinstance(r[1][0], Tok) and r[1][0].kind == 'result'), 'returns what the visitor gives')
    for text in (0, 1):
        n = T.var('len', 0, NMAX); s = None; res = []; bag = {}
        def decode(ex, fn, a):
            good = bag['base64ok']
            return X.Alt([(good, lambda: E([0, Tok('vec')])), (T.bnot(good), lambda: E([1, Tok('decode error')]))])
        con = {**CON, 'PublicKey::parse_slice': parsed(res, bag), '<GeneralPurpose as Engine>::decode::<&str>': decode}
        con.update({k: (lambda ex, fn, a: s.view()) for k in ('<Vec<u8> as Deref>::deref', 'Vec::<u8>::as_slice')})
        con['Vec::<u8>::len'] = lambda ex, fn, a: n
        for k in c.p.byname:
            if k.startswith('<AnyErr as Error>::custom'): con[k] = lambda ex, fn, a: Tok('error')
        fresh(c, con, 'visit_str' if text else 'visit_bytes'); n = T.var('len', 0, NMAX); s = Seq('input', n)
        good = bag['base64ok'] = T.boolvar('base64ok'); key = bag['valid'] = T.boolvar('valid')
        spec = T.band(key, T.bany([T.eq(n, z) for z in (33, 64, 65)]))
        if text: spec = T.band(spec, good)
        f = '<PublicKeyStrVisitor as Visitor>::visit_str::<AnyErr>' if text else '<PublicKeyBytesVisitor as Visitor>::visit_bytes::<AnyErr>'
        for r in c.call(f, [L([]), Tok('text') if text else s.view()]):
            c.check(T.eq(ok(r), spec), 'accepted exactly when ' + ('the text is base64 of' if text else 'it is') + ' a byte string that parse_slice accepts')
            if ok(r): v = r[1]; c.check(int(isinstance(v, L) and isinstance(v[0], Tok) and v[0].kind == 'key' and v[0].x is s), 'the key that parse_slice gives'); c.check(T.ball([T.band(T.eq(w.start, 0), T.eq(w.n, n)) for w in res]), 'of all the bytes')
            else: c.check(int(isinstance(r[1], Tok) and r[1].kind == 'error'), 'an error of the format')
