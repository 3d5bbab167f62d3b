"""Contracts of the DER decoder (core/src/der.rs) over byte strings of every length, and of the DER functions of Signature."""
import terms as T, exec as X, sc, solver
from ctx import *
from seq import Seq, refresh
from sc import SV

CON = dict(sc.CONTRACTS)
NMAX = 1 << 48
ERR = None
def errv(c, name, ty='libsecp256k1::Error'):
    for t in c.p.types.values():
        if t['name'] == ty:
            return [v['name'] for v in t['variants']].index(name)
    raise Missing(ty)

class D:
    """a decoder over an arbitrary byte string, at an arbitrary position"""
    def __init__(s, c, con, label, pos=None, auto=False):
        s.c = c; ex = c.fresh(con, label); ex.nomerge = True; ex.autoloops = auto
        s.n = T.var('len', 0, NMAX); s.b = Seq('input', s.n)
        s.p = T.var('pos', 0, NMAX) if pos is None else pos
        if pos is None: c.assume(T.le(s.p, s.n))
        s.d = box(L([s.b.view(), s.p])); s.ref = Slot(s.d, 0)
    def pos(s): return s.d[0][1]

def at(d, *i): return d.b.at(T.vsum(list(i)))
def isok(c, r): return int(r[0] == 0)
def badsig(c, r): c.check(int(r[0] == 1 and list(r[1]) == [errv(c, 'InvalidSignature')]), 'the error is InvalidSignature')

@unit('der.primitives', 'C21 C22 C24')
def _(c):
    d = D(c, {}, 'new'); b = d.b.view()
    for v in c.call('Decoder::new', [b]): c.check(int(v[0].l is b.l and v[1] == 0), 'starts at position 0 of the input')
    d = D(c, {}, 'remaining_len')
    for v in c.call('Decoder::remaining_len', [d.ref]): c.check(T.eq(v, T.sub(d.n, d.p)), 'bytes after the position')
    d = D(c, {}, 'read')
    for v in c.call('Decoder::read', [d.ref]):
        c.check(T.eq(isok(c, v), T.lt(d.p, d.n)), 'succeeds exactly when a byte is left')
        if isok(c, v): c.check(T.eq(v[1], at(d, d.p)), 'the byte at the position'); c.check(T.eq(d.pos(), T.add(d.p, 1)), 'position advances by one')
        else: badsig(c, v); c.check(T.eq(d.pos(), d.p), 'position unchanged')
    d = D(c, {}, 'peek'); f = T.var('forward', 0, NMAX)
    for v in c.call('Decoder::peek', [d.ref, f]):
        c.check(T.eq(isok(c, v), T.lt(T.add(d.p, f), d.n)), 'succeeds exactly when that byte exists'); c.check(T.eq(d.pos(), d.p), 'position unchanged')
        if isok(c, v): c.check(T.eq(v[1], at(d, d.p, f)), 'the byte forward positions ahead')
        else: badsig(c, v)
    for nm in ('peek_slice', 'skip'):
        d = D(c, {}, nm); n = T.var('n', 0, 2**64 - 1)
        for v in c.call('Decoder::' + nm, [d.ref, n]):
            ok = isok(c, v); c.check(T.eq(ok, T.le(T.add(d.p, n), d.n)), 'succeeds exactly when that many bytes are left')
            c.check(T.eq(d.pos(), T.add(d.p, T.scale(n, int(ok and nm == 'skip')))), 'position after the call')
            if ok and nm == 'peek_slice': c.check(T.band(int(v[1].l is d.b), T.band(T.eq(v[1].start, d.p), T.eq(v[1].n, n))), 'the n bytes at the position')
            if not ok: badsig(c, v)
    d = D(c, {}, 'read_constructed_sequence')
    for v in c.call('Decoder::read_constructed_sequence', [d.ref]):
        c.check(T.eq(isok(c, v), T.band(T.lt(d.p, d.n), T.eq(at(d, d.p), 0x30))), 'succeeds exactly on the tag 0x30')
        if isok(c, v): c.check(T.eq(d.pos(), T.add(d.p, 1)), 'position advances by one')
        else: badsig(c, v)

def bebytes(d, p, k): return T.vsum([T.scale(at(d, p, j), 1 << (8*(k-1-j))) for j in range(k)])

@unit('der.read_len', 'C21 C24')
def _(c):
    d = D(c, {}, 'read_len'); p = d.p
    b = at(d, p); rem = T.sub(d.n, p)
    cases = [(T.ball([T.ge(rem, 1), T.lt(b, 128)]), b, T.add(p, 1))]
    for k in range(1, 9):
        v = bebytes(d, T.add(p, 1), k)
        ok = T.ball([T.ge(rem, 1 + k), T.eq(b, 128 + k), T.ne(at(d, p, 1), 0), T.ge(v, 128), T.le(v, T.sub(rem, 1 + k))])
        cases.append((ok, v, T.add(p, 1 + k)))
    spec = T.bany([x[0] for x in cases])
    for r in c.call('Decoder::read_len', [d.ref]):
        c.check(T.eq(isok(c, r), spec), 'succeeds exactly on a short-form length, or a shortest long-form length (1 to 8 octets, value at least 128) that is not more than the bytes left')
        if isok(c, r):
            for ok, v, q in cases:
                c.check(T.bor(T.bnot(ok), T.band(T.eq(r[1], v), T.eq(d.pos(), q))), 'value and position of the length')
        else: badsig(c, r)

# ---------------------------------------------------------------- call-level contracts
class LenSpec:
    """uninterpreted result of read_len at a position: ok, value, next position"""
    def __init__(s, kind): s.kind = kind; s.m = {}
    def get(s, p, n):
        k = p if isinstance(p, int) else p.k
        if k not in s.m:
            i = len(s.m)
            s.m[k] = (T.boolvar('%s_ok%d' % (s.kind, i)), T.var('%s_value%d' % (s.kind, i), 0, NMAX), T.var('%s_next%d' % (s.kind, i), 1, NMAX))
        return s.m[k]
def errC(ex, fn):
    for t in ex.p.types.values():
        if t['name'] == 'libsecp256k1::Error': return E([[v['name'] for v in t['variants']].index('InvalidSignature')])

def len_contract(spec, fits):
    def f(ex, fn, a):
        dec = a[0].l[a[0].i]; p = refresh(dec[1]); n = dec[0].n
        ok, v, q = spec.get(p, n)
        def good():
            T.assume(T.gt(q, p)); T.assume(T.le(q, n))
            if fits: T.assume(T.le(v, T.sub(n, q)))
            ex.wr(dec, 1, q); return E([0, v])
        def bad(): ex.wr(dec, 1, X.UN); return E([1, errC(ex, fn)])
        return X.Alt([(ok, good), (T.bnot(ok), bad)])
    return f

def int_contract(spec):
    def f(ex, fn, a):
        dec = a[0].l[a[0].i]; p = refresh(dec[1]); n = dec[0].n
        k = p if isinstance(p, int) else p.k
        if k not in spec.m:
            spec.get(p, n); spec.m[k] += (sc.svar('%s_int%d' % (spec.kind, len(spec.m))),)
        ok, v, q, val = spec.m[k]
        def good():
            T.assume(T.gt(q, p)); T.assume(T.le(q, n)); ex.wr(dec, 1, q); return E([0, val])
        def bad(): ex.wr(dec, 1, X.UN); return E([1, errC(ex, fn)])
        return X.Alt([(ok, good), (T.bnot(ok), bad)])
    return f

def intvalue(c, d, r, p, n, what):
    """r holds the value of the n content bytes at p, or zero when that is not below the group order (or n > 32)"""
    out = sc.ivof(sc.assv(r[1]))
    n = refresh(n)
    if isinstance(n, int):
        v = bebytes(d, p, n)
        c.check(T.eq(out, T.ite(T.lt(v, N), v, 0)), what + ': the value below n, or zero')
    else:
        c.check(T.gt(n, 32), what + ': more than 32 bytes'); c.check(T.eq(out, 0), what + ': zero for an oversized value')

@unit('der.read_integer', 'C21 C24', budget=400)
def _(c):
    ls = LenSpec('len')
    d = D(c, {**CON, 'Decoder::read_len': len_contract(ls, False)}, 'read_integer'); p = d.p
    ok, n, q = ls.get(T.add(p, 1), d.n)
    b0, b1 = at(d, q), at(d, q, 1)
    c.assume(T.bor(T.bnot(ok), T.ball([T.gt(q, T.add(p, 1)), T.le(q, d.n)])))
    spec = T.ball([T.lt(p, d.n), T.eq(at(d, p), 2), ok, T.ge(n, 1), T.le(n, T.sub(d.n, q)), T.lt(b0, 128),
                   T.bor(T.bor(T.ne(b0, 0), T.eq(n, 1)), T.ge(b1, 128))])
    for r in c.call('Decoder::read_integer', [d.ref]):
        c.check(T.eq(isok(c, r), spec), 'succeeds exactly on tag 2, a valid length with that many bytes left, and minimal non-negative contents')
        if not isok(c, r): badsig(c, r); continue
        c.check(T.eq(d.pos(), T.add(q, n)), 'position after the contents')
        k = refresh(n)
        if isinstance(k, int):
            v = bebytes(d, q, k)
            c.check(T.eq(sc.ivof(sc.assv(r[1])), T.ite(T.lt(v, N), v, 0)), 'the value, or zero when it is not below n')
        else:
            c.check(T.gt(n, 32), 'more than 32 bytes'); c.check(T.bor(T.gt(n, 33), T.gt(b0, 0)), 'more than 32 significant bytes')
            c.check(T.eq(sc.ivof(sc.assv(r[1])), 0), 'zero for an oversized value')

def outer(c, nm, lax):
    ls, is_ = LenSpec('len'), LenSpec('int')
    con = {**CON}
    con['Decoder::read_seq_len_lax' if lax else 'Decoder::read_len'] = len_contract(ls, False)
    con['Decoder::read_integer_lax' if lax else 'Decoder::read_integer'] = int_contract(is_)
    d = D(c, con, nm, pos=0)
    ok, v, q = ls.get(1, d.n)
    for r in c.call('Signature::' + nm, [d.b.view()]):
        i1 = is_.m.get(q.k); i2 = is_.m.get(i1[2].k) if i1 else None
        spec = T.ball([T.gt(d.n, 0), T.eq(at(d, 0), 0x30), ok] + ([] if lax else [T.eq(v, T.sub(d.n, q))]))
        if i1: spec = T.band(spec, i1[0])
        if i2: spec = T.band(spec, T.ball([i2[0]] + ([] if lax else [T.eq(i2[2], d.n)])))
        c.check(T.eq(isok(c, r), spec if i2 else T.band(spec, 0) if isok(c, r) else spec if not i1 or not i2 else 0) if isok(c, r) else T.bnot(spec),
                'succeeds exactly on a sequence tag, its length, and two integers' + ('' if lax else ' that fill the input exactly'))
        if isok(c, r):
            c.check(int(sc.assv(r[1][0]).p == i1[3].p and sc.assv(r[1][1]).p == i2[3].p), 'r is the first integer and s the second')
        else: badsig(c, r)

@unit('der.parse_der', 'C21 C24')
def _(c): outer(c, 'parse_der', False)

# ---------------------------------------------------------------- lax decoder
class LZ:
    """number of leading zero bytes of the l bytes at p: 0 <= z <= l; bytes before z are zero; byte z is not, when z < l"""
    def __init__(s, d, p, l):
        s.d = d; s.p = p; s.l = l; s.z = T.var('leading_zeros', 0, NMAX)
        s.defining = T.band(T.le(s.z, l), T.bor(T.eq(s.z, l), T.ne(at(d, p, s.z), 0)))
    def inst(s, k): return T.bor(T.ge(k, s.z), T.eq(at(s.d, s.p, k), 0))
    def facts(s, ex):
        """the definition at the iteration counts of the loops run so far, and the loops' facts at z"""
        for k, pc, C in ex.foralls:
            T.assume(s.inst(k)); T.assume(T.bor(T.ge(s.z, k), C(s.z)))

@unit('der.read_seq_len_lax', 'C22 C24')
def _(c):
    d = D(c, {}, 'read_seq_len_lax'); b = at(d, d.p); rem = T.sub(d.n, d.p)
    long = T.ge(b, 128); L_ = T.sub(b, 128)
    spec = T.band(T.ge(rem, 1), T.bor(T.bnot(long), T.le(L_, T.sub(rem, 1))))
    for r in c.call('Decoder::read_seq_len_lax', [d.ref]):
        c.check(T.eq(isok(c, r), spec), 'succeeds exactly when the length octets are there')
        if isok(c, r): c.check(T.eq(d.pos(), T.add(d.p, T.add(1, T.ite(long, L_, 0)))), 'position after the length octets')
        else: badsig(c, r)

@unit('der.read_len_lax', 'C22 C24', budget=400)
def _(c):
    d = D(c, {}, 'read_len_lax', auto=True); p = d.p; b = at(d, p); rem = T.sub(d.n, p)
    L_ = T.sub(b, 128); z = LZ(d, T.add(p, 1), L_)
    c.assume(T.bor(T.lt(b, 128), z.defining))
    q = T.add(p, T.add(1, L_)); m = T.sub(L_, z.z)
    cases = [(T.band(T.lt(b, 128), T.le(b, T.sub(rem, 1))), b, T.add(p, 1))]
    for k in range(0, 8):
        v = bebytes(d, T.add(p, T.add(1, z.z)), k)
        cases.append((T.ball([T.ge(b, 128), T.le(L_, T.sub(rem, 1)), T.eq(m, k), T.le(v, T.sub(d.n, q))]), v, q))
    spec = T.band(T.ge(rem, 1), T.bany([x[0] for x in cases]))
    for r in c.call('Decoder::read_len_lax', [d.ref]):
        z.facts(c.ex)
        c.check(T.eq(isok(c, r), spec), 'succeeds exactly on a short length, or a long one of at most 7 significant octets, that is not more than the bytes left')
        if isok(c, r):
            for ok, v, q in cases:
                c.check(T.bor(T.bnot(ok), T.band(T.eq(r[1], v), T.eq(d.pos(), q))), 'value and position of the length')
        else: badsig(c, r)

@unit('der.read_integer_lax', 'C22 C24', budget=400)
def _(c):
    ls = LenSpec('len')
    d = D(c, {**CON, 'Decoder::read_len_lax': len_contract(ls, True)}, 'read_integer_lax', auto=True); p = d.p
    ok, n, q = ls.get(T.add(p, 1), d.n)
    c.assume(T.bor(T.bnot(ok), T.ball([T.gt(q, T.add(p, 1)), T.le(q, d.n), T.le(n, T.sub(d.n, q))])))
    z = LZ(d, q, n); c.assume(T.bor(T.bnot(ok), z.defining))
    spec = T.ball([T.lt(p, d.n), T.eq(at(d, p), 2), ok])
    for r in c.call('Decoder::read_integer_lax', [d.ref]):
        z.facts(c.ex)
        c.check(T.eq(isok(c, r), spec), 'succeeds exactly on tag 2 and a length with that many bytes left')
        if not isok(c, r): badsig(c, r); continue
        c.check(T.eq(d.pos(), T.add(q, n)), 'position after the contents')
        out = sc.ivof(sc.assv(r[1])); m = T.sub(n, z.z)
        for k, pc, C in c.ex.foralls:
            if T.eq(k, z.z) != 1 and solver.prove(T.eq(k, z.z))[0] == 'proved': T.assume(T.eq(k, z.z))
        mk = refresh(m)
        for k in [mk] if isinstance(mk, int) else range(33):
            v = bebytes(d, T.add(q, z.z), k)
            c.check(T.bor(T.ne(m, k), T.eq(out, T.ite(T.lt(v, N), v, 0))), 'the value of %d significant bytes, or zero when it is not below n' % k)
        c.check(T.bor(T.le(m, 32), T.eq(out, 0)), 'zero for an oversized value')

@unit('der.parse_der_lax', 'C22 C24')
def _(c): outer(c, 'parse_der_lax', True)

# ---------------------------------------------------------------- DER encoder
SD = 'Signature::serialize_der'
def minimal(full, j):
    """full[j..] is the shortest two's complement encoding of the non-negative integer in full"""
    c = [T.eq(full[i], 0) for i in range(j)] + [T.lt(full[j], 128)]
    if j < 32: c.append(T.bor(T.ne(full[j], 0), T.ge(full[j + 1], 128)))
    return T.ball(c)
def slice_contract(ex, fn, a):
    full = ex.readp(a[0]); l = L(list(full))
    ex.oblige(T.eq(full[0], 0), 'pre', 'the leading byte is zero')
    return X.Alt([(minimal(full, j), (lambda j: lambda: View(l, j, 33 - j))(j)) for j in range(33)])

@unit('der.integer_slice', 'C21 C24')
def _(c):
    ex = c.fresh({}, 'integer_slice'); ex.nomerge = True
    full = L([0] + list(bytesvar('b', 32)))
    for v in c.call(SD + '::integer_slice', [ref(full)]):
        st = refresh(v.start); ok = isinstance(st, int) and 0 <= st < 33
        c.check(int(ok and v.n == 33 - st), 'a non-empty suffix')
        if ok:
            c.check(T.ball([T.eq(x, y) for x, y in zip([ex.load(v.l, st + j) for j in range(33 - st)], full[st:])]), 'of the input')
            c.check(minimal(full, st), 'the shortest non-negative encoding')
    ex = c.fresh(CON, 'fill_scalar_with_leading_zero'); s = sc.svar('s')
    for v in c.call(SD + '::fill_scalar_with_leading_zero', [ref(s)]):
        c.check(T.eq(v[0], 0), 'leading zero'); c.check_zero(T.sub(be(list(v)[1:]), sc.ivof(s)), 'the 32 bytes of the scalar')
    ex = c.fresh({}, 'SignatureArray'); n = T.var('n', 0, 72)
    for v in c.call('SignatureArray::new', [n]):
        r = ref(v)
        for m in c.call('SignatureArray::len', [r]): c.check(T.eq(m, n), 'len')
        for m in c.call('SignatureArray::is_empty', [r]): c.check(T.eq(m, T.eq(n, 0)), 'is_empty')
        for nm in ('<SignatureArray as AsRef<[u8]>>::as_ref', '<SignatureArray as AsMut<[u8]>>::as_mut'):
            for m in c.call(nm, [r]): c.check(T.band(int(m.l is r.l[r.i][0]), T.band(T.eq(m.start, 0), T.eq(m.n, n))), 'the first len bytes')

@unit('der.serialize_der', 'C21 C24', budget=500)
def _(c):
    ex = c.fresh({**CON, SD + '::integer_slice': slice_contract}, 'serialize_der'); ex.nomerge = True
    r, s = sc.svar('r'), sc.svar('s')
    fr, fs = ([0] + list(sc.bytes_of(sc.ivof(x))) for x in (r, s))
    sig = L([r, s])
    for v in c.call('Signature::serialize_der', [ref(sig)]):
        out, n = v[0], refresh(v[1]); l = [refresh(x) for x in list(out)[:7]]
        lr = l[3]
        if not (isinstance(n, int) and isinstance(lr, int) and 1 <= lr <= 33): c.check(0, 'the length of r is written'); continue
        ls = refresh(out[5 + lr])
        if not (isinstance(ls, int) and 1 <= ls <= 33): c.check(0, 'the length of s is written'); continue
        c.check(int(n == 6 + lr + ls and l[0] == 0x30 and l[1] == n - 2 and l[2] == 2 and refresh(out[4 + lr]) == 2), 'sequence of two integers with their lengths')
        c.check(minimal(fr, 33 - lr), 'shortest encoding of r'); c.check(minimal(fs, 33 - ls), 'shortest encoding of s')
        c.check(T.ball([T.eq(x, y) for x, y in zip(out[4:4 + lr], fr[33 - lr:])]), 'contents of r')
        c.check(T.ball([T.eq(x, y) for x, y in zip(out[6 + lr:n], fs[33 - ls:])]), 'contents of s')

@unit('der.roundtrip', 'C21', budget=400)
def _(c):
    for m in range(1, 34):
        def short(ex, fn, a):
            dec = a[0].l[a[0].i]; p = refresh(dec[1])
            ex.oblige(T.band(T.eq(dec[0].l.at(p), m), T.le(T.add(p, 1 + m), dec[0].n)), 'pre', 'a short-form length')
            ex.wr(dec, 1, T.add(p, 1)); return E([0, m])      # first case of the contract of read_len and read_len_lax
        d = D(c, {**CON, 'Decoder::read_len': short, 'Decoder::read_len_lax': short}, 'an encoded integer of %d bytes' % m); p = d.p; c.ex.autoloops = False
        b = [at(d, p, 2 + j) for j in range(m)]
        for x in [T.le(T.add(p, 2 + m), d.n), T.eq(at(d, p), 2), T.eq(at(d, p, 1), m), T.lt(b[0], 128)]: c.assume(x)
        if m > 1: c.assume(T.bor(T.ne(b[0], 0), T.ge(b[1], 128)))
        if m == 33: c.assume(T.eq(b[0], 0)); b = b[1:]
        v = be(b); c.assume(T.lt(v, N))
        for nm in ('Decoder::read_integer', 'Decoder::read_integer_lax'):
            d.d[0][1] = p
            for r in c.call(nm, [d.ref]):
                c.check(isok(c, r), 'is read back')
                if isok(c, r): c.check(T.eq(sc.ivof(sc.assv(r[1])), v), 'with its value'); c.check(T.eq(d.pos(), T.add(p, 2 + m)), 'up to its end')
