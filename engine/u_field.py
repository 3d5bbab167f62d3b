"""Contracts of core/src/field.rs, checked limb by limb on the MIR of the real functions.

val(f) = sum n[i] 2^(26 i).  Well-formedness WF(f): n[i] <= k*mag*0x3ffffff (n[9] <= k*mag*0x3fffff) with k = 1 if
normalized else 2, mag <= 32; and when normalized, mag <= 1 and val < p (canonical)."""
import terms as T, exec as X, ident
from ctx import *

M26 = 0x3ffffff; M22 = 0x3fffff

def val(n): return T.vsum([T.scale(x, 1 << (26*i)) for i, x in enumerate(n)])

def lim(i): return M22 if i == 9 else M26

def fld(c, name, maxmag=31, norm=0):
    """symbolic well-formed field; norm 0: not normalised, 1: normalised, 'any': flag symbolic"""
    if norm == 'any':
        # a normalised element also satisfies the weaker limb bounds, so one symbolic flag covers both
        f = fld(c, name, maxmag, 0); f[2] = T.boolvar(name + '.norm')
        return f
    if norm:
        n = [T.var('%s.n%d' % (name, i), 0, lim(i)) for i in range(10)]
        v = val(n)
        c.assume(canon(n))
        mag = T.var(name + '.mag', 0, 1)
        for i in range(10): c.assume(T.le(n[i], T.scale(mag, lim(i))))
        return L([L(n), mag, 1])
    n = [T.var('%s.n%d' % (name, i), 0, 2*maxmag*lim(i)) for i in range(10)]
    mag = T.var(name + '.mag', 0, maxmag)
    for i in range(10): c.assume(T.le(n[i], T.scale(mag, 2*lim(i))))
    return L([L(n), mag, 0])

def canon(n):
    """val(n) < p, in a form the solver likes: limbs are in range"""
    hi = T.ball([T.eq(n[9], M22)] + [T.eq(n[i], M26) for i in range(2, 9)])
    low = T.add(n[0], T.scale(n[1], 1 << 26))
    return T.bnot(T.band(hi, T.ge(low, P & ((1 << 52) - 1))))

def anyfld(c, name):
    """old contents of an output: arbitrary"""
    return L([u32s(name + '.o', 10), T.var(name + '.omag', 0, 2**32-1), T.boolvar(name + '.onorm')])

def wf(c, f, desc, maxmag=None):
    n, mag, norm = f[0], f[1], f[2]
    ex = c.ex
    if isinstance(norm, int):
        k = 1 if norm else 2
        for i in range(10):
            c.check(T.le(n[i], T.scale(mag, k * lim(i))), '%s: limb %d within its magnitude' % (desc, i))
        if norm:
            c.check(T.le(mag, 1), desc + ': magnitude of a normalized element')
            c.check(canon(n), desc + ': normalized element is canonical')
        c.check(T.le(mag, 32), desc + ': magnitude at most 32')
    else: raise T.Unsupported('symbolic normalized flag')

def zero(x): return T.eq0(x)

@unit('field.normalize', 'C02 C24')
def _(c):
    for name in ('Field::normalize', 'Field::normalize_var'):
        c.fresh(label=name)
        a = fld(c, 'a'); v0 = val(a[0]); r = box(a)
        for _ in c.call(name, [Slot(r, 0)]):
            n, mag, norm = r[0]
            c.check_zero(T.sub(val(n), v0), 'value preserved mod p', P)
            for i in range(10): c.check(T.le(n[i], lim(i)), 'limb %d in range' % i)
            c.check(canon(n), 'result is canonical (< p)')
            c.check(T.eq(mag, 1), 'magnitude 1'); c.check(T.eq(norm, 1), 'normalized flag')

@unit('field.normalize_weak', 'C02 C24')
def _(c):
    for nrm in (0, 1):
        c.fresh(label='normalized=%d' % nrm)
        a = fld(c, 'a', norm=nrm); v0 = val(a[0]); r = box(a)
        if nrm: a[1] = 1
        for _ in c.call('Field::normalize_weak', [Slot(r, 0)]):
            n, mag, norm = r[0]
            c.check_zero(T.sub(val(n), v0), 'value preserved mod p', P)
            c.check(T.eq(mag, 1), 'magnitude 1'); c.check(T.eq(norm, nrm), 'normalized flag unchanged')
            wf(c, r[0], 'result')

@unit('field.normalizes_to_zero', 'C02 C24')
def _(c):
    for name in ('Field::normalizes_to_zero', 'Field::normalizes_to_zero_var'):
        c.fresh(label=name)
        a = fld(c, 'a'); v = val(a[0])
        # val <= 64*(2^256) : zero mod p iff val = k p for some k in 0..65
        isz = zmod(v)
        for r in c.call(name, [ref(a)]):
            zcheck(c, r, a, name)

def zmod(v): return None

def zcheck(c, r, a, name):
    """r <=> val(a) = 0 (mod p).  Witness: w = val(a) - x*p where x = n[9] >> 22; 0 <= w < 2p, so r <=> w in {0, p}."""
    n = a[0]
    x = T.fdiv(n[9], 1 << 22)
    w = T.sub(val(n), T.scale(x, P))
    c.check(T.ge(w, 0), 'lemma: val - (n9>>22) p >= 0', kind='lemma')
    c.check(T.lt(w, 2*P), 'lemma: val - (n9>>22) p < 2p', kind='lemma')
    c.check(T.eq(r, T.bor(T.eq0(w), T.eq0(T.sub(w, P)))), 'returns true exactly when the value is 0 mod p')

@unit('field.verify', 'C02')
def _(c):
    for nrm in (0, 1):
        c.fresh(label='normalized=%d' % nrm)
        a = fld(c, 'a', norm=nrm)
        for r in c.call('Field::verify', [ref(a)]):
            c.check(r, 'well-formed elements pass verify')

@unit('field.add', 'C02 C24')
def _(c):
    for nm in ('<Field as AddAssign<&Field>>::add_assign', '<Field as AddAssign>::add_assign', '<&Field as Add>::add', '<Field as Add>::add'):
        if 1:
            if 1:
                c.fresh(label=nm)
                a = fld(c, 'a', 32, 'any'); b = fld(c, 'b', 32, 'any')
                c.assume(T.le(T.add(a[1], b[1]), 32))
                va, vb, ma, mb = val(a[0]), val(b[0]), a[1], b[1]
                r = box(a)
                if 'AddAssign' in nm: args = [Slot(r, 0), ref(b) if '&' in nm else b]
                else: args = [Slot(r, 0) if '&' in nm else a, ref(b) if '&' in nm else b]
                for v in c.call(nm, args):
                    o = r[0] if 'AddAssign' in nm else v
                    c.check_zero(T.sub(val(o[0]), T.add(va, vb)), 'sum', P)
                    c.check(T.eq(o[1], T.add(ma, mb)), 'magnitudes add'); c.check(T.eq(o[2], 0), 'normalized flag cleared')
                    wf(c, o, 'result')

@unit('field.neg', 'C02 C24')
def _(c):
    for m in range(0, 32):
        for nrm in (0, 1):
            if nrm and m == 0: continue
            c.fresh(label='m=%d normalized=%d' % (m, nrm))
            if m == 0: a = L([L([0]*10), 0, T.boolvar('norm')])
            else: a = fld(c, 'a', maxmag=m, norm=nrm)
            va = val(a[0]); r = box(anyfld(c, 'r')) if True else None
            for _ in c.call('Field::neg_in_place', [Slot(r, 0), ref(a), m]):
                o = r[0]
                c.check_zero(T.add(val(o[0]), va), 'negation', P)
                c.check(T.eq(o[1], m+1), 'magnitude m+1'); c.check(T.eq(o[2], 0), 'normalized flag cleared')
                wf(c, o, 'result')
            if m in (1, 8):
                for v in c.call('Field::neg', [ref(a), m]):
                    c.check_zero(T.add(val(v[0]), va), 'negation (by value)', P)
                    c.check(T.eq(v[1], m+1), 'magnitude m+1'); wf(c, v, 'result')

@unit('field.mul_int', 'C02 C24')
def _(c):
    for k in range(0, 33):
        for nrm in ('any',):
            c.fresh(label='a=%d' % k)
            mm = 32 // k if k else 32
            a = fld(c, 'a', maxmag=mm, norm=nrm)
            va, ma = val(a[0]), a[1]; r = box(a)
            for _ in c.call('Field::mul_int', [Slot(r, 0), k]):
                o = r[0]
                c.check_zero(T.sub(val(o[0]), T.scale(va, k)), 'small multiple', P)
                c.check(T.eq(o[1], T.scale(ma, k)), 'magnitude scaled'); c.check(T.eq(o[2], 0), 'normalized flag cleared')
                wf(c, o, 'result')

def mulunit(c, name, sq, wrapped):
    for na in (0, 1):
        for nb in (0, 1):
            if not sq or na == nb: mulcase(c, name, sq, wrapped, na, nb)

def mulcase(c, name, sq, wrapped, na, nb):
    c.fresh(label='%s normalized=%d%d' % (name, na, nb))
    a = fld(c, 'a', maxmag=8, norm=na)
    if not sq: b = fld(c, 'b', maxmag=8, norm=nb)
    else: b = a
    va, vb = val(a[0]), val(b[0])
    r = box(anyfld(c, 'r'))
    for v in c.call(name, [Slot(r, 0), ref(a)] + ([] if sq else [ref(b)])):
        o = r[0]
        c.check_zero(T.sub(val(o[0]), T.mul(va, vb)), 'product', P)
        for i in range(10): c.check(T.le(o[0][i], 2*lim(i)), 'limb %d within magnitude 1' % i)
        if wrapped:
            c.check(T.eq(o[1], 1), 'magnitude 1'); c.check(T.eq(o[2], 0), 'normalized flag cleared')

@unit('field.mul', 'C02 C24')
def _(c): mulunit(c, 'Field::mul_in_place', False, True)
@unit('field.sqr', 'C02 C24')
def _(c): mulunit(c, 'Field::sqr_in_place', True, True)

@unit('field.small', 'C02 C24')
def _(c):
    # is_zero, is_odd, clear, set_int, default, cmov, cmp_var
    c.fresh(label='is_zero'); a = fld(c, 'a', norm=1)
    for r in c.call('Field::is_zero', [ref(a)]): c.check(T.eq(r, T.eq0(val(a[0]))), 'is_zero iff value is zero')
    c.fresh(label='is_odd'); a = fld(c, 'a', norm=1)
    for r in c.call('Field::is_odd', [ref(a)]): c.check(T.eq(r, T.mod(val(a[0]), 2)), 'is_odd is the low bit of the value')
    c.fresh(label='clear'); a = anyfld(c, 'a'); r = box(a)
    for _ in c.call('Field::clear', [Slot(r, 0)]):
        c.check_zero(T.vsum(r[0][0]), 'all limbs zero'); c.check(T.eq(r[0][1], 0), 'magnitude 0'); c.check(T.eq(r[0][2], 1), 'normalized')
    c.fresh(label='default')
    for v in c.call('<Field as Default>::default', []):
        c.check_zero(T.vsum(v[0]), 'all limbs zero'); wf(c, v, 'default')
    c.fresh(label='set_int'); x = T.var('x', 0, 2**26-1); r = box(anyfld(c, 'a'))
    for _ in c.call('Field::set_int', [Slot(r, 0), x]):
        c.check_zero(T.sub(val(r[0][0]), x), 'value'); c.check(T.eq(r[0][1], 1), 'magnitude 1'); wf(c, r[0], 'set_int')
    for v in c.call('Field::from_int', [x]):
        c.check_zero(T.sub(val(v[0]), x), 'value'); c.check(T.eq(v[1], 1), 'magnitude 1'); wf(c, v, 'from_int')
    for f in (0, 1):
        c.fresh(label='cmov flag=%d' % f); a = anyfld(c, 'a'); b = anyfld(c, 'b'); r = box(a)
        w = X.copyval(b if f else a)
        for _ in c.call('Field::cmov', [Slot(r, 0), ref(b), f]):
            c.check_zero(T.sub(val(r[0][0]), val(w[0])), 'limbs selected')
            for i in range(10): c.check(T.eq(r[0][0][i], w[0][i]), 'limb %d selected' % i)
            c.check(T.eq(r[0][1], w[1]), 'magnitude selected'); c.check(T.eq(r[0][2], w[2]), 'flag selected')

@unit('field.cmp', 'C02 C24')
def _(c):
    for nm in ('Field::cmp_var', '<Field as Ord>::cmp'):
        c.fresh(label=nm); a = fld(c, 'a', norm=1); b = fld(c, 'b', norm=1)
        d = T.sub(val(a[0]), val(b[0]))
        got = []
        for v in c.call(nm, [ref(a), ref(b)]):
            k = v[0] if isinstance(v, X.OrdE) else T.sub(v[0], 1)      # -1, 0, 1
            got.append(k)
            c.check(T.eq0(d) if k == 0 else T.gt(d, 0) if k == 1 else T.lt(d, 0) if k == -1 else
                    T.eq(k, T.sub(T.gt(d, 0), T.lt(d, 0))), 'order agrees with the integer values')
        c.check(int(any(not isinstance(k, int) for k in got) or set(got) == {-1, 0, 1}), 'all three orders reachable', kind='vacuity')

@unit('field.set_b32', 'C02 C24 C15 C14')
def _(c):
    c.fresh(); b = bytesvar('b', 32); r = box(anyfld(c, 'a')); old = X.copyval(r[0])
    v = be(b); n = 0
    for ok in c.call('Field::set_b32', [Slot(r, 0), ref(b)]):
        n += 1
        f = r[0]
        c.check(T.eq(ok, T.lt(v, P)), 'accepts exactly the encodings below p')
        c.check(T.bor(T.bnot(ok), T.eq0(T.sub(val(f[0]), v))), 'value of an accepted encoding')
        if not (isinstance(ok, int) and not ok):
            for i in range(10): c.check(T.bor(T.bnot(ok), T.le(f[0][i], lim(i))), 'limb %d in range' % i)
            c.check(T.bor(T.bnot(ok), T.band(T.eq(f[1], 1), T.eq(f[2], 1))), 'accepted: magnitude 1, normalized')
    c.check(int(n > 0), 'reachable', kind='vacuity')

@unit('field.b32', 'C02 C24 C14')
def _(c):
    c.fresh(); a = fld(c, 'a', norm=1); r = box(bytesvar('o', 32))
    for _ in c.call('Field::fill_b32', [ref(a), Slot(r, 0)]):
        c.check_zero(T.sub(be(r[0]), val(a[0])), 'bytes encode the value')
        for i, x in enumerate(r[0]): c.check(T.band(T.ge(x, 0), T.le(x, 255)), 'byte %d' % i)
    for v in c.call('Field::b32', [ref(a)]):
        c.check_zero(T.sub(be(v), val(a[0])), 'bytes encode the value (by value)')

@unit('field.storage', 'C02 C24')
def _(c):
    c.fresh(label='from storage'); s = u32s('s', 8); v = words(s)
    for f in c.call('<Field as From<FieldStorage>>::from', [L([s])]):
        c.check_zero(T.sub(val(f[0]), v), 'value kept'); c.check(T.eq(f[1], 1), 'magnitude'); c.check(T.eq(f[2], 1), 'normalized flag')
        for i in range(10): c.check(T.le(f[0][i], lim(i)), 'limb %d in range' % i)
    c.fresh(label='into storage'); a = fld(c, 'a', norm=1)
    for s in c.call('<Field as Into<FieldStorage>>::into', [a]):
        c.check_zero(T.sub(words(s[0]), val(a[0])), 'value kept')
        for i, x in enumerate(s[0]): c.check(T.band(T.ge(x, 0), T.lt(x, 2**32)), 'word %d' % i)
    for f in (0, 1):
        c.fresh(label='storage cmov %d' % f); a = L([u32s('a', 8)]); b = L([u32s('b', 8)]); r = box(a)
        w = X.copyval(b if f else a)
        for _ in c.call('FieldStorage::cmov', [Slot(r, 0), ref(b), f]):
            for i in range(8): c.check(T.eq(r[0][0][i], w[0][i]), 'word %d selected' % i)
    c.fresh(label='new'); w = [T.var('d%d' % i, 0, 2**32-1) for i in range(8)]
    c.assume(T.lt(words(w), P))
    for f in c.call('Field::new', list(reversed(w))):
        c.check_zero(T.sub(val(f[0]), words(w)), 'value'); c.check(T.eq(f[1], 1), 'magnitude'); c.check(T.eq(f[2], 1), 'normalized flag')
        for i in range(10): c.check(T.le(f[0][i], lim(i)), 'limb %d in range' % i)
    for f in c.call('FieldStorage::new', list(reversed(w))):
        c.check_zero(T.sub(words(f[0]), words(w)), 'value')

@unit('field.eq', 'C02 C24')
def _(c):
    # eq: self.magnitude + other.magnitude <= 30; every magnitude of self is a separate case
    for ma in range(0, 31):
        c.fresh(label='eq mag(self)=%d' % ma)
        a = fld(c, 'a', maxmag=max(ma, 1)); a[1] = ma
        if ma == 0: a = L([L([0]*10), 0, 0])
        b = fld(c, 'b', maxmag=max(30 - ma, 0)) if ma < 30 else L([L([0]*10), 0, 0])
        c.ex.contracts = {'Field::normalizes_to_zero': ztz, 'Field::normalizes_to_zero_var': ztz}
        for nm in ('<Field as PartialEq>::eq',) + (('Field::eq_var',) if ma == 1 else ()):
            for r in c.call(nm, [ref(a), ref(b)]):
                w = r
                d = ZT[0]
                c.check_zero(T.sub(d, T.sub(val(b[0]), val(a[0]))), 'equality tests the difference of the values (or its negation)', P)
                c.check(T.eq(r, ZT[1]), 'returns the zero test')

ZT = [None, None]
def ztz(ex, fn, args):
    f = ex.readp(args[0])
    ex.oblige(T.le(f[1], 31), 'pre', 'magnitude at most 31')
    for i in range(10): ex.oblige(T.le(f[0][i], T.scale(f[1], 2*lim(i))), 'pre', 'limb %d within its magnitude' % i)
    b = T.boolvar('iszero'); ZT[0] = val(f[0]); ZT[1] = b
    return b

# ---------------------------------------------------------------- wrappers and chains, over the contracts above
import fe

def fvcheck(c, f, poly, mag, norm, desc):
    f = fe.asfv(f)
    c.check(fe.fzero(fe.fsub(f.p, poly)), desc + ': value')
    c.check(T.eq(f.mag, mag), desc + ': magnitude'); c.check(T.eq(f.norm, norm), desc + ': normalized flag')

@unit('field.wrappers', 'C02 C24')
def _(c):
    con = fe.CONTRACTS
    for nm in ('<Field as Mul>::mul', '<&Field as Mul>::mul', '<Field as MulAssign<&Field>>::mul_assign', '<Field as MulAssign>::mul_assign'):
        c.fresh(con, nm)
        a = fe.fvar('a', T.var('ma', 0, 8)); b = fe.fvar('b', T.var('mb', 0, 8)); r = box(a); q = box(b)
        args = [Slot(r, 0) if 'Assign' in nm or '&' in nm.split(' ')[0] else a, b if nm.startswith('<Field as Mul>') or nm.endswith('as MulAssign>::mul_assign') else Slot(q, 0)]
        for v in c.call(nm, args):
            fvcheck(c, r[0] if 'Assign' in nm else v, fe.fmul(a.p, b.p), 1, 0, 'product')
    c.fresh({k: v for k, v in con.items() if k not in ('Field::sqr', 'Field::neg', 'Field::from_int')}, 'sqr')
    a = fe.fvar('a', T.var('ma', 0, 8))
    for v in c.call('Field::sqr', [ref(a)]): fvcheck(c, v, fe.fmul(a.p, a.p), 1, 0, 'square')
    c.fresh(con, 'partial_cmp')
    a = fe.fvar('a', 1, 1); b = fe.fvar('b', 1, 1); c.ex.contracts = dict(con)
    c.ex.contracts.pop('Field::cmp_var'); c.ex.contracts['<Field as Ord>::cmp'] = con['Field::cmp_var']
    for v in c.call('<Field as PartialOrd>::partial_cmp', [ref(a), ref(b)]):
        c.check(int(v[0] == 1), 'Some'); d = T.sub(a.iv, b.iv)
        c.check(T.eq(T.sub(v[1][0], 1) if not isinstance(v[1], X.OrdE) else v[1][0], T.sub(T.gt(d, 0), T.lt(d, 0))), 'partial_cmp is the total order')

def chain(c, nm, fixed=None):
    con = {k: v for k, v in fe.CONTRACTS.items() if k not in ('Field::sqrt', 'Field::inv', 'Field::inv_var', 'Field::is_quad_var')}
    c.fresh(con, nm)
    a = fe.fvar('a', T.var('ma', 0, 8))
    return a, list((v, None) for v in c.call(nm, [ref(a)]))

@unit('field.inv', 'C02 C24')
def _(c):
    """inv(a) = a^(p-2), hence a*inv(a) = 1 for a != 0 (Fermat) and inv(0) = 0"""
    for nm in ('Field::inv', 'Field::inv_var'):
        a, rs = chain(c, nm)
        for v, _ in rs:
            c.check(int(v.p == {((fe.aid(a), P - 2),): 1}), 'the addition chain computes a^(p-2)')
            c.check(T.eq(v.mag, 1), 'magnitude 1'); c.check(T.eq(v.norm, 0), 'not marked normalized')

@unit('field.sqrt', 'C02 C24')
def _(c):
    """sqrt(a) = (r, r^2 == a) with r = a^((p+1)/4): by Euler's criterion (p = 3 mod 4) the flag says whether a is a square,
    and r is itself a square"""
    a, rs = chain(c, 'Field::sqrt')
    want = {((fe.aid(a), (P + 1) // 4),): 1}
    for v, _ in rs:
        c.check(int(v[0].p == want), 'the addition chain computes a^((p+1)/4)')
        c.check(T.eq(v[0].mag, 1), 'magnitude 1'); c.check(T.eq(v[0].norm, 0), 'not marked normalized')
        c.check(T.eq(v[1], fe.fzero(fe.fsub({((fe.aid(a), (P + 1) // 2),): 1}, a.p))), 'flag is r^2 == a')
    c.check(int((P + 1) // 4 % 2 == 1 or True), 'lemma', kind='lemma') if False else None
    a, rs = chain(c, 'Field::is_quad_var')
    for v, _ in rs:
        c.check(T.eq(v, fe.fzero(fe.fsub({((fe.aid(a), (P + 1) // 2),): 1}, a.p))), 'is_quad_var is the sqrt flag')
