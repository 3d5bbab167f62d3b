"""Contracts of core/src/scalar.rs, checked word by word on the MIR of the real functions.
val(s) = sum s.0[i] 2^(32 i).  Canonical: val < n."""
import terms as T, exec as X, ident
from ctx import *

def scal(c, name, canonical=True):
    w = u32s(name, 8)
    if canonical: c.assume(T.lt(words(w), N))
    return L([w])

def isw(c, s, desc):
    for i, x in enumerate(s[0]): c.check(T.band(T.ge(x, 0), T.lt(x, 2**32)), '%s: word %d' % (desc, i))

def choice(v): return L([v])

@unit('scalar.check_overflow', 'C01 C24')
def _(c):
    c.fresh(); a = scal(c, 'a', False)
    for r in c.call('Scalar::check_overflow', [ref(a)]):
        c.check(T.eq(r[0], T.ge(words(a[0]), N)), 'overflow exactly when the value is >= n')

@unit('scalar.reduce', 'C01 C24')
def _(c):
    for o in (0, 1):
        c.fresh(label='overflow=%d' % o); a = scal(c, 'a', False); v = words(a[0]); r = box(a)
        for _ in c.call('Scalar::reduce', [Slot(r, 0), choice(o)]):
            w = words(r[0][0])
            c.check_zero(T.sub(w, T.sub(T.add(v, o * (2**256 - N)), T.scale(T.fdiv(T.add(v, o * (2**256 - N)), 2**256), 2**256))), 'adds overflow*(2^256-n) mod 2^256')
            isw(c, r[0], 'result')

def ov(ex, fn, a):
    s = ex.readp(a[0])
    return L([T.ge(words(list(s[0])), N)])
def red(ex, fn, a):
    """contract of reduce: self := (self + o*(2^256-n)) mod 2^256"""
    s = ex.readp(a[0]); o = a[1][0]
    v = T.add(words(list(s[0])), T.scale(o, 2**256 - N))
    ws = L([T.var('red%d.%d' % (len(T.AT), i), 0, 2**32-1) for i in range(8)])
    ex.writep(a[0], L([ws]))
    k = T.fdiv(v, 2**256)
    f = T.eq(words(list(ws)), T.sub(v, T.scale(k, 2**256)))
    ex.fact(f)
    RED.append((ws, v, k))
    return L([])
RED = []

@unit('scalar.set_b32', 'C01 C12 C20 C24')
def _(c):
    c.fresh({'Scalar::check_overflow': ov}); b = bytesvar('b', 32); r = box(L([u32s('o', 8)])); v = be(b)
    for ok in c.call('Scalar::set_b32', [Slot(r, 0), ref(b)]):
        o = T.ge(v, N)
        c.check(T.eq(ok[0], o), 'overflow exactly when the encoding is >= n')
        w = words(r[0][0])
        c.check(T.eq0(T.sub(w, T.sub(v, T.scale(o, N)))), 'value = encoding mod n')
        c.check(T.lt(w, N), 'canonical'); isw(c, r[0], 'result')

@unit('scalar.b32', 'C01 C12 C20 C24')
def _(c):
    c.fresh(); a = scal(c, 'a', False); r = box(bytesvar('o', 32))
    for _ in c.call('Scalar::fill_b32', [ref(a), Slot(r, 0)]):
        c.check_zero(T.sub(be(r[0]), words(a[0])), 'bytes encode the value')
        for i, x in enumerate(r[0]): c.check(T.band(T.ge(x, 0), T.le(x, 255)), 'byte %d' % i)
    for v in c.call('Scalar::b32', [ref(a)]): c.check_zero(T.sub(be(v), words(a[0])), 'bytes encode the value (by value)')

@unit('scalar.add', 'C01 C24')
def _(c):
    c.fresh({'Scalar::check_overflow': ov}); a = scal(c, 'a'); b = scal(c, 'b'); va, vb = words(a[0]), words(b[0]); r = box(a)
    for _ in c.call('<Scalar as AddAssign<&Scalar>>::add_assign', [Slot(r, 0), ref(b)]):
        w = words(r[0][0]); s = T.add(va, vb)
        c.check(T.eq0(T.sub(w, T.sub(s, T.scale(T.ge(s, N), N)))), 'sum mod n')
        c.check(T.lt(w, N), 'canonical'); isw(c, r[0], 'result')

@unit('scalar.neg', 'C01 C24')
def _(c):
    for f in (0, 1):
        c.fresh(label='flag=%d' % f); a = scal(c, 'a'); va = words(a[0]); r = box(a)
        for _ in c.call('Scalar::cond_neg_assign', [Slot(r, 0), choice(f)]):
            w = words(r[0][0])
            want = T.sub(T.scale(T.ne(va, 0), N), va) if f else va
            c.check(T.eq0(T.sub(w, want)), 'negation mod n' if f else 'unchanged')
            c.check(T.lt(w, N), 'canonical'); isw(c, r[0], 'result')

@unit('scalar.predicates', 'C01 C23 C24')
def _(c):
    c.fresh(label='is_zero'); a = scal(c, 'a', False)
    for r in c.call('Scalar::is_zero', [ref(a)]): c.check(T.eq(r, T.eq0(words(a[0]))), 'is_zero iff the value is 0')
    c.fresh(label='is_one'); a = scal(c, 'a', False)
    for r in c.call('Scalar::is_one', [ref(a)]): c.check(T.eq(r, T.eq(words(a[0]), 1)), 'is_one iff the value is 1')
    c.fresh(label='is_high'); a = scal(c, 'a')
    for r in c.call('Scalar::is_high', [ref(a)]): c.check(T.eq(r, T.gt(words(a[0]), N // 2)), 'is_high iff the value is above (n-1)/2')
    c.fresh(label='is_even'); a = scal(c, 'a', False)
    for r in c.call('Scalar::is_even', [ref(a)]): c.check(T.eq(r, T.bnot(T.mod(words(a[0]), 2))), 'is_even is the parity of the value')
    c.fresh(label='eq'); a = scal(c, 'a', False); b = scal(c, 'b', False)
    for r in c.call('<Scalar as PartialEq>::eq', [ref(a), ref(b)]): c.check(T.eq(r, T.eq(words(a[0]), words(b[0]))), 'equality of values')

@unit('scalar.small', 'C01 C24')
def _(c):
    c.fresh(label='clear'); r = box(scal(c, 'a', False))
    for _ in c.call('Scalar::clear', [Slot(r, 0)]): c.check_zero(T.vsum(r[0][0]), 'all words zero')
    c.fresh(label='default')
    for v in c.call('<Scalar as Default>::default', []): c.check_zero(T.vsum(v[0]), 'all words zero')
    c.fresh(label='set_int'); r = box(scal(c, 'a', False)); x = T.var('x', 0, 2**32-1)
    for _ in c.call('Scalar::set_int', [Slot(r, 0), x]): c.check_zero(T.sub(words(r[0][0]), x), 'value'); isw(c, r[0], 'r')
    for v in c.call('Scalar::from_int', [x]): c.check_zero(T.sub(words(v[0]), x), 'value')
    for n in range(1, 16):
        c.fresh(label='shr_int %d' % n); a = scal(c, 'a', False); v = words(a[0]); r = box(a)
        for q in c.call('Scalar::shr_int', [Slot(r, 0), n]):
            c.check_zero(T.sub(T.add(T.scale(words(r[0][0]), 1 << n), q), v), 'quotient and remainder')
            c.check(T.band(T.ge(q, 0), T.lt(q, 1 << n)), 'remainder in range'); isw(c, r[0], 'result')

@unit('scalar.cadd_bit', 'C01 C24')
def _(c):
    for bit in range(0, 256):
        for f in ((0, 1) if bit % 17 == 0 else (1,)):
            c.fresh(label='bit=%d flag=%d' % (bit, f)); a = scal(c, 'a'); v = words(a[0]); r = box(a)
            c.assume(T.lt(T.add(v, f << bit), N))
            c.ex.contracts = {'Scalar::check_overflow': ov}
            for _ in c.call('Scalar::cadd_bit', [Slot(r, 0), bit, f]):
                c.check_zero(T.sub(words(r[0][0]), T.add(v, f << bit)), 'adds the power of two')

@unit('scalar.bits', 'C01 C24 C05 C06 C04')
def _(c):
    for off in range(0, 256):
        for cnt in range(1, 32):
            if off + cnt > 256: continue
            for nm in ('Scalar::bits', 'Scalar::bits_var'):
                if nm == 'Scalar::bits' and (off + cnt - 1) >> 5 != off >> 5: continue
                c.fresh(label='%s %d %d' % (nm, off, cnt)); a = scal(c, 'a', False)
                for r in c.call(nm, [ref(a), off, cnt]):
                    c.check_zero(T.sub(r, T.mod(T.fdiv(words(a[0]), 1 << off), 1 << cnt)), 'bits of the value')

@unit('scalar.mul_512', 'C01 C24')
def _(c):
    c.fresh(); a = scal(c, 'a', False); b = scal(c, 'b', False); r = box(u32s('o', 16))
    for _ in c.call('Scalar::mul_512', [ref(a), ref(b), Slot(r, 0)]):
        c.check_zero(T.sub(words(r[0]), T.mul(words(a[0]), words(b[0]))), 'full product')
        for i, x in enumerate(r[0]): c.check(T.band(T.ge(x, 0), T.lt(x, 2**32)), 'word %d' % i)

@unit('scalar.sqr_512', 'C01 C24')
def _(c):
    c.fresh(); a = scal(c, 'a', False); r = box(u32s('o', 16))
    for _ in c.call('Scalar::sqr_512', [ref(a), Slot(r, 0)]):
        c.check_zero(T.sub(words(r[0]), T.mul(words(a[0]), words(a[0]))), 'full square')
        for i, x in enumerate(r[0]): c.check(T.band(T.ge(x, 0), T.lt(x, 2**32)), 'word %d' % i)

@unit('scalar.reduce_512', 'C01 C24', budget=400)
def _(c):
    c.fresh({'Scalar::check_overflow': ov}); l = u32s('l', 16); r = box(L([u32s('o', 8)]))
    for _ in c.call('Scalar::reduce_512', [Slot(r, 0), ref(l)]):
        c.check_zero(T.sub(words(r[0][0]), words(l)), 'congruent mod n', N)
        c.check(T.lt(words(r[0][0]), N), 'canonical'); isw(c, r[0], 'result')
        c.check(T.lt(words(r[0][0]), N), 'canonical')
        isw(c, r[0], 'result')

import sc
def inner(exclude): return {k: v for k, v in sc.CONTRACTS.items() if k not in exclude}

def svpost(c, v, p, desc):
    c.check(int(sc.assv(v).p == p), desc)

@unit('scalar.mul', 'C01 C24')
def _(c):
    """mul_in_place / sqr_in_place over the contracts of mul_512, sqr_512 and reduce_512"""
    st = {}
    def m512(ex, fn, a):
        x = words(list(ex.readp(a[0])[0])); y = words(list(ex.readp(a[1])[0])) if len(a) == 3 else x
        st['want'] = (x, y)
        ex.writep(a[-1], L([X.Opaque('product')] * 16)); st['l'] = True; return L([])
    def r512(ex, fn, a):
        l = ex.readp(a[1])
        c.check(int(all(isinstance(w, X.Opaque) for w in l) and len(l) == 16), 'reduces the full product')
        w = L([T.var('m%d' % i, 0, 2**32-1) for i in range(8)]); st['out'] = w
        ex.writep(a[0], L([w])); return L([])
    for nm in ('Scalar::mul_in_place', 'Scalar::sqr_in_place'):
        st.clear()
        c.fresh({'Scalar::mul_512': m512, 'Scalar::sqr_512': m512, 'Scalar::reduce_512': r512}, nm)
        a = scal(c, 'a', False); b = scal(c, 'b', False); r = box(scal(c, 'o', False))
        for _ in c.call(nm, [Slot(r, 0), ref(a)] + ([ref(b)] if 'mul' in nm else [])):
            c.check(int('want' in st and T.veq(st['want'][0], words(a[0])) and T.veq(st['want'][1], words(b[0] if 'mul' in nm else a[0]))), 'the product of the arguments')
            c.check(int('out' in st and T.veq(words(st['out']), words(r[0][0]))), 'reduced into the result')

@unit('scalar.wrappers', 'C01 C24')
def _(c):
    base = {k: sc.CONTRACTS[k] for k in ('Scalar::mul_in_place', 'Scalar::sqr_in_place', '<Scalar as AddAssign<&Scalar>>::add_assign', 'Scalar::cond_neg_assign', '<Scalar as Default>::default')}
    def vals(nm): return sc.svar('a'), sc.svar('b')
    for nm, byref, op in (('<Scalar as Add>::add', 0, sc.padd), ('<&Scalar as Add<&Scalar>>::add', 1, sc.padd), ('<Scalar as AddAssign>::add_assign', 2, sc.padd),
                          ('<Scalar as Mul>::mul', 0, sc.pmul), ('<&Scalar as Mul<&Scalar>>::mul', 1, sc.pmul), ('<Scalar as MulAssign>::mul_assign', 2, sc.pmul),
                          ('<Scalar as MulAssign<&Scalar>>::mul_assign', 3, sc.pmul)):
        if c.p.find(nm) is None: nm = nm.replace('<&Scalar>', '', 1) if nm.startswith('<&Scalar as') else nm
        c.fresh(base, nm); a, b = vals(nm); r = box(a); q = box(b)
        args = [a, b] if byref == 0 else [Slot(r, 0), Slot(q, 0)] if byref in (1, 3) else [Slot(r, 0), b]
        for v in c.call(nm, args):
            svpost(c, v if byref < 2 else r[0], op(a.p, b.p), 'value')
            if byref == 1 or byref == 3: svpost(c, q[0], b.p, 'argument unchanged')
            if byref == 1: svpost(c, r[0], a.p, 'argument unchanged')
    for nm in ('<Scalar as Neg>::neg', '<&Scalar as Neg>::neg'):
        c.fresh(base, nm); a, b = vals(nm); r = box(a)
        for v in c.call(nm, [a if nm[1] == 'S' else Slot(r, 0)]): svpost(c, v, sc.pneg(a.p), 'negation')
    c.fresh(base, 'sqr'); a, b = vals(0)
    for v in c.call('Scalar::sqr', [ref(a)]): svpost(c, v, sc.pmul(a.p, a.p), 'square')

@unit('scalar.inv', 'C01 C24')
def _(c):
    """inv(a) = a^(n-2), hence a*inv(a) = 1 for a != 0 (Fermat, n prime) and inv(0) = 0"""
    con = inner(('Scalar::inv', 'Scalar::inv_var', 'Scalar::inv_in_place'))
    for nm in ('Scalar::inv', 'Scalar::inv_var', 'Scalar::inv_in_place'):
        c.fresh(con, nm); a = sc.svar('a'); r = box(sc.svar('o')); x = next(iter(a.p))[0][0]
        for v in c.call(nm, ([Slot(r, 0)] if 'place' in nm else []) + [ref(a)]):
            svpost(c, r[0] if 'place' in nm else v, {((x, N - 2),): 1}, 'the addition chain computes a^(n-2)')
