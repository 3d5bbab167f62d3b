"""Contracts of core/src/ecmult.rs: wNAF recodings, tables of odd multiples, and the three scalar multiplications."""
import terms as T, exec as X, fe, sc, pts, solver, oracle
from ctx import *
from exec import Alt, E, L, Slot, View, ParamArr, UN, NONE
from terms import V
from fe import FV
from sc import SV, svar, padd, psub, pmul, pneg, pscale, pzero, satom, ivof
from pts import mkaff, mkjac, recognise, StoredPt, DigitArr, coords

CON = {**fe.CONTRACTS, **sc.CONTRACTS, **pts.CONTRACTS}

def fresh(c, con, label):
    ex = c.fresh(con, label); ex.nomerge = True; pts.EX[0] = ex
    return ex

# ---------------------------------------------------------------- ecmult_wnaf
class Cells:
    """what the loop of ecmult_wnaf may know about its output at bit position b: nothing below b, zero from b on"""

def wnaf_roles(ex, fr, bb):
    """the possible roles of the locals the main loop changes: (position, carry, last index written, off) where the
    local `last` holds (index + off), off = 0 with -1 for none, or off = 1 with 0 for none"""
    live = fr.fn.live[bb] | fr.fn.borrowed
    ch = {i for d, pc in ex.collect(fr, bb) for l, i, old, new in d.values() if l is fr.loc and old is not new}
    c = {}
    for i in sorted(live & ch):
        v, t = fr.loc[i], ex.ty(fr.fn.locals[i])
        if type(v) is int and t['k'] in ('int', 'bool'): c[i] = (v, t)
    pos = [i for i, (v, t) in c.items() if v == 0 and t['k'] == 'int' and t['bits'] == 64]
    carry = [i for i, (v, t) in c.items() if v == 0]
    last = [(i, 0 if v == -1 else 1) for i, (v, t) in c.items() if t['k'] == 'int' and (v == -1 or v == 0)]
    return [(p, q, l, o) for p in pos for q in carry for l, o in last if len({p, q, l}) == 3]

def wnaf_unit(c, w, n=256):
    bound = (1 << (w - 1)) - 1
    for high in (0, 1):
        ex = fresh(c, CON, 'w=%d %s' % (w, 'a >= 2^255' if high else 'a < 2^255'))
        a = svar('a'); c.assume(T.ge(ivof(a), 1 << 255) if high else T.lt(ivof(a), 1 << 255))
        arr = L([T.var('junk%d' % i, -2**31, 2**31-1) for i in range(n)]); arr.born = 0
        seen = []
        def spec(ex, fr, bb, stop):
            """the main loop; the others are executed as they are"""
            if bb in fr.unroll: return None
            if seen or not all(isinstance(x, int) and x == 0 for x in arr):
                fr.unroll.add(bb); return None
            live = fr.fn.live[bb] | fr.fn.borrowed
            svs = [i for i in live if isinstance(fr.loc[i], SV)]
            return body(ex, fr, bb, stop, svs)
        def body(ex, fr, bb, stop, svs):
            seen.append(bb)
            hyp = wnaf_roles(ex, fr, bb)
            if not hyp: raise T.Unsupported('roles of the wNAF loop')
            # which scalar does the loop recode, and with which sign
            sl = [i for i in svs if isinstance(fr.loc[i], SV)]
            if len(sl) != 1: raise T.Unsupported('scalar of the wNAF loop')
            sv = fr.loc[sl[0]]
            if sv.p == a.p: sign = 1
            elif sv.p == pneg(a.p): sign = -1
            else: raise T.Unsupported('the loop recodes another scalar')
            ex.oblige(T.lt(ivof(sv), 1 << 255), 'invariant', 'entry: the recoded scalar is below 2^255')
            def step(b, cy, bi, ci, li, off):
                npc = T.push_scope(); ex.mark(); lr = None
                try:
                    # generic state at position b
                    width = min(w, n - b) + 1
                    parts, pos, val = [], b, []
                    lo = T.var('lo', 0, (1 << b) - 1) if b else 0
                    bit = T.var('bit', 0, 1) if b < 255 else 0
                    now = min(w, n - b)
                    midn = min(now - 1, 254 - b)
                    mid = T.var('mid', 0, (1 << midn) - 1) if midn > 0 else 0
                    top = b + 1 + max(midn, 0)
                    hi = T.var('hi', 0, (1 << (255 - top)) - 1) if top < 255 else 0
                    s = T.add(T.add(lo, T.scale(bit, 1 << b)), T.add(T.scale(mid, 1 << (b + 1)), T.scale(hi, 1 << top)))
                    last = T.var('last', -1, b - 1) if b else -1
                    ex.wr(fr.loc, sl[0], SV(sc.embed(s), s))
                    ex.wr(fr.loc, bi, b); ex.wr(fr.loc, ci, cy); ex.wr(fr.loc, li, T.add(last, off))
                    for j in range(b): ex.wr(arr, j, UN)
                    def onback(ex_, fr_, b=b, s=s, last=last, cy=cy):
                        if fr_ is not fr: return
                        b2 = fr.loc[bi]; c2 = fr.loc[ci]; l2 = T.sub(fr.loc[li], off)
                        b2 = T.subst_pc(b2) if isinstance(b2, V) else b2
                        if not isinstance(b2, int): raise T.Unsupported('position not concrete')
                        ex.oblige(int(b < b2 <= n), 'termination', 'position %d: the position grows and stays within the array' % b)
                        k = b2 - b
                        if k <= 0: return
                        D = 0
                        for j in range(n):
                            v = arr[j]
                            if j < b: ex.oblige(int(v is UN), 'invariant', 'position %d: digits already produced are left alone' % b) if v is not UN else None
                            elif j >= b2: 
                                if not (isinstance(v, int) and v == 0): ex.oblige(T.eq(v, 0), 'invariant', 'position %d: no digit beyond the new position' % b)
                            else:
                                D = T.add(D, T.scale(v, sign << (j - b)))
                                if isinstance(v, int) and v == 0: continue
                                ex.oblige(T.bor(T.eq(v, 0), T.eq(T.mod(v, 2), 1)), 'invariant', 'position %d: the digit is zero or odd' % b)
                                ex.oblige(T.band(T.le(v, bound), T.ge(v, -bound)), 'invariant', 'position %d: the digit is at most 2^(w-1)-1' % b)
                                ex.oblige(T.bor(T.eq(v, 0), T.ge(l2, j)), 'invariant', 'position %d: the last index covers the digit' % b)
                        ex.oblige(T.band(T.ge(l2, last), T.lt(l2, b2)), 'invariant', 'position %d: last index' % b)
                        ex.oblige(T.band(T.ge(c2, 0), T.le(c2, 1)), 'invariant', 'position %d: carry' % b)
                        if b2 == n: ex.oblige(T.eq(c2, 0), 'invariant', 'position %d: no carry out of the top' % b)
                        want = T.add(T.mod(T.fdiv(s, 1 << b), 1 << k), cy)
                        ex.oblige(T.eq(T.add(D, T.scale(c2, 1 << k)), want), 'invariant', 'position %d: digits and carry stand for the bits passed over' % b)
                        sn = fr.loc[sl[0]]
                        ex.oblige(int(sn.iv is s or T.veq(ivof(sn), s)), 'invariant', 'position %d: the scalar is unchanged' % b)
                    r = once(ex, fr, bb, onback)
                    if r: ex.oblige(0, 'invariant', 'position %d: the loop does not stop early' % b)
                finally: ex.undo(); T.pop_scope(npc)
            def tried(h):
                """number of failures of one iteration under the assignment of roles h"""
                k = len(ex.obligs)
                try:
                    for b, cy in ((3, 1), (20, 0)): step(b, cy, *h)
                    return sum(o.status != 'proved' for o in ex.obligs[k:])
                except T.Unsupported: return 10**6
                finally: del ex.obligs[k:]
            bi, ci, li, off = hyp[0] if len(hyp) == 1 else min(hyp, key=tried)
            for b in range(n):
                for cy in (0, 1): step(b, cy, bi, ci, li, off)
            # after the loop
            last = T.var('lastend', -1, n - 1)
            ex.wr(fr.loc, bi, n); ex.wr(fr.loc, ci, 0); ex.wr(fr.loc, li, T.add(last, off))
            for j in range(n): ex.wr(arr, j, UN)
            body.last = last
            fr.unroll.add(bb)
            return ex.from_header(fr, bb, stop, lambda *a: ex.oblige(0, 'invariant', 'the loop stops at the end of the array'))
        def once(ex, fr, bb, onback):
            """one iteration; true when some path leaves the loop"""
            left = []
            lr = X.LoopRun(fr, bb, 'fresh'); lr.backs = ['once']; lr.onback = onback
            lr.onexit = lambda ex_, fr_: left.append(1); lr.exits = set()
            ex.lruns.append(lr)
            try: ex.run(fr, bb, None, fresh=True)
            finally: ex.lruns.remove(lr)
            return left
        for i in range(8): ex.loopspecs[('ecmult_wnaf', i)] = spec
        for v in c.call('ecmult_wnaf', [View(arr, 0, n), ref(a), w]):
            c.check(int(len(seen) == 1), 'the recoding loop was found', 'vacuity')
            if seen:
                c.check(T.eq(v, T.add(body.last, 1)), 'the result is one more than the last index')
                c.check(int(all(x is UN for x in arr)), 'no digit is changed after the loop')

@unit('mult.wnaf5', 'C05 C08 C11 C17 C24', budget=400)
def _(c): wnaf_unit(c, 5)
@unit('mult.wnaf16', 'C05 C08 C11 C17 C24', budget=400)
def _(c): wnaf_unit(c, 16)

# ---------------------------------------------------------------- ecmult_wnaf_const
def once(ex, fr, bb, onback):
    """one iteration of the loop from the current state; true when some path leaves the loop"""
    left = []
    lr = X.LoopRun(fr, bb, 'fresh'); lr.backs = ['once']; lr.onback = onback
    lr.onexit = lambda ex_, fr_: left.append(1); lr.exits = set()
    ex.lruns.append(lr)
    try: ex.run(fr, bb, None, fresh=True)
    finally: ex.lruns.remove(lr)
    return left

def induction(backs):
    """the cells that grow by the same non-zero constant on every iteration: {key: (list, index, value, step)}"""
    r = None
    for d, pc in backs:
        e = {(id(l), i): (l, i, old, new - old) for l, i, old, new in d.values() if type(old) is int and type(new) is int and new != old}
        r = e if r is None else {k: v for k, v in r.items() if k in e and e[k][3] == v[3]}
    return r or {}

CWORDS = 64
@unit('mult.wnaf_const', 'C06 C19 C24', budget=300)
def _(c):
    w = 4; n = CWORDS + 1
    h = (N - 1) // 2
    for label, lo, hi, e in (('low even', 0, h, 0), ('low odd', 0, h, 1), ('high even', h + 1, N - 2, 0), ('high odd', h + 1, N - 2, 1), ('n-1', N - 1, N - 1, 0)):
        ex = fresh(c, CON, label)
        if lo == hi: a = SV(sc.const(lo), lo)
        else:
            l = (lo + 1 - e) // 2; u = (hi - e) // 2
            q = T.var('h', l, u); iv = T.add(T.scale(q, 2), e); a = SV(sc.embed(iv), T.mk(iv.p, 2*l + e, 2*u + e))
        arr = L([T.var('junk%d' % i, -2**31, 2**31-1) for i in range(n)]); arr.born = 0
        seen = []; st = {}
        def spec(ex, fr, bb, stop):
            if bb in fr.unroll: return None
            if seen: return None
            live = fr.fn.live[bb] | fr.fn.borrowed
            backs = ex.collect(fr, bb)
            ind = induction(backs)
            ch = {i for d, pc in backs for l, i, old, new in d.values() if l is fr.loc and old is not new and (id(l), i) not in ind}
            def tyof(i): return ex.ty(fr.fn.locals[i])
            i32 = [i for i in ch if tyof(i)['k'] == 'int' and tyof(i)['bits'] >= 32]
            svs = [i for i in ch if isinstance(fr.loc[i], SV)]
            us = [i for i in i32 if isinstance(fr.loc[i], int) and fr.loc[i] == 0]
            ul = [i for i in i32 if i not in us]
            if not ul: ul, us = us, []
            if not ind or len(svs) != 1 or len(ul) != 1 or len(us) > 1:
                fr.unroll.add(bb); return None
            seen.append(bb)
            si, li = svs[0], ul[0]; ui = us[0] if us else None
            def at(j):
                for l, i, v, d in ind.values(): ex.wr(l, i, v + d*j)
            s0 = ivof(fr.loc[si]); u0 = fr.loc[li]
            st['S'] = T.add(T.scale(s0, 16), u0)
            ex.oblige(T.band(T.ge(u0, 1), T.band(T.le(u0, 15), T.eq(T.mod(u0, 2), 1))), 'invariant', 'entry: the lowest digit is odd')
            ex.oblige(T.lt(s0, 16**63), 'invariant', 'entry: the rest is below 2^252')
            for j in range(CWORDS):
                npc = T.push_scope(); ex.mark()
                try:
                    U = T.add(T.scale(T.var('u', 0, 7), 2), 1)
                    if j < 63:
                        nib = T.var('nib', 0, 15); rest = T.var('rest', 0, 16**(62 - j) - 1) if j < 62 else 0
                        s = T.add(nib, T.scale(rest, 16))
                    else: nib = rest = s = 0
                    at(j); ex.wr(fr.loc, li, U); ex.wr(fr.loc, si, SV(sc.embed(s), s))
                    if ui is not None: ex.wr(fr.loc, ui, U if j else 0)
                    for k in range(j): ex.wr(arr, k, UN)
                    old = [arr[k] for k in range(n)]
                    def onback(ex_, fr_, j=j, U=U, nib=nib, rest=rest, old=old):
                        if fr_ is not fr: return
                        u2 = fr.loc[li]
                        ex.oblige(int(all(isinstance(l[i], int) and l[i] == v + d*(j + 1) for l, i, v, d in ind.values())), 'invariant', 'word %d: next word' % j)
                        ex.oblige(T.band(T.ge(u2, 1), T.band(T.le(u2, 15), T.eq(T.mod(u2, 2), 1))), 'invariant', 'word %d: the pending digit is odd and positive' % j)
                        if ui is not None: ex.oblige(T.eq(fr.loc[ui], u2), 'invariant', 'word %d: both copies of the pending digit agree' % j)
                        ex.oblige(T.eq(ivof(fr.loc[si]), rest), 'invariant', 'word %d: the rest is shifted' % j)
                        d = arr[j]
                        want = T.sub(T.add(U, T.scale(nib, 16)), T.scale(u2, 16))
                        if 'sign' not in st:
                            st['sign'] = -1 if solver.prove(T.eq(d, T.neg(want)))[0] == 'proved' else 1
                        ex.oblige(T.eq(d, T.scale(want, st['sign'])), 'invariant', 'word %d: digit and carry stand for the bits passed over' % j)
                        ex.oblige(T.band(T.eq(T.mod(d, 2), 1), T.band(T.le(d, 15), T.ge(d, -15))), 'invariant', 'word %d: the digit is odd and at most 15' % j)
                        ex.oblige(int(all(arr[k] is old[k] for k in range(n) if k != j)), 'invariant', 'word %d: other digits are left alone' % j)
                    if once(ex, fr, bb, onback): ex.oblige(0, 'invariant', 'word %d: the loop does not stop early' % j)
                finally: ex.undo(); T.pop_scope(npc)
            U = T.add(T.scale(T.var('uend', 0, 7), 2), 1); st['end'] = U
            at(CWORDS); ex.wr(fr.loc, li, U); ex.wr(fr.loc, si, SV({}, 0))
            if ui is not None: ex.wr(fr.loc, ui, U)
            for k in range(n): ex.wr(arr, k, UN)
            fr.unroll.add(bb)
            return ex.from_header(fr, bb, stop, lambda *a: ex.oblige(0, 'invariant', 'the loop stops after the last word'))
        if lo == hi:        # a single scalar: plain execution
            for v in c.call('ecmult_wnaf_const', [View(arr, 0, n), ref(a), w]):
                c.check(int(all(isinstance(d, int) and d % 2 == 1 and abs(d) <= 15 for d in arr)), 'the digits are odd and at most 15')
                c.check(int(v in (1, 2) and (sum(d << (4*i) for i, d in enumerate(arr)) - lo - v) % N == 0), 'the digits stand for the scalar plus the skew, mod n')
            continue
        for i in range(4): ex.loopspecs[('ecmult_wnaf_const', i)] = spec
        for v in c.call('ecmult_wnaf_const', [View(arr, 0, n), ref(a), w]):
            c.check(int(len(seen) == 1), 'the recoding loop was found', 'vacuity')
            if not seen: continue
            c.check(T.bor(T.eq(v, 1), T.eq(v, 2)), 'the skew is 1 or 2')
            S = sc.embed(st['S'])
            c.check(pzero(psub(pscale(S, st['sign']), padd(a.p, sc.embed(v)))), 'the digits stand for the scalar plus the skew, mod n')
            c.check(T.eq(arr[CWORDS], T.scale(st['end'], st['sign'])), 'the last digit is the pending one')
            c.check(int(all(arr[k] is UN for k in range(CWORDS))), 'no digit is changed after the loop')

# ---------------------------------------------------------------- tables of odd multiples
def odd(n, w): return T.band(T.eq(T.mod(n, 2), 1), T.band(T.le(n, (1 << (w-1)) - 1), T.ge(n, -((1 << (w-1)) - 1))))
def junkaff(): return L([pts.junkF(), pts.junkF(), T.boolvar('ji')])

def affine_table(beta, v, mags=(8, 8)):
    return ParamArr(8, lambda i: mkaff(pmul(beta, padd(pscale(sc.embed(i), 2), sc.const(1))), v, mags, inf=0))

@unit('mult.table_get', 'C05 C08 C11 C17 C24')
def _(c):
    for neg in (0, 1):
        ex = fresh(c, CON, 'table_get_ge %s' % ('n < 0' if neg else 'n > 0'))
        b = svar('b', nz=True); v = fe.fvar('v', 8, nz=True)
        n = T.add(T.scale(T.var('h', -8 if neg else 0, -1 if neg else 7), 2), 1)
        sc.nonzero(sc.embed(n)); r = box(junkaff()); vm = next(iter(v.p))
        for _ in c.call('table_get_ge', [Slot(r, 0), View(affine_table(b.p, vm), 0, 8), n, 5]):
            A = recognise(ex, r[0], 'result', False)
            c.check(pzero(psub(A.d, pmul(b.p, sc.embed(n)))), 'the result is n times the base'); c.check(int(A.v == vm), 'on the curve of the table')
            c.check(T.eq(A.inf, 0), 'finite'); c.check(T.band(T.le(A.mags[0], 8), T.le(A.mags[1], 8)), 'magnitudes at most those of the table, or 2')
        ex = fresh(c, CON, 'table_get_ge_storage %s' % ('n < 0' if neg else 'n > 0')); w = 16
        b = svar('b', nz=True)
        n = T.add(T.scale(T.var('h', -(1 << 14) if neg else 0, -1 if neg else (1 << 14) - 1), 2), 1); sc.nonzero(sc.embed(n)); r = box(junkaff())
        arr = ParamArr(1 << 14, lambda i: StoredPt(pmul(b.p, padd(pscale(sc.embed(i), 2), sc.const(1)))))
        for _ in c.call('table_get_ge_storage', [Slot(r, 0), View(arr, 0, 1 << 14), n, w]):
            A = recognise(ex, r[0], 'result', False)
            c.check(pzero(psub(A.d, pmul(b.p, sc.embed(n)))), 'the result is n times the base'); c.check(int(A.v == ()), 'affine')
            c.check(T.eq(A.inf, 0), 'finite'); c.check(T.band(T.le(A.mags[0], 1), T.le(A.mags[1], 2)), 'magnitudes at most 1 and 2')

@unit('mult.table_get_const', 'C06 C19 C24')
def _(c):
    for n in range(-15, 16, 2):
        ex = fresh(c, CON, 'n=%d' % n); b = svar('b', nz=True); v = fe.fvar('v', 8, nz=True); vm = next(iter(v.p))
        tab = L([mkaff(pscale(b.p, 2*m + 1), vm, (8, 1), inf=0) for m in range(8)]); r = box(junkaff())
        for _ in c.call('table_get_ge_const', [Slot(r, 0), View(tab, 0, 8), n, 5]):
            A = recognise(ex, r[0], 'result', False)
            c.check(pzero(psub(A.d, pscale(b.p, n))), 'the result is n times the base'); c.check(int(A.v == vm), 'on the curve of the table')
            c.check(T.eq(A.inf, 0), 'finite'); c.check(T.band(T.le(A.mags[0], 8), T.le(A.mags[1], 2)), 'magnitudes at most that of the table, and 2')

# contracts at call sites
def table_base(ex, pre, what, ymag):
    """(logarithm of the first entry, isomorphism) of a table of odd multiples"""
    if not isinstance(pre, View): raise T.Unsupported(what)
    k = (id(pre.l), pre.start, pre.n)
    A0 = None; mags = (1, 2)
    for m in range(pre.n):
        A = recognise(ex, pre.l[pre.start + m], '%s: entry %d' % (what, m), False)
        if A0 is None: A0 = A
        if A.v != A0.v: raise T.Unsupported('%s: entries on different curves' % what)
        ex.oblige(pzero(psub(A.d, pscale(A0.d, 2*m + 1))), 'pre', '%s: entry %d is %d times the base' % (what, m, 2*m + 1))
        ex.oblige(T.bnot(A.inf), 'pre', '%s: entry %d is finite' % (what, m))
        ex.oblige(T.band(T.le(A.mags[0], 8), T.le(A.mags[1], ymag)), 'pre', '%s: magnitudes of entry %d' % (what, m))
        mags = (pts.maxmag(mags[0], A.mags[0]), pts.maxmag(mags[1], A.mags[1]))
    return A0.d, A0.v, mags
def tget(what, ymag):
    def f(ex, fn, a):
        n, w = a[2], a[3]
        if not isinstance(w, int): raise T.Unsupported(what)
        ex.oblige(odd(n, w), 'pre', '%s: the digit is odd and within the window' % what)
        ex.oblige(int((1 << (w - 2)) == a[1].n), 'pre', '%s: the table covers the window' % what)
        b, v, mags = table_base(ex, a[1], what, ymag)
        ex.writep(a[0], mkaff(pmul(b, sc.embed(n)), v, mags, inf=0)); return L([])
    return f
def tget_storage(ex, fn, a):
    n, w = a[2], a[3]; t = a[1]
    ex.oblige(odd(n, w), 'pre', 'table_get_ge_storage: the digit is odd and within the window')
    if not isinstance(t, View) or not isinstance(t.l, ParamArr): return NotImplemented
    ex.oblige(int((1 << (w - 2)) == t.n), 'pre', 'table_get_ge_storage: the table covers the window')
    k = T.var('tk%d' % len(T.AT), 0, t.n - 1)
    b = t.l[0].d
    ex.oblige(pzero(psub(t.l[k].d, pmul(b, padd(pscale(sc.embed(k), 2), sc.const(1))))), 'pre', 'table_get_ge_storage: the table holds the odd multiples')
    ex.writep(a[0], mkaff(pmul(b, sc.embed(n)), (), (1, 2), inf=0)); return L([])
TABLES = {'table_get_ge': tget('table_get_ge', 8), 'table_get_ge_const': tget('table_get_ge_const', 1), 'table_get_ge_storage': tget_storage}

def c_wnaf(ex, fn, a):
    arr = a[0]; s = sc.rd(ex, a[1]); w = a[2]
    if not isinstance(w, int): raise T.Unsupported('wNAF window')
    ex.oblige(int(w in (5, 16)), 'pre', 'ecmult_wnaf: window 5 or 16 (the widths verified)')
    if not isinstance(arr, View) or arr.start != 0 or arr.n != 256: raise T.Unsupported('wNAF output')
    loc = ex.stack[-1].loc
    at = [i for i, x in enumerate(loc) if x is arr.l]
    if len(at) != 1: raise T.Unsupported('wNAF output is not a local array')
    top = T.var('top%d' % len(T.AT), 0, 256)
    d = DigitArr(256, 'd%d_' % w, s, top, (1 << (w-1)) - 1)
    ex.wr(loc, at[0], d); ex.arrays = ex.arrays + [d]
    return top
CONM = {**CON, **TABLES, 'ecmult_wnaf': c_wnaf}

def ctx_g():
    """ECMultContext whose table holds the odd multiples of G (C07)"""
    return L([ParamArr(1 << 14, lambda i: StoredPt(padd(pscale(sc.embed(i), 2), sc.const(1))))])

def mfresh(c, con, label):
    ex = fresh(c, con, label); ex.accloops = pts.accloop
    return ex

@unit('mult.ecmult', 'C05 C08 C11 C17 C24', budget=300)
def _(c):
    for zero in (0,):
        ex = mfresh(c, CONM, 'ecmult')
        al = svar('a', nz=True); z = fe.fvar('z', 8, nz=True)
        a = mkjac(al.p, (), z.p, (8, 8, 8)); na = svar('na'); ng = svar('ng')
        r = box(L([pts.junkF(), pts.junkF(), pts.junkF(), T.boolvar('ri')]))
        want = padd(pmul(na.p, al.p), ng.p)
        for _ in c.call('ECMultContext::ecmult', [ref(ctx_g()), Slot(r, 0), ref(a), ref(na), ref(ng)]):
            A = recognise(ex, r[0], 'result')
            c.check(pzero(psub(A.d, want)) if A.d else pzero(want), 'the result is na*A + ng*G')
            c.check(int(A.v is None or A.v == ()), 'the result is on the curve itself')

# ---------------------------------------------------------------- ecmult_const
def c_wnaf_const(ex, fn, a):
    """65 odd digits d_j with sum d_j 16^j = scalar + skew (mod n), the sum being +-S with 0 < S < n as an integer, hence
    every partial sum H_k = sum_{j >= k} d_j 16^(j-k) is an odd integer with |H_k| < n: not zero mod n"""
    arr = a[0]; s = sc.rd(ex, a[1]); w = a[2]
    ex.oblige(int(w == 4), 'pre', 'ecmult_wnaf_const: window 4 (the width verified)')
    if not isinstance(arr, View) or not isinstance(arr.n, int): raise T.Unsupported('wNAF output')
    ex.oblige(int(arr.n == CWORDS + 1), 'pre', 'ecmult_wnaf_const: room for 65 digits')
    bit = T.boolvar('skew%d' % len(T.AT)); skew = T.add(1, bit)
    ds = [T.var('w%d_%d' % (j, len(T.AT)), -15, 15) for j in range(CWORDS + 1)]
    for d in ds: sc.NZ.add(next(iter(d.p))[0]); ex.fact(T.eq(T.mod(d, 2), 1))
    tot = padd(s.p, sc.embed(skew))
    rest = {}
    for j in range(1, CWORDS + 1): rest = padd(rest, pscale(sc.embed(ds[j]), 16**j))
    sc.CAN[next(iter(ds[0].p))[0]] = psub(tot, rest); sc.nonzero(psub(tot, rest))
    h = {}
    for j in range(CWORDS, 0, -1):
        h = padd(pscale(h, 16), sc.embed(ds[j])); sc.nonzero(h)
    sc.nonzero(tot)
    for j in range(CWORDS + 1): ex.wr(arr.l, arr.start + j, ds[j])
    return skew
CONC = {**CON, **TABLES, 'ecmult_wnaf_const': c_wnaf_const}

def junkjac(): return L([pts.junkF(), pts.junkF(), pts.junkF(), T.boolvar('jj')])

@unit('mult.ecmult_const', 'C06 C19 C24', budget=300)
def _(c):
    ex = fresh(c, CONC, 'ecmult_const')
    al = svar('a', nz=True); a = mkaff(al.p, (), (8, 8), inf=0); k = svar('k'); r = box(junkjac())
    for _ in c.call('ECMultContext::ecmult_const', [ref(L([pts.UN])), Slot(r, 0), ref(a), ref(k)]):
        A = recognise(ex, r[0], 'result'); want = pmul(k.p, al.p)
        c.check(pzero(psub(A.d, want)) if A.d else pzero(want), 'the result is scalar * A')
        c.check(int(A.v is None or A.v == ()), 'the result is on the curve itself')

# ---------------------------------------------------------------- ecmult_gen
def gen_prec():
    """row j: u_j + i 16^j G, where the u_j are unknown and add up to zero; no entry is infinity (the form of the entries)"""
    us = [svar('u%d' % j, nz=True).p for j in range(63)]; s = sc.const(0)
    for u in us: s = padd(s, u)
    us.append(pneg(s))
    return L([L([StoredPt(padd(sc.const(i << (4*j)), us[j])) for i in range(16)]) for j in range(64)])

@unit('mult.ecmult_gen', 'C04 C17 C08 C09 C10 C24', budget=300)
def _(c):
    ex = fresh(c, CON, 'ecmult_gen')
    k = svar('k'); r = box(junkjac()); n = 0
    for g in c.call('ECMultGenContext::new_from_raw', [gen_prec()]):
        for f in g:
            f = f if isinstance(f, SV) else (sc.assv(f) if isinstance(f, L) and len(f) == 1 and not isinstance(f[0], StoredPt) else None)
            if f is not None and f.p and set(f.p) == {()}: coords(pneg(f.p))
        for _ in c.call('ECMultGenContext::ecmult_gen', [ref(g), Slot(r, 0), ref(k)]):
            A = recognise(ex, r[0], 'result')
            c.check(pzero(psub(A.d, k.p)) if A.d else pzero(k.p), 'the result is k*G')
            c.check(int(A.v is None or A.v == ()), 'the result is on the curve itself')
