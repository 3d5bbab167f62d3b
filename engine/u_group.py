"""Contracts of core/src/group.rs over the field contracts: every case of the group law, as polynomial identities.
A point on y^2 = x^3 + B (B = 7u^6 for arbitrary non-zero u, so every isomorphic image of the curve is covered).
Facts used: no point of these curves has x = 0 or y = 0 (7 and -7 are not a square / cube mod p; checked below)."""
import terms as T, exec as X, fe
from ctx import *
from fe import FV, fmul, fadd, fsub, fscale, fpow, fneg, fzero

def mul(*a):
    r = fe.fconst(1)
    for x in a: r = fmul(r, x)
    return r

class Case:
    """symbolic points of one case of the group law"""
    def __init__(s, c, kind, label, con=None):
        s.c = c; s.kind = kind
        c.fresh(con or fe.CONTRACTS, '%s: %s' % (label, kind))
        s.B = fe.fvar('B', 8, nz=True).p
        if kind == 'A=inf,B=inf' or kind.startswith('A=inf'):
            pass
        s.x1, s.y1 = s.point('1')
        if kind in ('generic', 'A=inf', 'B=inf', 'A=inf,B=inf'):
            s.x2, s.y2 = s.point('2')
            if kind == 'generic':
                fe.nonzero_fact(fsub(s.x2, s.x1)); fe.nonzero_fact(fadd(s.y1, s.y2)); fe.nonzero_fact(fsub(s.y2, s.y1))
        elif kind == 'degenerate':          # y1 = -y2, x1 != x2, hence x1^2 + x1 x2 + x2^2 = 0
            x2 = fe.fvar('x2', 8, nz=True); s.x2 = x2.p; s.y2 = fneg(s.y1)
            fe.RULES[fe.aid(x2)] = (2, fneg(fadd(fmul(s.x1, s.x1), fe.fmul0(s.x1, s.x2))))
            fe.nonzero_fact(fsub(s.x2, s.x1))
        elif kind == 'samey':               # y1 = y2, x1 != x2
            x2 = fe.fvar('x2', 8, nz=True); s.x2 = x2.p; s.y2 = s.y1
            fe.RULES[fe.aid(x2)] = (2, fneg(fadd(fmul(s.x1, s.x1), fe.fmul0(s.x1, s.x2))))
            fe.nonzero_fact(fsub(s.x2, s.x1))
        elif kind == 'equal': s.x2, s.y2 = s.x1, s.y1
        elif kind == 'opposite': s.x2, s.y2 = s.x1, fneg(s.y1)
        s.z1 = fe.fvar('z1', 8, nz=True).p; s.z2 = fe.fvar('z2', 8, nz=True).p; s.w = fe.fvar('w', 8, nz=True).p
    def point(s, i):
        x = fe.fvar('x' + i, 8, nz=True); y = fe.fvar('y' + i, 8, nz=True)
        fe.RULES[fe.aid(y)] = (2, fadd(fpow(x.p, 3), s.B))
        return x.p, y.p
    def jac(s, x, y, z, inf, mx=8, my=8, mz=8):
        """Jacobian coordinates of the affine point (x, y)"""
        return L([FV(mul(x, z, z), mx, 0), FV(mul(y, z, z, z), my, 0), FV(z, mz, 0), inf])
    def junk(s, tag, inf, z=True):
        f = [fe.fvar(tag + k, 8) for k in ('x', 'y', 'z')]
        return L(f[:2] + ([f[2]] if z else []) + [inf])
    def A(s): return s.junk('a', 1) if s.kind.startswith('A=inf') else s.jac(s.x1, s.y1, s.z1, 0)
    def Bj(s): return s.junk('b', 1) if 'B=inf' in s.kind else s.jac(s.x2, s.y2, s.z2, 0)
    def Ba(s): return s.junk('b', 1, False) if 'B=inf' in s.kind else L([FV(s.x2, 8, 0), FV(s.y2, 8, 0), 0])
    def Bw(s):
        """affine coordinates that become (x2, y2) when multiplied by w^2, w^3"""
        if 'B=inf' in s.kind: return s.junk('b', 1, False)
        return L([FV(fmul(s.x2, fpow(s.w, -2)), 8, 0), FV(fmul(s.y2, fpow(s.w, -3)), 8, 0), 0])
    def sum(s):
        """(num_x, den_x, num_y, den_y) of the affine sum, or None for infinity, by the chord and tangent rule"""
        if s.kind == 'opposite' or s.kind == 'A=inf,B=inf': return None
        if s.kind == 'A=inf': return s.x2, s.y2, fe.fconst(1)
        if s.kind == 'B=inf': return s.x1, s.y1, fe.fconst(1)
        if s.kind == 'equal': ln, d = fscale(fmul(s.x1, s.x1), 3), fscale(s.y1, 2)
        else: ln, d = fsub(s.y2, s.y1), fsub(s.x2, s.x1)
        nx = fsub(fmul(ln, ln), fmul(fadd(s.x1, s.x2), fmul(d, d)))               # x3 = nx / d^2
        ny = fsub(fmul(ln, fsub(fmul(s.x1, fmul(d, d)), nx)), fmul(s.y1, fpow(d, 3)))   # y3 = ny / d^3
        return nx, ny, d

def same(c, p, q, desc): c.check(fzero(fsub(p, q)), desc)

def isresult(cs, r, what, mags=(8, 8, 8)):
    """r holds the sum of the case"""
    c = cs.c; e = cs.sum()
    r[:] = [fe.asfv(v) if isinstance(v, L) else v for v in r]
    if e is None:
        c.check(T.eq(r[3], 1), what + ': the result is infinity')
        return
    nx, ny, d = e
    c.check(T.eq(r[3], 0), what + ': the result is not infinity')
    z = r[2].p
    c.check(T.bnot(fzero(z)), what + ': z of the result is not zero')
    same(c, fmul(r[0].p, fmul(d, d)), fmul(nx, fmul(z, z)), what + ': x of the sum')
    same(c, fmul(r[1].p, fpow(d, 3)), fmul(ny, fpow(z, 3)), what + ': y of the sum')

def magcheck(c, r, bounds, copy=()):
    for k, nm in enumerate('xyz'[:len(r) - 1]):
        if isinstance(r[k], FV): c.check(T.le(r[k].mag, bounds[k]), 'magnitude of %s at most %d' % (nm, bounds[k]))

OUT = (6, 4, 2)      # magnitudes of a freshly computed point
CASES = ('generic', 'degenerate', 'samey', 'equal', 'opposite', 'A=inf', 'B=inf', 'A=inf,B=inf')

def drzr(c, r, a, z, what):
    """the ratio contract r.z = a.z * rzr"""
    same(c, r[2].p, fmul(a[2].p, z.p), what + ': z ratio')

@unit('group.facts', 'C03 C24')
def _(c):
    c.fresh()
    c.record(pow(7, (P - 1) // 2, P) == P - 1, '7 is not a square mod p: no point has x = 0 on any curve y^2 = x^3 + 7u^6', 'lemma')
    c.record(pow(P - 7, (P - 1) // 3, P) != 1, '-7 is not a cube mod p: no point has y = 0 on any curve y^2 = x^3 + 7u^6', 'lemma')
    c.record(P % 3 == 1 and P % 4 == 3, 'p = 1 mod 3, p = 3 mod 4', 'lemma')
    # the case split is exhaustive: x1 = x2 forces y1 = y2 or y1 = -y2; y1 = -y2 or y1 = y2 with x1 != x2 forces x1^2+x1x2+x2^2 = 0
    for sg in (1, -1):
        c.fresh(fe.CONTRACTS, 'cases'); x1, x2 = fe.fvar('x1', 1).p, fe.fvar('x2', 1).p
        same(c, fsub(fpow(x1, 3), fpow(x2, 3)), fmul(fsub(x1, x2), fadd(fadd(fmul(x1, x1), fmul(x1, x2)), fmul(x2, x2))), 'x1^3 - x2^3 factors')
    # the chord-and-tangent rule commutes with (x, y) -> (x u^2, y u^3): sums may be taken on any isomorphic curve
    for kind in ('generic', 'equal'):
        cs = Case(c, kind, 'isomorphism'); u = cs.w
        nx, ny, d = cs.sum()
        cs.x1, cs.x2 = fmul(cs.x1, fpow(u, 2)), fmul(cs.x2, fpow(u, 2)); cs.y1, cs.y2 = fmul(cs.y1, fpow(u, 3)), fmul(cs.y2, fpow(u, 3))
        mx, my, e = cs.sum()
        same(c, mul(mx, d, d), mul(nx, u, u, e, e), 'x of the sum scales by u^2')
        same(c, mul(my, fpow(d, 3)), mul(ny, fpow(u, 3), fpow(e, 3)), 'y of the sum scales by u^3')

@unit('group.double', 'C03 C24')
def _(c):
    for nm in ('Jacobian::double_var_in_place', 'Jacobian::double_nonzero_in_place', 'Jacobian::double_var'):
        for kind in ('equal', 'A=inf'):
            for rz in (0, 1):
                if 'nonzero' in nm and kind == 'A=inf': continue
                con = fe.CONTRACTS if nm.endswith('double_var_in_place') else dict(fe.CONTRACTS)
                cs = Case(c, kind, '%s%s' % (nm, ' rzr' if rz else '')); a = cs.A()
                old = cs.junk('o', 0 if 'nonzero' in nm else T.boolvar('oi'))
                r = box(old); q = box(fe.fvar('q', 8)); arg = X.E([1, Slot(q, 0)]) if rz else X.E([0])
                ab = box(a)
                for v in c.call(nm, ([] if nm.endswith('double_var') else [Slot(r, 0)]) + [Slot(ab, 0), arg]):
                    out = v if nm.endswith('double_var') else r[0]
                    if kind == 'A=inf': c.check(T.eq(out[3], 1), 'the double of infinity is infinity')
                    else: isresult(cs, out, nm); magcheck(c, out, OUT)
                    if rz:
                        if kind != 'A=inf': drzr(c, out, a, q[0], nm)
                        else: same(c, q[0].p, fe.fconst(1), 'ratio 1 for infinity')
                        c.check(T.le(q[0].mag, 2), 'magnitude of the ratio at most 2')
                    if 'in_place' in nm: c.check(int(all(x is y for x, y in zip(ab[0], a))), 'argument unchanged')

def addunit(c, names, second, kinds=CASES, self_arg=True, args=None, hasrzr=True):
    for nm in names:
        for kind in kinds:
            for rz in ((0, 1) if hasrzr and not kind.startswith('A=inf') else (0,)):
                cs = Case(c, kind, '%s%s' % (nm, ' rzr' if rz else '')); a = cs.A(); b = second(cs)
                r = box(cs.junk('o', T.boolvar('oi'))); q = box(fe.fvar('q', 8)); arg = X.E([1, Slot(q, 0)]) if rz else X.E([0])
                ab = box(a); bb = box(b)
                al = ([Slot(r, 0)] if 'in_place' in nm else []) + [Slot(ab, 0), Slot(bb, 0)]
                if hasrzr: al.append(arg)
                if args: al += args(cs)
                for v in c.call(nm, al):
                    out = r[0] if 'in_place' in nm else v
                    isresult(cs, out, nm)
                    magcheck(c, out, OUT if kind in ('generic', 'degenerate', 'samey', 'equal') else (8, 8, 8))
                    if rz:
                        if kind != 'opposite': drzr(c, out, a, q[0], nm)
                        c.check(T.le(q[0].mag, 8), 'magnitude of the ratio at most 8')
                    c.check(int(all(x is y for x, y in zip(ab[0], a))), 'first argument unchanged')
                    c.check(int(all(x is y for x, y in zip(bb[0], b))), 'second argument unchanged')

@unit('group.add_var', 'C03 C24')
def _(c): addunit(c, ('Jacobian::add_var_in_place', 'Jacobian::add_var'), Case.Bj)

@unit('group.add_ge_var', 'C03 C24')
def _(c): addunit(c, ('Jacobian::add_ge_var_in_place', 'Jacobian::add_ge_var'), Case.Ba)

@unit('group.add_ge', 'C03 C24')
def _(c): addunit(c, ('Jacobian::add_ge_in_place', 'Jacobian::add_ge'), Case.Ba, [k for k in CASES if 'B=inf' not in k], hasrzr=False)

@unit('group.add_zinv_var', 'C03 C24')
def _(c): addunit(c, ('Jacobian::add_zinv_var_in_place', 'Jacobian::add_zinv_var'), Case.Bw, hasrzr=False, args=lambda cs: [ref(FV(cs.w, 8, 0))])

def eqcoords(c, v, x, y, desc):
    same(c, fe.asfv(v[0]).p, x, desc + ': x'); same(c, fe.asfv(v[1]).p, y, desc + ': y')

@unit('group.affine_conv', 'C03 C24')
def _(c):
    for nm in ('Affine::set_gej', 'Affine::from_gej', 'Affine::set_gej_var'):
        for kind in ('generic', 'A=inf'):
            cs = Case(c, kind, nm); a = cs.A(); r = box(cs.junk('o', T.boolvar('oi'), False)); ab = box(a)
            for v in c.call(nm, ([Slot(r, 0)] if 'set' in nm else []) + [Slot(ab, 0)]):
                out = r[0] if 'set' in nm else v
                c.check(T.eq(out[2], a[3]), 'infinity flag')
                if kind == 'generic':
                    eqcoords(c, out, cs.x1, cs.y1, 'affine coordinates')
                    magcheck(c, out, (1, 1))
                c.check(int(all(x is y for x, y in zip(ab[0], a))), 'argument unchanged')
        if nm == 'Affine::set_gej':
            # infinity with z = 0 as set_infinity leaves it
            c.fresh(fe.CONTRACTS, nm + ' of set_infinity'); j = box(Case.junk(None, 'j', 0))
            for _ in c.call('Jacobian::set_infinity', [Slot(j, 0)]):
                c.check(T.eq(j[0][3], 1), 'infinity')
                r = box(Case.junk(None, 'o', T.boolvar('oi'), False))
                for _ in c.call(nm, [Slot(r, 0), Slot(j, 0)]): c.check(T.eq(r[0][2], 1), 'infinity')
    cs = Case(c, 'generic', 'set_gej_zinv'); r = box(cs.junk('o', T.boolvar('oi'), False)); i = T.boolvar('inf'); zi = fe.fvar('zi', 8).p; k = fe.fvar('k', 8)
    a = cs.jac(cs.x1, cs.y1, cs.z1, i)
    for _ in c.call('Affine::set_gej_zinv', [Slot(r, 0), ref(a), ref(FV(zi, 8, 0))]):
        same(c, r[0][0].p, mul(a[0].p, zi, zi), 'x times zi^2'); same(c, r[0][1].p, mul(a[1].p, zi, zi, zi), 'y times zi^3')
        c.check(T.eq(r[0][2], i), 'infinity flag'); magcheck(c, r[0], (1, 1))
    for kind in ('generic', 'B=inf'):
        for nm in ('Jacobian::set_ge', 'Jacobian::from_ge'):
            cs = Case(c, kind, nm); b = cs.Ba(); r = box(cs.junk('o', T.boolvar('oi')))
            for v in c.call(nm, ([Slot(r, 0)] if 'set' in nm else []) + [ref(b)]):
                out = r[0] if 'set' in nm else v
                eqcoords(c, out, b[0].p, b[1].p, 'coordinates'); same(c, fe.asfv(out[2]).p, fe.fconst(1), 'z is 1'); c.check(T.eq(out[3], b[2]), 'infinity flag')

@unit('group.neg', 'C03 C24')
def _(c):
    for nm in ('Affine::neg_in_place', 'Affine::neg', 'Jacobian::neg_in_place', 'Jacobian::neg'):
        cs = Case(c, 'generic', nm); i = T.boolvar('inf')
        a = cs.jac(cs.x1, cs.y1, cs.z1, i) if nm[0] == 'J' else L([FV(cs.x1, 8, 0), FV(cs.y1, 31, 0), i])
        if nm[0] == 'J': a[1] = FV(a[1].p, 31, 0)
        r = box(cs.junk('o', T.boolvar('oi'), nm[0] == 'J')); ab = box(a)
        for v in c.call(nm, ([Slot(r, 0)] if 'place' in nm else []) + [Slot(ab, 0)]):
            out = r[0] if 'place' in nm else v
            eqcoords(c, out, a[0].p, fneg(a[1].p), 'opposite point')
            if nm[0] == 'J': same(c, out[2].p, a[2].p, 'z')
            c.check(T.eq(out[-1], i), 'infinity flag'); c.check(T.le(out[1].mag, 2), 'magnitude of y at most 2')
            c.check(int(all(x is y for x, y in zip(ab[0], a))), 'argument unchanged')

@unit('group.predicates', 'C03 C24')
def _(c):
    cs = Case(c, 'generic', 'eq_x_var'); x = fe.fvar('x', 8); a = cs.A(); a[0] = FV(a[0].p, 29, 0)
    for v in c.call('Jacobian::eq_x_var', [ref(a), ref(x)]): c.check(T.eq(v, fzero(fsub(cs.x1, x.p))), 'true exactly when the affine x coordinate equals the argument')
    for nm, z in (('Affine::is_infinity', 0), ('Jacobian::is_infinity', 1)):
        cs = Case(c, 'generic', nm); i = T.boolvar('inf'); a = cs.junk('q', i, z)
        for v in c.call(nm, [ref(a)]): c.check(T.eq(v, i), 'the infinity flag')
    c.fresh(fe.CONTRACTS, 'is_valid_var'); x, y, i = fe.fvar('x', 8), fe.fvar('y', 8), T.boolvar('inf')
    for v in c.call('Affine::is_valid_var', [ref(L([x, y, i]))]):
        c.check(T.eq(v, T.band(T.bnot(i), fzero(fsub(fmul(y.p, y.p), fadd(fpow(x.p, 3), fe.fconst(7)))))), 'true exactly for a finite point with y^2 = x^3 + 7')
    c.fresh(fe.CONTRACTS, 'has_quad_y_var'); i = T.boolvar('inf'); yz = []
    a = L([fe.fvar('x', 8), fe.fvar('y', 8), fe.fvar('z', 8), i])
    for v in c.call('Jacobian::has_quad_y_var', [ref(a)]):
        ok = fe.sqrt_atoms(fmul(a[1].p, a[2].p))[1]
        c.check(T.eq(v, T.band(T.bnot(i), ok)), 'true exactly when finite and y*z (hence y/z^3) is a square')
    c.fresh({}, 'PartialEq'); 

@unit('group.lift_x', 'C03 C15 C24')
def _(c):
    for odd in (0, 1):
        c.fresh(fe.CONTRACTS, 'set_xo_var odd=%d' % odd); x = fe.fvar('x', 8); r = box(Case.junk(None, 'o', T.boolvar('oi'), False))
        root, ok = fe.sqrt_atoms(fadd(fpow(x.p, 3), fe.fconst(7)))
        for v in c.call('Affine::set_xo_var', [Slot(r, 0), ref(x), odd]):
            c.check(T.eq(v, ok), 'true exactly when x^3+7 is a square')
            c.check(T.eq(r[0][2], 0), 'not infinity'); same(c, r[0][0].p, x.p, 'x')
            y = r[0][1]
            c.check(T.bor(T.bnot(v), fzero(fsub(fmul(y.p, y.p), fadd(fpow(x.p, 3), fe.fconst(7))))), 'on the curve')
            c.check(T.bor(T.bnot(v), T.eq(parity(y), odd)), 'y has the requested parity')
            c.check(T.bor(T.bnot(v), T.le(y.mag, 2)), 'magnitude of y at most 2')
    c.fresh(fe.CONTRACTS, 'set_xquad'); x = fe.fvar('x', 8); r = box(Case.junk(None, 'o', T.boolvar('oi'), False))
    root, ok = fe.sqrt_atoms(fadd(fpow(x.p, 3), fe.fconst(7)))
    for v in c.call('Affine::set_xquad', [Slot(r, 0), ref(x)]):
        c.check(T.eq(v, ok), 'true exactly when x^3+7 is a square'); same(c, r[0][0].p, x.p, 'x'); c.check(T.eq(r[0][2], 0), 'not infinity')
        c.check(T.bor(T.bnot(v), fzero(fsub(r[0][1].p, root))), 'y is the root that is a square')

def parity(y):
    """parity of the canonical representative of the root or of its opposite (p is odd and the root is not 0)"""
    p = fe.pcsub(fe.freduce(y.p))
    if len(p) == 1:
        (m, k), = p.items()
        if k == P - 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in fe.ROOTOF:
            return T.bnot(T.mod(fe.ivof(FV({m: 1}, 1, 1)), 2))
    return T.mod(fe.ivof(FV(p, 1, 1)), 2)

@unit('group.small', 'C03 C26 C24')
def _(c):
    for nm, z in (('Affine::clear', 0), ('Jacobian::clear', 1)):
        c.fresh(fe.CONTRACTS, nm); r = box(Case.junk(None, 'o', T.boolvar('oi'), z))
        for _ in c.call(nm, [Slot(r, 0)]):
            for k in range(2 + z): same(c, r[0][k].p, {}, 'coordinate %d is zero' % k)
            c.check(T.eq(r[0][-1], 0), 'infinity flag cleared')
    c.fresh(fe.CONTRACTS, 'set_infinity'); r = box(Case.junk(None, 'o', T.boolvar('oi')))
    for _ in c.call('Jacobian::set_infinity', [Slot(r, 0)]): c.check(T.eq(r[0][3], 1), 'infinity')
    cs = Case(c, 'generic', 'rescale'); s = fe.fvar('s', 1, 1, nz=True); i = T.boolvar('inf'); a = cs.jac(cs.x1, cs.y1, cs.z1, i); r = box(a)
    for _ in c.call('Jacobian::rescale', [Slot(r, 0), ref(s)]):
        o = r[0]; same(c, o[2].p, fmul(cs.z1, s.p), 'z'); c.check(T.eq(o[3], i), 'flag'); z = o[2].p
        same(c, o[0].p, mul(cs.x1, z, z), 'same point: x'); same(c, o[1].p, mul(cs.y1, z, z, z), 'same point: y')
    c.fresh(fe.CONTRACTS, 'new'); x, y = fe.fvar('x', 8), fe.fvar('y', 8)
    for v in c.call('Affine::new', [x, y]): eqcoords(c, v, x.p, y.p, 'Affine::new'); c.check(T.eq(v[2], 0), 'finite')
    for v in c.call('Jacobian::new', [x, y]): eqcoords(c, v, x.p, y.p, 'Jacobian::new'); c.check(T.eq(v[3], 0), 'finite'); same(c, fe.asfv(v[2]).p, fe.fconst(1), 'z is 1')
    r = box(Case.junk(None, 'o', T.boolvar('oi'), False))
    for _ in c.call('Affine::set_xy', [Slot(r, 0), ref(x), ref(y)]): eqcoords(c, r[0], x.p, y.p, 'set_xy'); c.check(T.eq(r[0][2], 0), 'finite')

@unit('group.storage', 'C03 C24')
def _(c):
    c.fresh(fe.CONTRACTS, 'Affine to storage and back'); x, y = fe.fvar('x', 8), fe.fvar('y', 8)
    for st in c.call('<Affine as Into<AffineStorage>>::into', [L([x, y, 0])]):
        for v in c.call('<Affine as From<AffineStorage>>::from', [st]):
            eqcoords(c, v, x.p, y.p, 'round trip'); c.check(T.eq(v[2], 0), 'finite'); magcheck(c, v, (1, 1))
            for k in (0, 1): c.check_zero(T.sub(words(list(st[k][0])), fe.ivof(FV((x, y)[k].p, 1, 1))), 'the storage holds the canonical value')
    c.fresh({}, 'AffineStorage::cmov')
    for f in (0, 1):
        a = L([L([u32s('ax', 8)]), L([u32s('ay', 8)])]); b = L([L([u32s('bx', 8)]), L([u32s('by', 8)])])
        r = box(X.copyval(a)); want = b if f else a
        for _ in c.call('AffineStorage::cmov', [Slot(r, 0), ref(b), f]):
            for k in (0, 1):
                for j in range(8): c.check(T.eq(r[0][k][0][j], want[k][0][j]), 'flag %d word %d.%d' % (f, k, j))
    for v in c.call('<AffineStorage as Default>::default', []): c.check(int(all(w == 0 for k in (0, 1) for w in v[k][0])), 'zero')
