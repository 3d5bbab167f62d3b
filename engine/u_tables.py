"""Contracts of the precomputed tables: the static contexts, and their construction at run time."""
import terms as T, exec as X, fe, sc, pts, oracle, time
from ctx import *
from exec import Alt, E, L, Slot, View, UN
from fe import FV, fconst
from sc import SV, svar, padd, psub, pmul, pscale, pzero, satom
from pts import recognise, StoredPt, mkaff
from u_mult import CON, fresh

def word(l, w): return sum(x << (w*i) for i, x in enumerate(l))
def stored(st):
    """(x, y) of a concrete AffineStorage"""
    out = []
    for f in st:
        while len(f) == 1: f = f[0]
        out.append(word(f, 32))
    return tuple(out)

def genrows(first):
    """the row of 16 points first + i 16^j G, for each j"""
    rows = []; gj = oracle.jac((oracle.GX, oracle.GY))
    for j in range(64):
        t = oracle.jac(first[j]); row = []
        for i in range(16):
            row.append(oracle.aff(t)); t = oracle.jadd(t, gj)
        rows.append(row)
        for _ in range(4): gj = oracle.jac(oracle.aff(oracle.jdbl(gj)))
    return rows
def oncurve(q): return q is not None and q[0] < P and q[1] < P and (q[1]*q[1] - q[0]**3 - 7) % P == 0
def signing(c, prec, what, ev):
    """entries of row j: U_j + i 16^j G for a point U_j, and the U_j add up to infinity"""
    if len(prec) != 1: c.record(False, '%s: 64 rows' % what); return
    ent = [[ev(prec[0][j][i]) for i in range(16)] for j in range(64)]
    bad = [j for j in range(64) if not oncurve(ent[j][0])]
    if bad:
        c.record(False, '%s: the first entry of row %d is a point of the curve' % (what, bad[0]), env={'row': bad[0], 'entry': 0}); return
    rows = genrows([r[0] for r in ent])
    for j in range(64):
        for i in range(16):
            ok = ent[j][i] is not None and ent[j][i] == rows[j][i]
            c.record(ok, '%s: entry %d of row %d is the first entry plus %d 16^%d G' % (what, i, j, i, j), env=None if ok else {'row': j, 'entry': i})
    s = oracle.jac(None)
    for r in ent: s = oracle.jadd(s, oracle.jac(r[0]))
    c.record(oracle.aff(s) is None, '%s: the offsets add up to infinity' % what)
    return ent
def static_tables(c, ex):
    """the signing tables the program contains, as coordinates"""
    out = []
    for a, al in sorted(c.p.allocs.items()) if isinstance(c.p.allocs, dict) else enumerate(c.p.allocs):
        if al.get('kind') == 'static' and c.p.types[al['ty']]['name'].endswith('ECMultGenContext'):
            prec = [x for x in ex.readp(ex.static_ref(a)) if isinstance(x, L) and len(x) == 64]
            out.append((al['name'], [[stored(prec[0][j][i]) for i in range(16)] for j in range(64)]))
    c.record(len(out) > 0, 'the static signing table was found', 'vacuity')
    return out

@unit('tables.static', 'C07', budget=300)
def _(c):
    """complete evaluation of the constants rustc puts into the program"""
    ex = fresh(c, {}, 'static tables')
    t0 = time.time()
    found = {'verification': 0, 'signing': 0}
    for a, al in sorted(c.p.allocs.items()) if isinstance(c.p.allocs, dict) else enumerate(c.p.allocs):
        if al.get('kind') != 'static': continue
        ty = c.p.types[al['ty']]['name'] if isinstance(c.p.types, (list, dict)) else ''
        if ty.endswith('ECMultContext'):
            found['verification'] += 1
            tab = ex.readp(ex.static_ref(a))[0]; bad = []
            c.record(len(tab) == 1 << 14, '%s: 16384 entries' % al['name'])
            pt = oracle.jac((oracle.GX, oracle.GY)); two = oracle.jac(oracle.aff(oracle.jdbl(pt)))
            for i, e in enumerate(tab):
                want = oracle.aff(pt)
                c.record(stored(e) == want, '%s: entry %d is %d G' % (al['name'], i, 2*i + 1), env=None if stored(e) == want else {'entry': i})
                pt = oracle.jadd(oracle.jac(want), two)
        if ty.endswith('ECMultGenContext'):
            found['signing'] += 1
            g = ex.readp(ex.static_ref(a))
            signing(c, [x for x in g if isinstance(x, L) and len(x) == 64], al['name'], stored)
            blinding(c, ex, g, al['name'])
    for k, n in found.items(): c.record(n > 0, 'the static %s context was found' % k, 'vacuity')

def blinding(c, ex, g, what):
    bl = [x for x in g if isinstance(x, L) and len(x) == 1 and isinstance(x[0], L) and len(x[0]) == 8]
    ini = [x for x in g if isinstance(x, L) and len(x) == 4]
    c.record(len(bl) == 1 and len(ini) == 1, '%s: blinding scalar and start point' % what)
    b = word(bl[0][0], 32); x, y, z, inf = ini[0]
    x, y, z = [fe.asfv(f) for f in (x, y, z)]
    xi, yi, zi = [f.p.get((), 0) for f in (x, y, z)]
    ok = b < N and inf == 0 and zi % P != 0
    if ok:
        w = pow(zi, -1, P); ok = (xi*w*w % P, yi*w*w*w % P) == oracle.gmul(-b % N)
    c.record(ok, '%s: the start point is minus the blinding scalar times G' % what)
    for f in (x, y, z): c.record(f.mag <= 8, '%s: magnitudes of the start point' % what)

# ---------------------------------------------------------------- run-time construction
def c_set_xo_var(ex, fn, a):
    f = fe.rd(ex, a[1]); odd = a[2]
    x = fe.pcsub(fe.freduce(f.p))
    if len(x) != 1 or () not in x or not isinstance(odd, int): raise T.Unsupported('set_xo_var of a symbolic value')
    fe.pre(ex, T.le(f.mag, 8), 'set_xo_var: magnitude at most 8')
    q = oracle.lift(x[()], odd)
    if q is None:
        ex.writep(a[0], L([f, pts.junkF(1), 0])); return 0
    nu = svar('nums', nz=True); k = next(iter(nu.p))[0][0]; pts.CONC[k] = q
    ex.writep(a[0], mkaff(nu.p, (), (max(f.mag, 1), 2), 0, inf=0)); ex.nums = nu.p
    return 1
CONT = {**CON, 'Affine::set_xo_var': c_set_xo_var}

@unit('tables.gen_new_boxed', 'C07', budget=500)
def _(c):
    ex = fresh(c, CONT, 'ECMultGenContext::new_boxed')
    for v in c.call('ECMultGenContext::new_boxed', []):
        g = ex.readp(v)
        prec = [x for x in g if isinstance(x, L) and len(x) == 64]
        c.check(int(len(prec) == 1), '64 rows')
        first = [prec[0][j][0].d for j in range(64)]; tot = sc.const(0)
        for j in range(64):
            tot = padd(tot, first[j])
            for i in range(16):
                st = prec[0][j][i]
                c.check(int(isinstance(st, StoredPt) and not sc.pcsub(psub(psub(st.d, first[j]), sc.const(i << (4*j))))), 'entry %d of row %d is the first entry plus %d 16^%d G' % (i, j, i, j))
        c.check(int(not sc.pcsub(tot)), 'the offsets add up to infinity')
        con = [pts.concrete(d) for d in first]
        for name, ent in static_tables(c, ex):
            for j in range(64):
                ok = con[j] == ent[j][0]
                c.record(ok, 'the offset of row %d is the one in %s' % (j, name), env=None if ok else {'row': j, 'entry': 0})
        blinding(c, ex, g, 'new_boxed')

@unit('tables.new_boxed', 'C07', budget=800)
def _(c):
    ex = fresh(c, CONT, 'ECMultContext::new_boxed')
    for v in c.call('ECMultContext::new_boxed', []):
        tab = ex.readp(v)[0]
        c.check(int(len(tab) == 1 << 14), '16384 entries')
        for i in range(len(tab)):
            st = tab[i]
            c.check(int(isinstance(st, StoredPt) and not sc.pcsub(psub(st.d, sc.const(2*i + 1)))), 'entry %d is %d G' % (i, 2*i + 1))
