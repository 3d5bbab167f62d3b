"""Counterexample search on the compiled code: the public API of /repo's working tree against big-integer reference
semantics (oracle.py).  Bounded; never counted as proof.  It turns a failed obligation into a failing input, and
validates the trusted parts (std contracts, MIR semantics) on samples."""
import sys, os, json, random, subprocess, base64, hashlib, time, select, tempfile
import oracle as O
from oracle import P, N, G, LAM

BLIND = sum(v << 32*i for i, v in enumerate((2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480)))
def h32(v): return '%064x' % v
def pt(a): return 'inf' if a is None else h32(a[0]) + h32(a[1])
def full(a): return '04' + pt(a)
def comp(a): return ('03' if a[1] & 1 else '02') + h32(a[0])
def hx(b): return b.hex() if b else '-'

class Gen:
    def __init__(s, seed, harvest=()):
        s.r = random.Random(seed)
        s.S = [0, 1, 2, 3, 4, 5, 15, 16, 17, N-1, N-2, N-3, N-16, N//2, N//2+1, N//2-1, (N+1)//2+1, LAM, N-LAM, 2**128, 2**128-1, 2**255, 2**255-1, 2**32-1, 2**32, 2**64-1, 2**64, 2**96-1, 2**96, 2**160-1, 2**160, 2**192-1, 2**192, 2**224-1, 2**224, P-N, P % N, 2**256 % N, 2**256-N, (2**256-N)//2, (N+1)//2]
        s.F = [0, 1, 2, 3, 7, P-1, P-2, P-3, P-7, P//2, P//2+1, 2**26-1, 2**26, 2**52-1, 2**52, 2**255, 2**256-2**32-978, 2**256-2**33, N, P-N, 977, 2**32+977, 2**32+976, 2**32, 2**256-2**234, 2**234, 2**234-1, 2**78, 2**104, 2**130-1, 2**156-1, 2**182, 2**208-1]
        s.limbs = []
        s.bytes = []
        s.small = []
        for e in harvest: s.take(e)
        s.S = [v % N for v in s.S]; s.F = [v % P for v in s.F]
        s.hS = list(dict.fromkeys(s.__dict__.get('hv', [])))[:60]
    def take(s, env):
        """values of a contract counterexample become operands"""
        g = {}
        for k, v in (env or {}).items():
            if not isinstance(v, int): continue
            k = str(k); b = k.rstrip('0123456789')
            g.setdefault(b, {})[k[len(b):]] = v
        hv = s.__dict__.setdefault('hv', [])
        for b, d in g.items():
            ix = [int(i) for i in d if i]
            if '' in d and d[''] >= 0: hv.append(d[''])
            if not ix: continue
            l = [max(0, d.get(str(i), 0)) for i in range(max(ix) + 1)]
            if len(l) <= 8 and len(l) > 4: hv.append(sum(v << 32*i for i, v in enumerate(l)))
            if 8 < len(l) <= 10: s.limbs.append((l + [0]*10)[:10]); hv.append(sum(v << 26*i for i, v in enumerate(l)))
            if 10 < len(l) <= 16:
                t = sum(v << 32*i for i, v in enumerate(l)); hv += [t & (2**256-1), t >> 256]
            if 16 < len(l) <= 64:
                bb = bytes(min(v, 255) for v in (l + [0]*32)[:32]); hv.append(int.from_bytes(bb, 'big'))
            if len(l) <= 200 and all(v < 256 for v in l): s.bytes.append(bytes(l))
    def big(s, M):
        r = s.r; k = r.random()
        if s.hS and k < .15: return r.choice(s.hS) % M
        if k < .4: return r.choice(s.S if M == N else s.F) % M
        if k < .5: return (r.choice((0, M)) + r.choice((1, -1)) * r.randrange(1, 40)) % M
        if k < .6: return (2**r.randrange(257) + r.randrange(-3, 4)) % M
        if k < .75:      # runs of zero / one words
            v = 0
            w = r.choice((8, 26, 32, 64))
            for i in range(256//w + 1): v |= r.choice((0, 2**w-1, 2**w-1, 1, r.getrandbits(w))) << (w*i)
            return v % 2**256 % M
        if k < .8: return r.getrandbits(r.randrange(1, 257)) % M
        return r.randrange(M)
    def sc(s): return s.big(N)
    def nz(s):
        while True:
            v = s.sc()
            if v: return v
    def fe(s): return s.big(P)
    def raw32(s):
        r = s.r; k = r.random()
        if k < .3: return (N if r.random() < .5 else P) + r.randrange(-3, 4)
        if k < .4: return 2**256 - 1 - r.randrange(4)
        if k < .5: return r.randrange(3)
        if k < .55: return N + r.randrange(2**256 - N)
        if s.hS and k < .65: return r.choice(s.hS) % 2**256
        return s.big(2**256)
    def dl(s): return s.nz()
    def pair(s):
        """two discrete logs with a frequent special relation"""
        r = s.r; a = s.nz(); k = r.randrange(10)
        b = [a, N-a, a*LAM % N, N - a*LAM % N, a*LAM*LAM % N, N - a*LAM*LAM % N, s.nz(), s.nz(), 2*a % N, N - 2*a % N][k]
        return a, b
    def z(s): return s.r.choice((1, 1, s.fe() or 1, s.fe() or 1))

def cases(pid, g, n):
    r = g.r; out = []
    def c(cmd, exp): out.append((cmd, exp))
    b = lambda v: str(int(bool(v)))
    ctx = lambda: 'boxed' if r.random() < .15 else 'static'
    if pid in ('C01', 'C24'):
        for _ in range(n * 4):
            x, y = g.sc(), g.sc()
            if r.random() < .1: y = (N - x) % N
            k = r.randrange(16)
            if k == 0: c('sc add %s %s' % (h32(x), h32(y)), ' '.join([h32((x+y) % N)]*3))
            elif k in (1, 2, 3): c('sc mul %s %s' % (h32(x), h32(y)), ' '.join([h32(x*y % N)]*4))
            elif k == 4: c('sc neg %s' % h32(x), ' '.join([h32(-x % N)]*2))
            elif k in (5, 15): c('sc sqr %s' % h32(x), ' '.join([h32(x*x % N)]*2))
            elif k == 6: i = h32(pow(x, -1, N) if x else 0); c('sc inv %s' % h32(x), i + ' ' + i)
            elif k == 7: f = r.randrange(2); c('sc condneg %s %d' % (h32(x), f), h32(-x % N if f else x))
            elif k == 8: q = r.randrange(1, 16); c('sc shr %s %d' % (h32(x), q), '%d %s' % (x % 2**q, h32(x >> q)))
            elif k == 9:
                q = r.randrange(1, 32); o = r.randrange(0, 257 - q)
                c('sc bitsv %s %d %d' % (h32(x), o, q), str((x >> o) % 2**q))
            elif k == 10:
                w = r.randrange(8); q = r.randrange(1, 32); o = 32*w + r.randrange(0, 33 - q)
                c('sc bits %s %d %d' % (h32(x), o, q), str((x >> o) % 2**q))
            elif k == 11:
                v = g.raw32() % 2**256
                c('sc load %s' % h32(v), '%d %s %s' % (v >= N, h32(v % N), h32(v % N)))
            elif k == 12: c('sc pred %s' % h32(x), '%s %s %s %s' % (b(x == 0), b(x == 1), b(x > N//2), b(x % 2 == 0)))
            elif k == 13: y = x if r.random() < .5 else x ^ (1 << r.randrange(255)); c('sc eq %s %s' % (h32(x), h32(y)), b(x == y % N))
            else:
                q = r.randrange(256); f = r.randrange(2)
                if x + (1 << q) < N: c('sc cadd %s %d %d' % (h32(x), q, f), h32(x + (f << q)))
                v = r.choice((0, 1, 2**32-1, r.getrandbits(32))); c('sc int %s %d' % (h32(x), v), h32(v) + ' ' + h32(v))
    if pid in ('C02', 'C24'):
        for _ in range(n * 5): c(*fieldcase(g))
        for l in g.limbs:
            for m in range(1, 33):
                if all(v <= 2*m*(2**26-1 if i < 9 else 2**22-1) for i, v in enumerate(l)):
                    raw = 'raw:%d,%s' % (m, ','.join(map(str, l))); v = sum(x << 26*i for i, x in enumerate(l)) % P
                    for op in (['norm', 'normv', 'weak'] if m < 32 else []): c('fe %s %s' % (raw, op), h32(v))
                    if m < 31: c('fe %s nz nzv' % raw, '%s %s %s' % (b(v == 0), b(v == 0), h32(v)))
                    if m <= 8:
                        c('fe %s sqr' % raw, h32(v*v % P)); c('fe %s dup mul' % raw, h32(v*v % P))
                        for l2 in g.limbs[:6]:
                            if all(v2 <= 2*m*(2**26-1 if i < 9 else 2**22-1) for i, v2 in enumerate(l2)):
                                w = sum(x << 26*i for i, x in enumerate(l2)) % P
                                c('fe %s raw:%d,%s mul' % (raw, m, ','.join(map(str, l2))), h32(v*w % P))
                    break
    if pid in ('C03', 'C24'):
        for _ in range(n // 2):
            a, d = g.pair(); A, B = O.gmul(a), O.gmul(d)
            if r.random() < .1: A, a = None, 0
            if r.random() < .1: B, d = None, 0
            z1, z2 = g.z(), g.z(); S = O.gmul(a + d) if (a + d) % N else None; D = O.gmul(2*a) if a else None
            k = r.randrange(15)
            big = lambda Q: pt(Q) + ('*' if Q and k not in (8, 14) and r.random() < .4 else '')
            arg = '%s %s %s %s' % (big(A), h32(z1), big(B), h32(z2))
            if A is None and k in (3, 7): k -= 1
            if k == 0: c('pt dbl ' + arg, pt(D))
            elif k == 1: c('pt dblr ' + arg, pt(D) + ' 1')
            elif k == 2: c('pt add ' + arg, pt(S))
            elif k == 3: c('pt addr ' + arg, (lambda S: lambda o: o.split()[0] == pt(S) and (o.split()[1] == '1'))(S))
            elif k in (4, 5): 
                if B: c('pt addge ' + arg, pt(S))
            elif k == 6: c('pt addgev ' + arg, pt(S))
            elif k == 7: c('pt addgevr ' + arg, pt(S) + ' 1')
            elif k == 8: c('pt addzinv ' + arg, pt(S))
            elif k == 9: c('pt neg ' + arg, '%s %s' % (pt(O.neg(A)), pt(O.neg(B))))
            elif k == 10: c('pt conv ' + arg, ' '.join([pt(A)]*4))
            elif k == 11:
                if A: x = A[0] if r.random() < .5 else g.fe(); c('pt eqx %s %s %s %s' % (pt(A), h32(z1), pt((x, 0)), h32(1)), b(x == A[0]))
            elif k == 12:
                if A: c('pt quady ' + arg, b(O.sqrt(A[1]) is not None))
            elif k == 13:
                X = B if r.random() < .5 and B else (g.fe(), g.fe())
                c('pt valid inf %s %s %s' % (h32(1), big(X), h32(1)), b(O.oncurve(X)) + ' 0')
                c('pt validinf inf %s %s %s' % (h32(1), pt(X), h32(1)), '0 1')
            elif k == 14:
                x = g.fe() if r.random() < .5 or not A else A[0]; o = r.randrange(2); L = O.lift(x, o)
                c('lift %s %d' % (h32(x), o), pt(L) if L else 'no')
                Q = O.lift(x, 0)
                if Q and O.sqrt(Q[1]) is None: Q = O.neg(Q)
                c('xquad %s' % h32(x), pt(Q) if Q else 'no')
                if A and B:
                    f = r.randrange(2); c('pt cmov %s %d' % (arg, f), pt(B if f else A)); c('pt affeq ' + arg, b(A == B))
    if pid in ('C04', 'C07', 'C24'):
        ks = [0, 1, 2, N-1, N-2, N//2] + [1 << (4*j) for j in range(64)] + [15 << (4*j) for j in range(0, 63, 5)]
        ks += [-BLIND, 1 - BLIND, -1 - BLIND, 2 - BLIND, N//2 - BLIND] + [g.sc() - BLIND for _ in range(n // 12)]     # the scalar plus the blind is special
        for k in (ks if pid == 'C04' else ks[:6]) + [g.sc() for _ in range(n // 3)]:
            k %= N
            w = ctx(); c('gen %s %s' % (w, h32(k)), pt(O.gmul(k)))
            if k and r.random() < .3: c('pkfrom %s %s' % (w, h32(k)), full(O.gmul(k)))
    if pid in ('C05', 'C24'):
        for _ in range(n // 3):
            a, d = g.pair(); A = O.gmul(a); na, ng = g.sc(), g.sc(); k = r.random()
            if k < .15: ng = -na*a % N
            elif k < .25: ng = (r.choice((1, 2, 3, N-1)) - na*a) % N
            c('ecmult %s %s %s %s %s' % (ctx(), pt(A), h32(g.z()), h32(na), h32(ng)), pt(O.gmul(na*a + ng)))
    if pid in ('C05', 'C06', 'C07'):
        a = g.nz(); A = O.gmul(a)
        o = [pt(O.gmul((2*i+1)*a)) for i in range(8)]
        c('pt table %s %s inf %s 8' % (pt(A), h32(g.z()), h32(1)), ' '.join(o*2))
    if pid in ('C06', 'C24'):
        for _ in range(n // 3):
            a = g.nz(); A = O.gmul(a); k = g.nz()
            c('ecmultc static %s %s' % (pt(A), h32(k)), pt(O.gmul(a*k)))
    if pid == 'C07':
        c('pre static 0 8', ' '.join(pt(O.gmul(2*i+1)) for i in range(8)))
        for w in ('static', 'boxed'):
            # full comparison in the oracle's arithmetic
            D = O.jdbl(O.jac(G)); D = O.jac(O.aff(D)); t = O.jac(G)
            for s in range(0, 1 << 14, 512):
                c('pre %s %d %d' % (w, s, s + 512), pretab(s))
            for j in range(64): c('prec %s %d' % (w, j), precrow(w, j))
    if pid in ('C08', 'C24', 'C11', 'C23'):
        for _ in range(n // 2):
            m, rr, s, Q, rid = sigcase(g)
            w = ctx()
            if pid != 'C11': c('verify %s %s %s%s %s' % (w, h32(m), h32(rr), h32(s), full(Q)), b(O.verify(m, rr, s, Q)))
            if pid == 'C23':
                c('normalize %s%s' % (h32(rr), h32(s)), h32(rr) + h32(N - s if s > N//2 else s))
                c('verify %s %s %s%s %s' % (w, h32(m), h32(rr), h32(-s % N), full(Q)), b(O.verify(m, rr, s, Q)))
            if pid in ('C11', 'C24'):
                i = rid if r.random() < .6 else r.randrange(4)
                R = O.recover(m, rr, s, i)
                c('recover %s %s %s%s %d' % (w, h32(m), h32(rr), h32(s), i), 'ok ' + full(R) if R else 'err InvalidSignature')
        for v in (0, 1, N//2, N//2+1, N-1): c('normalize %s%s' % (h32(5), h32(v)), h32(5) + h32(N - v if v > N//2 else v))
    if pid in ('C09', 'C10', 'C24'):
        for _ in range(n // 3):
            d, m, k = g.nz(), g.sc(), g.nz()
            if r.random() < .1: m = -O.gmul(k)[0] * d % N
            if r.random() < .08: m = 0
            if r.random() < .3: m = ((g.nz() if r.random() < .7 else r.choice((N//2 - 1, N//2, N//2 + 1, N//2 + 2, 1, N - 1, 2**255, N//2 ^ (1 << r.randrange(250)))))*k - O.gmul(k)[0]*d) % N        # s before the low-s rule is chosen
            w = ctx()
            if pid != 'C10':
                e = O.signraw(d, m, k)
                c('signraw %s %s %s %s' % (w, h32(d), h32(m), h32(k)), 'ok %s%s %d' % (h32(e[0]), h32(e[1]), e[2]) if e else 'err InvalidMessage')
            rr, s, i = O.sign(d, m); M = m + N if m + N < 2**256 and r.random() < .5 else m
            c('sign %s %s %s' % (w, h32(M), h32(d)), '%s%s %d' % (h32(rr), h32(s), i))
    if pid in ('C12', 'C24'):
        for _ in range(n * 2):
            v = g.raw32() % 2**256; ok = 0 < v < N
            k = r.randrange(6)
            if k == 0: c('sk %s' % h32(v), 'ok %s 0' % h32(v) if ok else 'err InvalidSecretKey')
            elif k == 1:
                l = r.choice((0, 1, 31, 32, 32, 33, 64)); bb = (v.to_bytes(32, 'big')*3)[:l]
                vv = int.from_bytes(bb, 'big')
                c('skslice %s' % hx(bb), 'err InvalidInputLength' if l != 32 else 'ok ' + h32(v) if ok else 'err InvalidSecretKey')
            elif k == 2: x = v % N; c('skscalar %s' % h32(v), 'ok ' + h32(x) if x else 'err InvalidSecretKey')
            elif k == 3: c('skdefault', h32(1))
            elif k == 4: x = g.nz(); c('skinv %s' % h32(x), h32(pow(x, -1, N)))
            else: x, y = g.nz(), g.nz(); c('skeq %s %s' % (h32(x), h32(y)), b(x == y))
    if pid in ('C13', 'C24'):
        for _ in range(n):
            l = [r.choice((0, N, N+1, 2**256-1, N + r.randrange(2**256-N))) for _ in range(r.randrange(0, 4))]
            v = r.choice((1, N-1, g.nz())); l.append(v)
            c('random %s' % ''.join(map(h32, l + [g.raw32() % 2**256])), '%s %d' % (h32(v), 32*len(l)))
    if pid in ('C14', 'C15', 'C24'):
        for _ in range(n):
            A = O.gmul(g.nz()); x, y = A; k = r.randrange(9); t = r.choice((4, 4, 6, 7, 6, 7, r.randrange(256)))
            if k == 1: y = P - y
            if k == 2: x, y = g.raw32() % 2**256, g.raw32() % 2**256
            if k == 3: x ^= 1 << r.randrange(256)
            if k == 4: y = g.raw32() % 2**256
            if k == 5: x, y = r.choice(((x + P, y), (0, 0), (x, y + P), (x, (P - y) + P))); x %= 2**256; y %= 2**256
            if k == 6 and pid != 'C15':      # coordinates not below p that would be valid when reduced
                xs = [v for v in range(0, 977) if O.lift(v, 0)]; v = r.choice(xs); L = O.lift(v, r.randrange(2)); x, y = v + P, L[1]
            ok = t in (4, 6, 7) and x < P and y < P and O.oncurve((x, y)) and (t == 4 or (y & 1) == (t == 7))
            if pid != 'C15':
                c('pkparse %02x%s%s' % (t, h32(x), h32(y)), 'ok %s %s' % (full((x, y)), comp((x, y))) if ok else 'err InvalidPublicKey')
                f = r.choice('ncfr'); l = r.choice((33, 64, 65, 65, 64, 33, 32, 0, 66, 1, 128))
                if r.random() < .7: f, l = r.choice((('n', 33), ('n', 64), ('n', 65), ('c', 33), ('r', 64), ('f', 65)))
                if l == 33: bb = bytes.fromhex('%02x%s' % (2 + (y & 1), h32(x)))
                elif l == 64: bb = bytes.fromhex(h32(x) + h32(y))
                else: bb = (bytes.fromhex('%02x%s%s' % (t, h32(x), h32(y)))*3)[:l]
                c('pkslice %s %s' % (f, hx(bb)), sliceexp(f, bb))
                X = r.choice((A, A, (g.fe(), g.fe()), None, (A[0], P - A[1])))
                c('pkaffine %s' % pt(X), 'ok %s %s' % (full(X), pt(X)) if O.oncurve(X) else 'err InvalidAffine')
            if pid != 'C14':
                t = r.choice((2, 3, 2, 3, 2, 3, r.randrange(256))); xx = r.choice((x, x, g.fe(), g.raw32() % 2**256, r.choice(range(977)) + P, P, 5, 0))
                L = O.lift(xx, t & 1) if xx < P and t in (2, 3) else None
                c('pkparsec %02x%s' % (t, h32(xx)), 'ok %s %s' % (full(L), comp(L)) if L else 'err InvalidPublicKey')
    if pid in ('C16', 'C24'):
        for _ in range(n):
            d, t = g.nz(), g.nz(); k = r.random()
            if k < .2: t = N - d
            v = (d + t) % N
            c('skadd %s %s' % (h32(d), h32(t)), 'ok  %s' % h32(v) if v else 'err TweakOutOfRange %s' % h32(d))
            c('skmul %s %s' % (h32(d), h32(t)), 'ok  %s' % h32(d*t % N))
            if k > .95:
                c('skmul %s %s zero' % (h32(d), h32(t)), 'err TweakOutOfRange %s' % h32(d)); c('skadd0 %s' % h32(d), 'ok  %s' % h32(d))
    if pid in ('C17', 'C24'):
        for _ in range(n // 3):
            d, t = g.nz(), g.nz(); k = r.random(); w = ctx(); z = ' zero' if k > .9 else ''
            if k < .2: t = N - d
            elif k < .25: t = d
            tt = 0 if z else t
            v = (d + tt) % N; A = O.gmul(d)
            c('pkadd %s %s %s%s' % (w, full(A), h32(t), z), 'ok  %s' % full(O.gmul(v)) if v else 'err TweakOutOfRange %s' % full(A))
            c('pkmul %s %s %s%s' % (w, full(A), h32(t), z), 'ok  %s' % full(O.gmul(d*tt)) if tt else 'err TweakOutOfRange %s' % full(A))
    if pid in ('C18', 'C24'):
        for _ in range(n):
            l = []; base = [g.pair() for _ in range(2)]
            for _ in range(r.randrange(0, 6) if r.random() < .97 else r.choice((7, 8, 9, 15, 16, 17, 31, 33, 64, 100))): l.append(r.choice(r.choice(base)))
            if r.random() < .3 and l: l.append(-sum(l) % N)
            l = [x for x in l if x]
            if l and r.random() < .2: l.append(N - l[-1]) 
            v = sum(l) % N
            c('combine %s' % ' '.join(full(O.gmul(x)) for x in l), 'ok ' + full(O.gmul(v)) if v else 'err InvalidPublicKey')
    if pid in ('C19', 'C24'):
        for _ in range(n // 3):
            d, e = g.nz(), g.nz(); A = O.gmul(d); B = O.gmul(d*e); w = ctx()
            c('ecdh %s %s %s' % (w, full(A), h32(e)), 'ok ' + hashlib.sha256(bytes.fromhex(comp(B))).hexdigest())
            if r.random() < .2:
                c('ecdh512 x %s %s' % (full(A), h32(e)), 'ok ' + hashlib.sha512(bytes.fromhex(comp(B))).hexdigest())
                c('ecdh %s %s %s zero' % (w, full(A), h32(e)), 'err InvalidSecretKey')
    if pid in ('C20', 'C24'):
        for _ in range(n * 2):
            x, y = g.raw32() % 2**256, g.raw32() % 2**256; k = r.randrange(5); s = h32(x) + h32(y)
            v = ' '.join([h32(x % N) + h32(y % N)]*2)
            if k == 0: c('sigstd ' + s, 'ok ' + v if x < N and y < N else 'err InvalidSignature')
            elif k == 1: c('sigover ' + s, v)
            elif k == 2: c('msg ' + h32(x), h32(x % N) + ' ' + h32(x % N))
            else:
                l = r.choice((0, 31, 32, 33, 63, 64, 64, 65, 128)); bb = (bytes.fromhex(s)*3)[:l]
                if k == 3:
                    c('sigstdslice ' + hx(bb), 'err InvalidInputLength' if l != 64 else 'ok ' + s if x < N and y < N else 'err InvalidSignature')
                    c('sigoverslice ' + hx(bb), 'err InvalidInputLength' if l != 64 else 'ok ' + h32(x % N) + h32(y % N))
                else: c('msgslice ' + hx(bb), 'err InvalidInputLength' if l != 32 else 'ok ' + h32(x % N))
    if pid in ('C21', 'C22', 'C24'):
        for bb in g.bytes:
            if len(bb) > 3: c('der ' + hx(bb), sgx(O.der_strict(bb))); c('derlax ' + hx(bb), sgx(O.der_lax(bb)))
        for _ in range(n * 6):
            bb = derbytes(g)
            if pid != 'C22': c('der ' + hx(bb), sgx(O.der_strict(bb)))
            if pid != 'C21': c('derlax ' + hx(bb), sgx(O.der_lax(bb)))
        for _ in range(n):
            x, y = g.sc(), g.sc(); d = O.der_enc(x, y)
            if pid != 'C22': c('serder %s%s' % (h32(x), h32(y)), '%s %d' % (d.hex(), len(d)))
    if pid in ('C25', 'C24'):
        for v in range(256):
            c('recid %d' % v, 'ok %d %d %d' % (v, v, v) if v < 4 else 'err InvalidRecoveryId')
            c('recidrpc %d' % v, 'ok %d' % (v - 27) if 27 <= v < 31 else 'err InvalidRecoveryId')
    if pid in ('C26', 'C24'):
        for _ in range(n // 4):
            x = g.nz(); A = O.gmul(g.nz()); o = '00'*32
            c('clear scalar ' + h32(x), o); c('clear seckey ' + h32(x), o + ' 1 ' + h32(x)); c('clear field ' + h32(g.fe()), '1 ' + o)
            c('clear affine ' + pt(A), '%s %s 0' % (o, o)); c('clear jacobian %s %s' % (pt(A), h32(g.z())), '%s %s %s 0' % (o, o, o)); c('clear affinf ' + pt(A), '%s %s 0' % (o, o)); c('clear jacinf %s %s' % (pt(A), h32(g.z())), '%s %s %s 0' % (o, o, o))
    if pid in ('C27', 'C24'):
        for _ in range(n):
            x = g.nz(); c('sc hex ' + h32(x), h32(x)); c('skhex ' + h32(x), h32(x))
    if pid in ('C28', 'C24'):
        for _ in range(n):
            A = O.gmul(g.nz()); f = bytes.fromhex(full(A)); js = '"%s"' % base64.b64encode(f).decode()
            c('serjson ' + full(A), js); c('serbin ' + full(A), (65).to_bytes(8, 'little').hex() + full(A))
            bb = r.choice((f, f[1:], bytes.fromhex(comp(A)), f[:-1], f + b'\0', b'', bytes([r.randrange(256)]) + f[1:], f[:r.randrange(66)], f[:-1] + bytes([r.randrange(256)])))
            e = sliceexp('n', bb); e = e if e.startswith('ok') else 'err'
            c('debin ' + (len(bb).to_bytes(8, 'little') + bb).hex(), e)
            t = base64.b64encode(bb).decode(); k = r.random()
            if k < .15: t = t[:-1]; e = 'err' if len(t) % 4 else e
            elif k < .25: t = t[:5] + '!' + t[6:]; e = 'err'
            if not (k < .15 and len(t) == 0): c('dejson ' + ('"%s"' % t).encode().hex(), e)
    return out

def sliceexp(f, bb):
    l = len(bb)
    kind = {65: 'f', 33: 'c', 64: 'r'}.get(l)
    if kind is None or f not in ('n', kind): return 'err InvalidInputLength'
    if kind == 'c':
        x = int.from_bytes(bb[1:], 'big')
        L = O.lift(x, bb[0] & 1) if bb[0] in (2, 3) and x < P else None
        return 'ok ' + full(L) if L else 'err InvalidPublicKey'
    t = 4 if kind == 'r' else bb[0]; bb = bb if kind == 'r' else bb[1:]
    x, y = int.from_bytes(bb[:32], 'big'), int.from_bytes(bb[32:], 'big')
    ok = t in (4, 6, 7) and x < P and y < P and O.oncurve((x, y)) and (t == 4 or (y & 1) == (t == 7))
    return 'ok ' + full((x, y)) if ok else 'err InvalidPublicKey'

def sgx(v): return 'err InvalidSignature' if v is None else 'ok ' + h32(v[0]) + h32(v[1])

def pretab(s):
    D = O.jac(O.aff(O.jdbl(O.jac(G)))); t = O.jgmul(2*s+1); l = []
    js = []
    for _ in range(512): js.append(t); t = O.jadd(t, D)
    # one inversion for the whole block
    pr = [1]
    for j in js: pr.append(pr[-1]*j[2] % P)
    iv = pow(pr[-1], -1, P); out = [None]*len(js)
    for i in reversed(range(len(js))):
        zi = iv*pr[i] % P; iv = iv*js[i][2] % P; z2 = zi*zi % P
        out[i] = (js[i][0]*z2 % P, js[i][1]*z2*zi % P)
    return ' '.join(map(pt, out))
FIRST = {}
def precrow(w, j):
    """row j is U_j + i 16^j G; after the last row of a context the U_j add up to infinity, and both contexts have the same U_j"""
    def ok(o):
        l = [None if x == 'inf' else (int(x[:64], 16), int(x[64:], 16)) for x in o.split()]
        if len(l) != 16 or None in l: return False
        if any((q[1]*q[1] - q[0]**3 - 7) % P or max(q) >= P for q in l): return False
        FIRST[w, j] = l[0]
        if any(l[i] != O.add(l[0], O.gmul(i << 4*j)) for i in range(1, 16)): return False
        other = FIRST.get(('boxed' if w == 'static' else 'static', j))
        if other not in (None, l[0]): return False
        if j == 63:
            s = None
            for i in range(64): s = O.add(s, FIRST[w, i]) if (w, i) in FIRST else s
            return s is None or any((w, i) not in FIRST for i in range(64))
        return True
    return ok

def fieldcase(g):
    r = g.r; b = lambda v: str(int(bool(v)))
    k = r.randrange(12)
    x, y = g.fe(), g.fe()
    def elem(v, mag):
        """program text that leaves v with magnitude up to mag"""
        if mag == 1 or r.random() < .2: return 'b:%s' % h32(v), v, 1
        q = r.randrange(4)
        if q == 0 and mag >= 2: return 'b:%s neg:%d' % (h32(v), mag - 1), -v % P, mag
        if q == 1: return 'b:%s muli:%d' % (h32(v), mag), v*mag % P, mag
        if q == 2 and mag >= 3: w = g.fe(); return 'b:%s neg:%d b:%s add' % (h32(v), mag - 2, h32(w)), (w - v) % P, mag
        l = [r.choice((0, 2*mag*(2**26-1), 2*mag*(2**26-1), r.randrange(2*mag*(2**26-1)+1), 2**26-1, 2**26)) if i < 9 else r.choice((0, 2*mag*(2**22-1), r.randrange(2*mag*(2**22-1)+1), 2**22-1, 2**22)) for i in range(10)]
        if r.random() < .3: l = [max(0, min(2*mag*(2**26-1 if i < 9 else 2**22-1), ((m*P) >> (26*i)) % (2**26 if i < 9 else 2**60) + r.choice((0, 0, 0, 1)))) for m in (r.randrange(1, max(2, mag)),) for i in range(10)]
        return 'raw:%d,%s' % (mag, ','.join(map(str, l))), sum(v << 26*i for i, v in enumerate(l)) % P, mag
    if k < 3:
        m = r.choice((1, 2, 8, 8, r.randrange(1, 9))); e, v, _ = elem(x, m); f, w, _ = elem(y, m)
        return ('fe %s %s mul' % (e, f), h32(v*w % P)) if k else ('fe %s sqr' % e, h32(v*v % P))
    if k < 6:
        m = r.choice((1, 2, 3, 30, 31, r.randrange(1, 32))); e, v, _ = elem(r.choice((0, x, 1, P-1)), m); op = ('norm', 'normv', 'weak')[k-3]
        if op == 'weak': return 'fe %s weak' % e, h32(v)
        return 'fe %s %s zero odd b32' % (e, op), '%s %s %s %s' % (b(v == 0), b(v & 1), h32(v), h32(v))
    if k == 6:
        m = r.randrange(1, 31); z = r.randrange(3)
        if z == 0:
            v = x; m = min(m, 13); e = 'b:%s dup neg:%d add muli:%d' % (h32(x), 1, 1); v = 0; 
        else: e, v, _ = elem(r.choice((0, x)), m)
        return 'fe %s nz nzv' % e, '%s %s %s' % (b(v == 0), b(v == 0), h32(v))
    if k == 7:
        e, v, m = elem(x, r.randrange(1, 8)); f, w, _ = elem(r.choice((x, y)), r.randrange(1, 8))
        return 'fe %s norm %s eqv' % (e, f), '%s %s' % (b(v == w), h32(w))
    if k == 8: 
        q = x * x % P if r.random() < .5 else x; s = O.sqrt(q)
        if r.random() < .5: return 'fe b:%s quad' % h32(q), '%s %s' % (b(s is not None), h32(q))
        def okf(o, q=q, s=s):
            p = o.split(); v = int(p[1], 16)
            return p[0] == b(s is not None) and (s is None or v*v % P == q)
        return 'fe b:%s sqrt' % h32(q), okf
    if k == 9: e, v, m = elem(x, r.randrange(1, 9)); op = r.choice(('inv', 'invv')); return 'fe %s %s' % (e, op), h32(pow(v, -1, P) if v else 0)
    if k == 10:
        w = g.raw32() % 2**256
        if r.random() < .5: return 'fe set:%s' % h32(w), '%s %s' % (b(w < P), h32(w if w < P else 0))
        f = r.randrange(2)
        return 'fe b:%s b:%s %s:%d' % (h32(x), h32(y), r.choice(('cmov', 'stocmov')), f), h32(y if f else x)
    z = r.choice((y, x, (x + 1) % P, (x + (1 << 26*r.randrange(10))) % P))
    return 'fe b:%s norm b:%s norm cmp eq' % (h32(x), h32(z)), '%d %s %s' % ((x > z) - (x < z), b(x == z), h32(z))

def sigcase(g):
    r = g.r; k = r.randrange(12); m = g.sc()
    if k < 4:
        d = g.nz(); kk = g.nz(); x = O.signraw(d, m, kk); Q = O.gmul(d)
        if not x: x = (1, 1, 0)
        rr, s, rid = x
        if k == 1: s = N - s; rid ^= 1
        if k == 2: rr, s, m = [(v + (r.random() < .4)*r.choice((1, N-1, 1 << r.randrange(256)))) % N for v in (rr, s, m)]
        if k == 3: d = g.nz(); Q = O.gmul(d)
        return m, rr, s, Q, rid
    if k < 9:
        # an arbitrary point R, in particular with x >= n, or x just above or below the bounds
        while True:
            x = r.choice((N + r.randrange(P - N), N + r.randrange(60), P - 1 - r.randrange(60), P - N + r.randrange(-50, 50), r.randrange(P), r.randrange(1, 50), N - 1 - r.randrange(50), g.fe()))
            odd = r.randrange(2); R = O.lift(x % P, odd)
            if R: break
        u1, u2 = g.sc(), g.nz()
        Q = O.dmul(pow(u2, -1, N), R, -u1*pow(u2, -1, N))
        rr = R[0] % N
        if r.random() < .2: rr = (R[0] + r.choice((P - N, N - P, -(P - N)*2, 1))) % N      # the abscissa of R only up to a wrong reduction
        if Q and rr:
            s = rr * pow(u2, -1, N) % N; m = u1*s % N
            return m, rr, s, Q, (2 if R[0] >= N else 0) | odd
    if k == 9 and r.random() < .5:      # the recovered key is infinity
        kk = g.nz(); R = O.gmul(kk); s = g.nz(); rr = R[0] % N
        if rr: return s*kk % N, rr, s, O.gmul(g.nz()), (2 if R[0] >= N else 0) | (R[1] & 1)
    if k == 9:      # the sum is infinity
        d = g.nz(); rr = g.nz(); s = g.nz(); return -rr*d % N, rr, s, O.gmul(d), r.randrange(4)
    if k == 10: return m, r.choice((0, g.sc())), r.choice((0, g.sc())), O.gmul(g.nz()), r.randrange(4)
    return m, g.sc(), g.sc(), O.gmul(g.nz()), r.randrange(4)

def derbytes(g):
    r = g.r
    def intb():
        k = r.randrange(12); v = g.sc()
        if k == 0: v = N + r.randrange(3)
        if k == 1: v = r.getrandbits(r.choice((255, 256, 257, 263, 264, 265, 520, 1100)))
        bb = v.to_bytes((v.bit_length() + 8)//8 or 1, 'big')
        if k == 2: bb = bb.lstrip(b'\0') or b'\0'
        if k == 3: bb = b'\0'*r.randrange(1, 4) + bb
        if k == 4: bb = b''
        if k == 5: bb = b'\0'
        if k == 6: bb = bytes([r.choice((0xff, 0x80, 0x7f, 0))]) + bb[:r.randrange(0, len(bb) + 1)]
        return bb
    def ln(n, wild=.12):
        if r.random() < wild:
            q = r.randrange(6)
            if q == 0: n = max(0, n + r.choice((-1, 1, 2, -2)))
            if q == 1: return bytes([0x81, n & 255])
            if q == 2: return bytes([0x82, n >> 8 & 255, n & 255])
            if q == 3: return bytes([0x80])
            if q == 4: k = r.choice((3, 4, 7, 8, 9, 16, 126)); return bytes([0x80 | k]) + n.to_bytes(k, 'big')
            if q == 5: return bytes([r.randrange(256)]) + bytes(r.randrange(256) for _ in range(r.randrange(3)))
        if n < 128: return bytes([n])
        bl = n.to_bytes((n.bit_length() + 7)//8, 'big'); return bytes([0x80 | len(bl)]) + bl
    wild = r.choice((0, 0, .1, .3)); longer = r.choice((0, 0, .4))
    def lf(n):
        if r.random() < longer: k = (n.bit_length() + 7)//8 + (r.random() < .3); return bytes([0x80 | k]) + n.to_bytes(k, 'big')
        return ln(n, 0)
    def one(): bb = intb(); return bytes([2 if r.random() > .02 else r.randrange(256)]) + ln(len(bb), wild) + bb
    body = one() + one() + (b'' if r.random() < .9 else bytes(r.randrange(256) for _ in range(r.randrange(1, 150))))
    if r.random() < .03: body = one()
    if r.random() < .1:      # canonical encodings with a length at the edge of a form
        t = r.choice((125, 126, 127, 128, 129, 130, 252, 253, 254, 255, 256, 257, 258, 260, 65535, 65536)[:14 if r.random() < .9 else 16])
        a = r.randrange(1, 128).to_bytes(1, 'big') + bytes(r.randrange(256) for _ in range(r.choice((0, 3, 31))))
        head = b'\2' + ln(len(a), 0) + a; q = t if r.random() < .4 else t - len(head) - 1 - len(ln(t, 0))
        z = bytes([r.randrange(1, 128)]) + bytes(r.randrange(256) for _ in range(max(q, 1) - 1)); z = b'\2' + lf(len(z)) + z
        body = head + z if r.random() < .7 else z + head; return b'\x30' + lf(len(body)) + body
    d = bytes([0x30 if r.random() > .02 else r.randrange(256)]) + ln(len(body), wild) + body
    k = r.random()
    if k < .1: d = d[:r.randrange(len(d) + 1)]
    elif k < .15: i = r.randrange(len(d)); d = d[:i] + bytes([r.randrange(256)]) + d[i+1:]
    return d

class Runner:
    def __init__(s, exe): s.exe = exe
    def run(s, cmds, limit=120):
        """outputs of all commands; a command that does not answer within the limit answers HANG"""
        out = []
        while len(out) < len(cmds):
            f = tempfile.TemporaryFile('w+'); f.write('\n'.join(cmds[len(out):]) + '\n'); f.seek(0)
            p = subprocess.Popen([s.exe], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            buf = b''; fd = p.stdout.fileno(); last = time.time(); dead = False
            while True:
                rd, _, _ = select.select([fd], [], [], 1)
                if rd:
                    d = os.read(fd, 1 << 16)
                    if not d: break
                    buf += d; last = time.time()
                elif time.time() - last > limit: dead = True; break
            p.kill(); p.wait(); f.close()
            lines = buf.decode('utf8', 'replace').split('\n')[:-1]
            out += lines
            if len(out) < len(cmds): out.append('HANG' if dead else 'CRASH')
        return out

SIZES = {'quick': 400, 'thorough': 2500}
def check(pid, tier, seed, fails, exe=None, size=None):
    import build
    harvest = []
    for _, o in fails:
        e = (o.get('env') or {}) if isinstance(o, dict) else {}
        for k in ('input', 'model'):
            if isinstance(e.get(k), dict): harvest.append(e[k])
    t0 = time.time()
    exe = exe or build.harness()
    n = size or (SIZES[tier] * (10 if fails else 1))
    if pid == 'C24': n = max(20, n // 4)
    rn = Runner(exe); failures = []; total = 0; samples = []
    rounds = 0; deadline = time.time() + (150 if tier == 'quick' else 1500)
    chunk = 400
    while total == 0 or (n > 0 and time.time() < deadline):
        k = min(n, chunk); n -= k
        cs = cases(pid, Gen(seed * 1000 + rounds, harvest), max(k, 12)); rounds += 1
        outs = rn.run([c for c, _ in cs], 60)
        for (cmd, exp), o in zip(cs, outs):
            ok = (exp(o) if callable(exp) and not o.startswith(('PANIC', 'HANG', 'CRASH')) else o == exp)
            if not ok: failures.append(dict(property=pid, command=cmd, expected='(predicate)' if callable(exp) else exp, actual=o))
        total += len(cs)
        if rounds == 1: samples = ['%s -> %s' % (c[:160], o[:160]) for (c, _), o in list(zip(cs, outs))[:5]]
        if failures or pid in ('C25', 'C07'): break
    return dict(failures=failures[:50], evaluations=total, samples=samples, summary=dict(cases=total, seconds=round(time.time() - t0, 1), harvested=len(harvest)))

def replay(path):
    import build
    d = json.load(open(path)); l = d.get('native_failures') or []
    if not l: print('no failing input recorded; failed obligations:'); [print(' ', o['unit'], o['desc'][:200]) for o in d['failed_obligations']]; return 1
    out = Runner(build.harness()).run([x['command'] for x in l]); bad = 0
    for x, o in zip(l, out):
        same = o != x['expected']; bad += same
        print('%s\n  expected %s\n  actual   %s%s' % (x['command'], x['expected'], o, '' if same else '   (no longer failing)'))
    return 1 if bad else 0

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    import build
    for pid in sys.argv[1].split(','):
        t = time.time()
        r = check(pid, 'quick', int(os.environ.get('VERIF_SEED', 1)), [], exe=os.path.join(build.BUILD, 'native/debug/harness'), size=int(sys.argv[2]) if len(sys.argv) > 2 else None)
        print(pid, r['evaluations'], 'cases', round(time.time() - t, 1), 's', len(r['failures']), 'failures', [(f['command'][:300], f['expected'][:200], f['actual'][:200]) for f in r['failures'][:3]])
