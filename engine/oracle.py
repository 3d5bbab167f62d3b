"""Big-integer reference semantics of secp256k1 (used only to search for concrete failing inputs)."""
import hashlib, hmac as _hmac
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
G = (GX, GY)
LAM = 0x5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72

def jdbl(a):
    x, y, z = a
    if z == 0: return a
    s = 4*x*y*y % P; m = 3*x*x % P
    x3 = (m*m - 2*s) % P
    return x3, (m*(s - x3) - 8*pow(y, 4, P)) % P, 2*y*z % P
def jadd(a, b):
    if a[2] == 0: return b
    if b[2] == 0: return a
    z1, z2 = a[2]*a[2] % P, b[2]*b[2] % P
    u1, u2 = a[0]*z2 % P, b[0]*z1 % P
    s1, s2 = a[1]*z2*b[2] % P, b[1]*z1*a[2] % P
    if u1 == u2: return jdbl(a) if s1 == s2 else (1, 1, 0)
    h = u2 - u1; r = s2 - s1; h2 = h*h % P; h3 = h*h2 % P; v = u1*h2 % P
    x3 = (r*r - h3 - 2*v) % P
    return x3, (r*(v - x3) - s1*h3) % P, h*a[2]*b[2] % P
def aff(j):
    if j[2] == 0: return None
    zi = pow(j[2], -1, P); z2 = zi*zi % P
    return j[0]*z2 % P, j[1]*z2*zi % P
def jac(a): return (1, 1, 0) if a is None else (a[0], a[1], 1)
def add(a, b): return aff(jadd(jac(a), jac(b)))
def neg(a): return None if a is None else (a[0], -a[1] % P)
_T = []
def gtab():
    if not _T:
        b = jac(G)
        for j in range(64):
            row = [(1, 1, 0)]
            for i in range(15): row.append(jac(aff(jadd(row[-1], b))))
            _T.append(row); b = jac(aff(jadd(row[15], b)))
    return _T
def jgmul(k):
    k %= N; r = (1, 1, 0); t = gtab()
    for j in range(64): r = jadd(r, t[j][(k >> (4*j)) & 15])
    return r
def jmul(k, a):
    k %= N; r = (1, 1, 0); b = jac(a)
    t = [(1, 1, 0), b]
    for i in range(14): t.append(jadd(t[-1], b))
    for j in reversed(range(64)):
        for _ in range(4): r = jdbl(r)
        r = jadd(r, t[(k >> (4*j)) & 15])
    return r
_GM = {}
def gmul(k):
    k %= N
    if k not in _GM: _GM[k] = aff(jgmul(k))
    return _GM[k]
def mul(k, a): return aff(jmul(k, a))
def dmul(na, a, ng): return aff(jadd(jmul(na, a) if a else (1, 1, 0), jgmul(ng)))
def sqrt(a):
    r = pow(a, (P+1)//4, P)
    return r if r*r % P == a % P else None
def lift(x, odd):
    r = sqrt(pow(x, 3, P) + 7)
    if r is None: return None
    return x, r if r & 1 == odd else (P - r) % P
def oncurve(a): return a is not None and (a[1]*a[1] - pow(a[0], 3, P) - 7) % P == 0

def verify(m, r, s, Q):
    if not (0 < r < N and 0 < s < N): return False
    w = pow(s, -1, N)
    R = dmul(w*r, Q, w*m)
    return R is not None and R[0] % N == r
def recover(m, r, s, rid):
    if r == 0 or s == 0: return None
    x = r + (N if rid & 2 else 0)
    if x >= P: return None
    R = lift(x, rid & 1)
    if R is None: return None
    ri = pow(r, -1, N)
    return dmul(ri*s, R, -ri*m)
def drbg(key, msg):
    h = lambda k, d: _hmac.new(k, d, hashlib.sha256).digest()
    K, V = b'\0'*32, b'\1'*32
    sd = key.to_bytes(32, 'big') + msg.to_bytes(32, 'big')
    K = h(K, V + b'\0' + sd); V = h(K, V); K = h(K, V + b'\1' + sd); V = h(K, V)
    while True:
        V = h(K, V); yield int.from_bytes(V, 'big')
        K = h(K, V + b'\0'); V = h(K, V)
def signraw(d, m, k):
    R = gmul(k); r = R[0] % N
    rid = (2 if R[0] >= N else 0) | (R[1] & 1)
    s = pow(k, -1, N) * (r*d + m) % N
    if s == 0: return None
    if s > N//2: s = N - s; rid ^= 1
    return r, s, rid
def sign(d, m):
    for k in drbg(d, m):
        if 0 < k < N:
            x = signraw(d, m, k)
            if x: return x

# ---------------------------------------------------------------- codecs
def der_len(b, i):
    """(length, next index) of a definite shortest length, or None"""
    if i >= len(b): return None
    c = b[i]; i += 1
    if c < 0x80: return c, i
    k = c & 0x7f
    if c in (0x80, 0xff) or i + k > len(b): return None
    v = int.from_bytes(b[i:i+k], 'big')
    if b[i] == 0 or v < 128: return None
    return v, i + k
def der_int(b, i):
    if i >= len(b) or b[i] != 2: return None
    l = der_len(b, i+1)
    if l is None: return None
    n, i = l
    if n == 0 or i + n > len(b): return None
    c = b[i:i+n]
    if c[0] & 0x80: return None
    if n > 1 and c[0] == 0 and not c[1] & 0x80: return None
    v = int.from_bytes(c, 'big')
    return (v if v < N else 0), i + n
def der_strict(b):
    if len(b) < 1 or b[0] != 0x30: return None
    l = der_len(b, 1)
    if l is None or l[0] != len(b) - l[1]: return None
    r = der_int(b, l[1])
    if r is None: return None
    s = der_int(b, r[1])
    if s is None or s[1] != len(b): return None
    return r[0], s[0]
def lax_int(b, i):
    if i >= len(b) or b[i] != 2: return None
    i += 1
    if i >= len(b): return None
    c = b[i]; i += 1
    if c & 0x80:
        k = c & 0x7f
        if i + k > len(b): return None
        while k and b[i] == 0: i += 1; k -= 1
        if k >= 8: return None
        n = int.from_bytes(b[i:i+k], 'big'); i += k
    else: n = c
    if i + n > len(b): return None
    v = int.from_bytes(b[i:i+n], 'big')
    return (v if v < N else 0), i + n
def der_lax(b):
    if len(b) < 1 or b[0] != 0x30: return None
    if len(b) < 2: return None
    i = 2
    if b[1] & 0x80:
        i += b[1] & 0x7f
        if i > len(b): return None
    r = lax_int(b, i)
    if r is None: return None
    s = lax_int(b, r[1])
    if s is None: return None
    return r[0], s[0]
def der_enc(r, s):
    def I(v):
        b = v.to_bytes((v.bit_length() + 8)//8 or 1, 'big')
        return b'\x02' + bytes([len(b)]) + b
    c = I(r) + I(s)
    return b'\x30' + bytes([len(c)]) + c
