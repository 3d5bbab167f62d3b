"""Trusted models of the parts of core/alloc/std that the verified code calls (the trusted base), plus
compiler intrinsics.  Everything else from std is executed from its own MIR."""
import re
import terms as T
from terms import V, Unsupported, add, sub, mul, neg, scale, eq, ne, lt, le, gt, ge, bnot, band, bor, ite, mod, fdiv
from exec import L, E, Slot, View, FnVal, Opaque, UN, Alt, NONE, copyval, veqi, LazyArr

B = []
def builtin(pat):
    def d(f):
        B.append((re.compile(pat), f)); return f
    return d

UNIT = lambda: L([])
def some(v): return E([1, v])
def none(): return E([0])

def tyof(ex, fn, i=0): return ex.ty(fn.args[i]['ty'])

# ---- ranges
@builtin(r"iter::range::<impl std::iter::Iterator for std::ops::Range<\w+>>::next$|^<std::ops::Range<\w+> as std::iter::Iterator>::next$|iter::range::<impl core::iter::Iterator for .*Range<\w+>>::next$")
def range_next(ex, fn, a):
    r = a[0].l[a[0].i]
    st, en = r[0], r[1]
    def yes():
        ex.wr(r, 0, add(st, 1)); return some(st)
    return Alt([(lt(st, en), yes), (ge(st, en), none)])

@builtin(r"^<std::iter::Rev<std::ops::Range<\w+>> as std::iter::Iterator>::next$")
def revrange_next(ex, fn, a):
    r = a[0].l[a[0].i][0]
    st, en = r[0], r[1]
    def yes():
        e = sub(en, 1)
        ex.wr(r, 1, e); return some(e)
    return Alt([(lt(st, en), yes), (ge(st, en), none)])

@builtin(r"RangeInclusive<\w+> as std::iter::Iterator>::next$|Iterator for std::ops::RangeInclusive<\w+>>::next$")
def rangeinc_next(ex, fn, a):
    r = a[0].l[a[0].i]      # start, end, exhausted
    st, en, exh = r[0], r[1], r[2]
    def mid(): ex.wr(r, 0, add(st, 1)); return some(st)
    def last(): ex.wr(r, 2, 1); return some(st)
    return Alt([(band(bnot(exh), lt(st, en)), mid), (band(bnot(exh), eq(st, en)), last), (bor(exh, gt(st, en)), none)])

@builtin(r"as std::iter::IntoIterator>::into_iter$")
def into_iter(ex, fn, a):
    if isinstance(a[0], VecV): return mkiter(View(a[0].buf, 0, len(a[0].buf)))
    t = fn.name
    if re.search(r"Range|Rev|Enumerate|slice::Iter|Skip|Take|Zip|StepBy|Map<|Chunks", t) and not t.startswith('<&'): return a[0]
    return NotImplemented

@builtin(r"Iterator>::rev$")
def rev(ex, fn, a): return L([a[0]])

# ---- slices
@builtin(r"core::slice::<impl \[.*\]>::len$")
def slen(ex, fn, a): return vlen(a[0])
@builtin(r"core::slice::<impl \[.*\]>::is_empty$")
def sempty(ex, fn, a): return eq(vlen(a[0]), 0)

def vlen(v):
    if isinstance(v, View): return v.n
    raise Unsupported('len of %r' % (v,))

def asview(ex, v):
    if isinstance(v, View): return v
    if isinstance(v, Slot):
        x = v.l[v.i]
        from exec import Abs
        if isinstance(x, Abs): x = ex.concretize(v.l, v.i, x)
        if isinstance(x, VecV): return View(x.buf, 0, len(x.buf))
        if isinstance(x, L): return View(x, 0, len(x))
    raise Unsupported('not a slice: %r' % (v,))

class SliceIter(L):
    pass

def iterval(v): return L([v.l, v.start, add(v.start, v.n)])

class ListBox:
    """opaque holder for a list pointer inside iterator values (not copied)"""
    __slots__ = ('l',)
    def __init__(s, l): s.l = l

def mkiter(v): return L([View(v.l, 0, 0), v.start, add(v.start, v.n)])

@builtin(r"core::slice::<impl \[.*\]>::iter(_mut)?$|slice::iter::<impl std::iter::IntoIterator for &.*\[.*\]>::into_iter$|array::<impl std::iter::IntoIterator for &.*\[.*\]>::into_iter$|^<&(mut )?\[.*\] as std::iter::IntoIterator>::into_iter$")
def siter(ex, fn, a): return mkiter(asview(ex, a[0]))

@builtin(r"^<std::slice::Iter(Mut)?<'_, .*> as std::iter::Iterator>::next$")
def siter_next(ex, fn, a):
    it = a[0].l[a[0].i]
    l, p, e = it[0].l, it[1], it[2]
    def yes():
        ex.wr(it, 1, add(p, 1)); return some(Slot(l, p))
    return Alt([(lt(p, e), yes), (ge(p, e), none)])

@builtin(r"^<std::slice::Iter(Mut)?<'_, .*> as std::iter::(DoubleEndedIterator|Iterator)>::next_back$|^<std::iter::Rev<std::slice::Iter(Mut)?<'_, .*>> as std::iter::Iterator>::next$")
def siter_back(ex, fn, a):
    it = a[0].l[a[0].i]
    if len(it) == 1: it = it[0]
    l, p, e = it[0].l, it[1], it[2]
    def yes():
        e1 = sub(e, 1)
        ex.wr(it, 2, e1); return some(Slot(l, e1))
    return Alt([(lt(p, e), yes), (ge(p, e), none)])

@builtin(r"^<std::slice::Iter(Mut)?<'_, .*> as std::iter::Iterator>::__iterator_get_unchecked$")
def siter_at(ex, fn, a):
    it = a[0].l[a[0].i]; return Slot(it[0].l, add(it[1], a[1]))
@builtin(r"^<std::slice::Iter(Mut)?<'_, .*> as std::iter::Iterator>::size_hint$|^<std::slice::Iter(Mut)?<'_, .*> as std::iter::ExactSizeIterator>::len$|^<std::slice::Iter(Mut)?<'_, .*> as std::iter::Iterator>::count$")
def siter_size(ex, fn, a):
    it = a[0].l[a[0].i] if isinstance(a[0], Slot) else a[0]; n = sub(it[2], it[1])
    return L([n, some(n)]) if fn.name.endswith('size_hint') else n

@builtin(r"^vt_more$")
def vt_more(ex, fn, a):
    it = a[0].l[a[0].i]
    return lt(it[1], it[2])

@builtin(r"^vt_take$")
def vt_take(ex, fn, a):
    it = a[0].l[a[0].i]; p = it[1]
    ex.wr(it, 1, add(p, 1)); return Slot(it[0].l, p)

@builtin(r"^vt_some$")
def vt_some(ex, fn, a): return some(a[0])
@builtin(r"^vt_none$")
def vt_none(ex, fn, a): return none()
@builtin(r"^vt_inc$")
def vt_inc(ex, fn, a): return add(a[0], 1)

@builtin(r"Iterator>::enumerate$")
def enumerate_(ex, fn, a): return L([a[0], 0])

@builtin(r"^<std::iter::Enumerate<std::slice::Iter(Mut)?<'_, .*>> as std::iter::Iterator>::next$")
def enum_next(ex, fn, a):
    en = a[0].l[a[0].i]
    it, c = en[0], en[1]
    l, p, e = it[0].l, it[1], it[2]
    def yes():
        ex.wr(it, 1, add(p, 1)); ex.wr(en, 1, add(c, 1)); return some(L([c, Slot(l, p)]))
    return Alt([(lt(p, e), yes), (ge(p, e), none)])

SEQIT = r"(?:std::slice::Iter(?:Mut)?<'_, .*>|std::vec::IntoIter<.*>)"
@builtin(r"Iterator>::zip::")
def zip_(ex, fn, a):
    m = re.match(r"^<(?:std::slice::Iter(?:Mut)?<'_, .*>|std::vec::IntoIter<.*>) as std::iter::Iterator>::zip::<(.*)>$", fn.name)
    b = a[1]
    if not m or not re.match(r"&|std::slice::Iter(Mut)?<|std::vec::(IntoIter|Vec)<", m.group(1)): return NotImplemented
    if isinstance(b, VecV): b = mkiter(View(b.buf, 0, len(b.buf)))
    if isinstance(b, (View, Slot)): b = mkiter(asview(ex, b))
    return L([a[0], b])

def zip_elems(fn):
    """by value or by reference, for each side"""
    m = re.match(r"^<(?:std::iter::Rev<)?std::iter::Zip<(std::slice::Iter|std::vec::IntoIter).*, (std::slice::Iter|std::vec::IntoIter)", fn.name)
    def get(k):
        if m.group(k).startswith('std::slice'): return Slot
        def val(l, p):
            if not isinstance(p, int): raise Unsupported('symbolic position in a vector')
            return copyval(l[p])
        return val
    return get(1), get(2)

@builtin(r"^<std::iter::Zip<" + SEQIT + ", " + SEQIT + "> as std::iter::Iterator>::next$")
def zip_next(ex, fn, a):
    z = a[0].l[a[0].i]
    i, j = z[0], z[1]
    f, g = zip_elems(fn)
    def yes():
        ex.wr(i, 1, add(p, 1)); ex.wr(j, 1, add(q, 1)); return some(L([f(i[0].l, p), g(j[0].l, q)]))
    p, q = i[1], j[1]
    c = band(lt(p, i[2]), lt(q, j[2]))
    return Alt([(c, yes), (bnot(c), none)])

@builtin(r"^<std::iter::Rev<std::iter::Zip<" + SEQIT + ", " + SEQIT + r">> as std::iter::Iterator>::next$|^<std::iter::Zip<" + SEQIT + ", " + SEQIT + "> as std::iter::DoubleEndedIterator>::next_back$")
def zip_back(ex, fn, a):
    z = a[0].l[a[0].i]
    if len(z) == 1: z = z[0]
    i, j = z[0], z[1]
    n, m = sub(i[2], i[1]), sub(j[2], j[1])
    k = n if n is m or n == m else min(n, m) if isinstance(n, int) and isinstance(m, int) else None
    if k is None: raise Unsupported('zip of slices of different symbolic lengths from the back')
    f, g = zip_elems(fn)
    def yes():
        p, q = add(i[1], sub(k, 1)), add(j[1], sub(k, 1))
        ex.wr(i, 2, p); ex.wr(j, 2, q); return some(L([f(i[0].l, p), g(j[0].l, q)]))
    return Alt([(gt(k, 0), yes), (le(k, 0), none)])

def sub_view(ex, v, st, en):
    ex.oblige(band(band(ge(st, 0), le(st, en)), le(en, v.n)), 'panic', 'slice range in bounds')
    return View(v.l, add(v.start, st), sub(en, st))

@builtin(r"(Index|IndexMut)<std::ops::Range(From|To|Full|Inclusive|ToInclusive)?(<usize>)?> for \[.*\]>::index(_mut)?$|^<\[.*\] as std::ops::Index(Mut)?<std::ops::Range.*>::index(_mut)?$")
def index_range(ex, fn, a):
    v = asview(ex, a[0]); r = a[1]
    n = fn.name
    if 'RangeFull' in n: return View(v.l, v.start, v.n)
    if 'RangeFrom' in n: return sub_view(ex, v, r[0], v.n)
    if 'RangeToInclusive' in n: return sub_view(ex, v, 0, add(r[0], 1))
    if 'RangeTo' in n: return sub_view(ex, v, 0, r[0])
    if 'RangeInclusive' in n: return sub_view(ex, v, r[0], add(r[1], 1))
    return sub_view(ex, v, r[0], r[1])

@builtin(r"core::slice::<impl \[.*\]>::get(_mut)?::<usize>$")
def sget(ex, fn, a):
    v = asview(ex, a[0]); i = a[1]
    return Alt([(lt(i, v.n), lambda: some(Slot(v.l, add(v.start, i)))), (ge(i, v.n), none)])

@builtin(r"core::slice::<impl \[.*\]>::get(_mut)?::<std::ops::Range(From|To)?<usize>>$")
def sgetr(ex, fn, a):
    v = asview(ex, a[0]); r = a[1]
    st, en = (r[0], v.n) if 'RangeFrom' in fn.name else (0, r[0]) if 'RangeTo' in fn.name else (r[0], r[1])
    c = band(le(st, en), le(en, v.n))
    return Alt([(c, lambda: some(View(v.l, add(v.start, st), sub(en, st)))), (bnot(c), none)])

@builtin(r"core::slice::<impl \[.*\]>::split_at(_mut)?$")
def split_at(ex, fn, a):
    v = asview(ex, a[0])
    return L([sub_view(ex, v, 0, a[1]), sub_view(ex, v, a[1], v.n)])

@builtin(r"core::slice::<impl \[.*\]>::(copy|clone)_from_slice$")
def copy_from_slice(ex, fn, a):
    d, s = asview(ex, a[0]), asview(ex, a[1])
    ex.oblige(eq(d.n, s.n), 'panic', 'copy_from_slice lengths equal')
    n = d.n if isinstance(d.n, int) else s.n
    if not isinstance(n, int) or not isinstance(d.start, int):
        return ex.symcopy(d, s)
    vals = [ex.load(s.l, add(s.start, k)) for k in range(n)]
    for k in range(n): ex.wr(d.l, d.start + k, vals[k])
    return UNIT()

@builtin(r"core::slice::<impl \[.*\]>::(last|last_mut|first|first_mut)$")
def slast(ex, fn, a):
    v = asview(ex, a[0])
    i = sub(v.n, 1) if '::last' in fn.name else 0
    return Alt([(gt(v.n, 0), lambda: some(Slot(v.l, add(v.start, i)))), (le(v.n, 0), none)])

@builtin(r"core::slice::<impl \[.*\]>::(as_ptr|as_mut_ptr)$")
def asptr(ex, fn, a):
    v = asview(ex, a[0]); return Slot(v.l, v.start)

@builtin(r"core::slice::<impl \[.*\]>::fill$")
def sfill(ex, fn, a):
    v = asview(ex, a[0])
    for k in range(v.n): ex.wr(v.l, v.start+k, copyval(a[1]))
    return UNIT()

@builtin(r"std::array::<impl \[.*\]>::as_slice$|slice::<impl .*AsRef<\[.*\]> for \[.*\]>::as_ref$|<impl std::convert::AsRef<\[.*\]> for \[.*\]>::as_ref$|<impl std::convert::AsMut<\[.*\]> for \[.*\]>::as_mut$")
def as_slice(ex, fn, a): return asview(ex, a[0])

@builtin(r"impl std::convert::TryFrom<&.*\[.*\]> for &?(mut )?\[.*\]>::try_from$")
def arr_try_from(ex, fn, a):
    v = asview(ex, a[0])
    m = re.search(r"for (&?)(mut )?\[.*; (\d+)\]>::try_from", fn.name)
    if not m: raise Unsupported('array try_from ' + fn.name)
    n = int(m.group(3))
    ok = (lambda: E([0, View(v.l, v.start, n, True)])) if m.group(1) else (lambda: E([0, ex.load(View(v.l, v.start, n), None)]))
    return Alt([(eq(v.n, n), ok), (ne(v.n, n), lambda: E([1, L([L([])])]))])

# ---- arrays
@builtin(r"std::array::<impl std::default::Default for \[.*\]>::default$")
def arr_default(ex, fn, a):
    rt = ex.ty(fn.locals[0])
    elem = ex.p.typename[rt['elem']]
    from mir import canon
    d = ex.p.find('<%s as Default>::default' % canon(elem))
    et = ex.ty(rt['elem'])
    if d is None and et['k'] == 'int': return L([0]*rt['len'])
    if d is None: raise Unsupported('array default ' + elem)
    out = L()
    for _ in range(rt['len']):
        r = ex.callfn(d, [])
        list.append(out, copyval(r[1]))
    return out

@builtin(r"std::array::equality::<impl std::cmp::PartialEq for \[\w+; .*\]>::(eq|ne)$|std::array::equality::<impl std::cmp::PartialEq<\[\w+\]> for .*>::(eq|ne)$|core::slice::cmp::<impl std::cmp::PartialEq(<\[\w+\]>)? for \[\w+\]>::(eq|ne)$")
def arr_eq(ex, fn, a):
    x, y = asview(ex, a[0]), asview(ex, a[1])
    if not (isinstance(x.n, int) and isinstance(y.n, int)): raise Unsupported('slice eq')
    if x.n != y.n: r = 0
    else: r = T.ball([eq(ex.load(x.l, add(x.start, k)), ex.load(y.l, add(y.start, k))) for k in range(x.n)])
    return bnot(r) if fn.name.endswith('ne') else r

# ---- integers
def width(fn):
    m = re.search(r"<impl (u|i)(\d+|size)>", fn.name)
    return ({'size': 64}.get(m.group(2)) or int(m.group(2))), m.group(1) == 'i'

@builtin(r"core::num::<impl \w+>::(wrapping_\w+|overflowing_(add|sub|mul)|to_(be|le|ne)_bytes|from_(be|le|ne)_bytes|max_value|min_value|checked_(add|sub|mul)|saturating_(add|sub)|is_power_of_two|abs|pow|unsigned_abs|leading_zeros|trailing_zeros|count_ones|rotate_left|rotate_right|swap_bytes|abs_diff|signum|is_negative|is_positive|rem_euclid|div_euclid)$")
def num(ex, fn, a):
    bits, sg = width(fn)
    op = fn.name.rsplit('::', 1)[1]
    t = {'k': 'int', 'bits': bits, 'signed': sg}
    if op.startswith('wrapping_'):
        o = op[9:]
        if o in ('add', 'sub', 'mul'): return ex.wrap({'add': add, 'sub': sub, 'mul': mul}[o](a[0], a[1]), t)
        if o == 'neg': return ex.wrap(neg(a[0]), t)
        if o in ('shl', 'shr'): return ex.binop('Shl' if o == 'shl' else 'Shr', a[0], mod(a[1], bits), t)
        return NotImplemented
    if op.startswith('overflowing_'):
        v = {'add': add, 'sub': sub, 'mul': mul}[op[12:]](a[0], a[1])
        lo, hi = ex.inrange(v, t)
        return L([ex.wrap(v, t), bnot(band(ge(v, lo), le(v, hi)))])
    if op.startswith('checked_'):
        v = {'add': add, 'sub': sub, 'mul': mul}[op[8:]](a[0], a[1])
        lo, hi = ex.inrange(v, t)
        c = band(ge(v, lo), le(v, hi))
        return Alt([(c, lambda: some(T.mk(v.p, lo, hi) if isinstance(v, V) else v)), (bnot(c), none)])
    if op == 'saturating_sub' and not sg:
        v = sub(a[0], a[1]); return ite(ge(v, 0), v, 0)
    if op == 'saturating_add' and not sg:
        v = add(a[0], a[1]); m = (1 << bits)-1
        return ite(le(v, m), v, m)
    if op in ('max_value', 'min_value'):
        lo, hi = ex.inrange(0, t); return hi if op == 'max_value' else lo
    if op in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        u = ex.unsigned(a[0], t)
        bs = [mod(fdiv(u, 1 << (8*k)), 256) for k in range(bits//8)]
        return L(bs[::-1] if op == 'to_be_bytes' else bs)
    if op in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        bs = list(a[0])
        if op == 'from_be_bytes': bs = bs[::-1]
        return ex.wrap(T.vsum([scale(b, 1 << (8*k)) for k, b in enumerate(bs)]), t)
    if op == 'abs': 
        ex.oblige(gt(a[0], -(1 << (bits-1))), 'overflow', 'abs')
        return ite(ge(a[0], 0), a[0], neg(a[0]))
    if op == 'unsigned_abs': return ite(ge(a[0], 0), a[0], neg(a[0]))
    if op == 'abs_diff': return ite(ge(a[0], a[1]), sub(a[0], a[1]), sub(a[1], a[0]))
    if op == 'is_negative': return lt(a[0], 0)
    if op == 'is_positive': return gt(a[0], 0)
    if op == 'signum': return sub(gt(a[0], 0), lt(a[0], 0))
    if op == 'pow' and isinstance(a[0], int) and isinstance(a[1], int): return a[0] ** a[1]
    if op in ('rotate_left', 'rotate_right') and isinstance(a[1], int):
        k = a[1] % bits
        if op == 'rotate_right': k = bits - k
        return add(fdiv(a[0], 1 << (bits-k)), mod(scale(a[0], 1 << k), 1 << bits))
    if op == 'is_power_of_two' and isinstance(a[0], int): return int(a[0] > 0 and a[0] & (a[0]-1) == 0)
    if all(isinstance(x, int) for x in a):
        if op == 'leading_zeros': return bits - a[0].bit_length()
        if op == 'trailing_zeros': return bits if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if op == 'count_ones': return bin(a[0]).count('1')
    return NotImplemented

@builtin(r"^(std|core)::cmp::(min|max)::<\w+>$|cmp::Ord for \w+>::(min|max)$")
def minmax(ex, fn, a):
    isint = isinstance(a[0], (int, V))
    if not isint: return NotImplemented
    m = re.search(r"::(min|max)(::<|$)", fn.name).group(1)
    c = le(a[0], a[1])
    return ite(c, a[0], a[1]) if m == 'min' else ite(c, a[1], a[0])

@builtin(r"cmp::impls::<impl std::cmp::(PartialEq|PartialOrd|Ord)( for|<).*(u|i)(8|16|32|64|size)>::(eq|ne|lt|le|gt|ge|cmp)$|cmp::impls::<impl std::cmp::(PartialEq|PartialOrd|Ord) for (u|i)(8|16|32|64|size)>::(eq|ne|lt|le|gt|ge|cmp)$")
def icmp(ex, fn, a):
    m = fn.name.rsplit('::', 1)[1]
    x, y = a
    while isinstance(x, Slot): x = ex.readp(x)
    while isinstance(y, Slot): y = ex.readp(y)
    if m == 'cmp': return ex.cmp3(x, y)
    return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[m](x, y)

# ---- Ordering helpers on symbolic orderings
@builtin(r"std::cmp::Ordering::(is_\w+|reverse)$")
def ordering(ex, fn, a): return NotImplemented

# ---- memory intrinsics
@builtin(r"(intrinsics|ptr)::(volatile_load|read_volatile|read)(::<|$)|^std::ptr::read::|ptr::const_ptr::<impl \*const .*>::read(_volatile)?$")
def rd(ex, fn, a): return ex.readp(a[0])
@builtin(r"(intrinsics|ptr)::(volatile_store|write_volatile|write)(::<|$)|ptr::mut_ptr::<impl \*mut .*>::write(_volatile)?$")
def wrt(ex, fn, a):
    ex.writep(a[0], a[1])
    if 'volatile' in fn.name and isinstance(a[0], Slot): ex.volatile.append((a[0].l, a[0].i))
    return UNIT()
@builtin(r"^(std|core)::mem::replace::")
def mem_replace(ex, fn, a):
    v = ex.readp(a[0]); ex.writep(a[0], a[1]); return v
@builtin(r"^(std|core)::mem::take::<(u|i)")
def mem_take(ex, fn, a):
    v = ex.readp(a[0]); ex.writep(a[0], 0); return v
@builtin(r"^(std|core)::mem::swap::")
def mem_swap(ex, fn, a):
    v = ex.readp(a[0]); w = ex.readp(a[1]); ex.writep(a[0], w); ex.writep(a[1], v); return UNIT()
@builtin(r"^(std|core)::mem::(size_of|align_of)::<")
def size_of(ex, fn, a):
    t = tyof(ex, fn); return t['layout']['size'] if 'size_of' in fn.name else t['layout']['align']
@builtin(r"sync::atomic::(compiler_)?fence$|hint::black_box|intrinsics::black_box")
def fence(ex, fn, a): return a[0] if 'black_box' in fn.name else UNIT()
@builtin(r"^subtle::black_box")
def sbb(ex, fn, a): return a[0]
@builtin(r"intrinsics::(cold_path|assume|assert_inhabited|likely|unlikely)")
def coldpath(ex, fn, a): return a[0] if 'likely' in fn.name else UNIT()

@builtin(r"as std::clone::Clone>::clone$|clone::impls::<impl std::clone::Clone for .*>::clone$")
def clone(ex, fn, a):
    t = fn.name
    if fn.raw and fn.inrepo: return NotImplemented
    if re.search(r"Clone for (u|i)\d|Clone for usize|Clone for bool", t) : return ex.readp(a[0])
    if re.match(r"<\[.*\] as|<std::option::Option<(u|i|usize)", t): return ex.readp(a[0])
    return NotImplemented

# ---- Option / Result / Try are executed from their own MIR

# ---- Vec
from exec import Abs
class VecV(Abs):
    """Vec<T>: owned growable buffer (buf is a mutable L shared by identity)"""
    __slots__ = ('buf', 'cap')
    def __init__(s, buf): s.buf = buf; s.cap = None
    def materialize(s, ex): raise Unsupported('Vec internals')

def vec(ex, a):
    v = a.l[a.i] if isinstance(a, Slot) else None
    if not isinstance(v, VecV): raise Unsupported('not a Vec: %r' % (v,))
    return v

@builtin(r"^std::vec::Vec::<.*>::(new|with_capacity)$")
def vec_new(ex, fn, a): return VecV(L([]))
@builtin(r"^std::vec::Vec::<.*>::push$")
def vec_push(ex, fn, a):
    v = vec(ex, a[0])
    nb = L(list(v.buf)); nb.append(a[1])
    # logged growth: replace the Vec value (references into the old buffer are dead by borrow rules)
    ex.wr(a[0].l, a[0].i, VecV(nb)); return UNIT()
@builtin(r"^vt_vec$")
def vt_vec(ex, fn, a): return VecV(L([]))
@builtin(r"^vt_has$")
def vt_has(ex, fn, a): return int(a[0][0] == 1)
@builtin(r"^vt_push$")
def vt_push(ex, fn, a): return vec_push(ex, fn, [a[0], a[1][1]])
@builtin(r"^vt_pusher$")
def vt_pusher(ex, fn, a): return L([a[0]])
@builtin(r"^std::vec::Vec::<.*>::extend_trusted::<.*>::\{closure#0\}$")
def vec_pusher(ex, fn, a):
    c = a[0].l[a[0].i] if isinstance(a[0], Slot) else a[0]
    return vec_push(ex, fn, [c[0], a[1]])
@builtin(r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$")
def vec_next(ex, fn, a):
    it = a[0].l[a[0].i]; l, p, e = it[0].l, it[1], it[2]
    def yes():
        ex.wr(it, 1, add(p, 1)); x = l[p]; return some(copyval(x))
    if not isinstance(p, int): raise Unsupported('symbolic position in a vector')
    return Alt([(lt(p, e), yes), (ge(p, e), none)])
@builtin(r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::size_hint$")
def vec_hint(ex, fn, a):
    it = a[0].l[a[0].i]; n = sub(it[2], it[1]); return L([n, some(n)])
@builtin(r"^std::vec::Vec::<.*>::(len|is_empty)$")
def vec_len(ex, fn, a):
    n = len(vec(ex, a[0]).buf); return n if fn.name.endswith('len') else int(n == 0)
@builtin(r"^<std::vec::Vec<.*> as std::ops::(Deref|DerefMut)>::deref(_mut)?$|^std::vec::Vec::<.*>::as_(mut_)?slice$|^<std::vec::Vec<.*> as std::convert::As(Ref|Mut)<\[.*\]>>::as_(ref|mut)$")
def vec_deref(ex, fn, a):
    v = vec(ex, a[0]); 
    if hasattr(v.buf, 'viewlen'): return View(v.buf, 0, v.buf.viewlen)
    return View(v.buf, 0, len(v.buf))
@builtin(r"^<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?$")
def vec_index(ex, fn, a):
    v = vec(ex, a[0])
    ex.oblige(lt(a[1], len(v.buf)), 'panic', 'Vec index in bounds')
    return Slot(v.buf, a[1])
@builtin(r"^<std::vec::Vec<.*> as std::ops::Index(Mut)?<std::ops::Range(From|To|Full|Inclusive|ToInclusive)?(<usize>)?>>::index(_mut)?$")
def vec_range(ex, fn, a): return index_range(ex, fn, [vec_deref(ex, fn, a), a[1]])
@builtin(r"^std::vec::Vec::<.*>::pop$")
def vec_pop(ex, fn, a):
    v = vec(ex, a[0])
    if not len(v.buf): return none()
    x = v.buf[-1]; ex.wr(a[0].l, a[0].i, VecV(L(list(v.buf[:-1])))); return some(x)
@builtin(r"^std::vec::Vec::<.*>::extend_from_slice$")
def vec_ext(ex, fn, a):
    v = vec(ex, a[0]); w = asview(ex, a[1])
    if not isinstance(w.n, int): raise Unsupported('extend_from_slice of symbolic length')
    ex.wr(a[0].l, a[0].i, VecV(L(list(v.buf) + [copyval(ex.rd(w.l, add(w.start, i))) for i in range(w.n)]))); return UNIT()
@builtin(r"^std::vec::Vec::<.*>::(reserve|reserve_exact|shrink_to_fit)$")
def vec_cap(ex, fn, a): return UNIT()
@builtin(r"^std::vec::from_elem::<")
def from_elem(ex, fn, a):
    if not isinstance(a[1], int): raise Unsupported('vec![x; symbolic]')
    return VecV(L([copyval(a[0]) for _ in range(a[1])]))
@builtin(r"^std::vec::Vec::<.*>::truncate$|^std::vec::Vec::<.*>::clear$")
def vec_trunc(ex, fn, a):
    v = vec(ex, a[0]); n = a[1] if len(a) > 1 else 0
    ex.wr(a[0].l, a[0].i, VecV(L(list(v.buf[:n])))); return UNIT()
@builtin(r"^std::vec::Vec::<.*>::resize$")
def vec_resize(ex, fn, a):
    v = vec(ex, a[0])
    l = list(v.buf)[:a[1]]
    while len(l) < a[1]: l.append(copyval(a[2]))
    ex.wr(a[0].l, a[0].i, VecV(L(l))); return UNIT()

# ---- Box / alloc
@builtin(r"^(std|alloc)::alloc::alloc$")
def alloc(ex, fn, a): return Slot(L([UN]), 0)
@builtin(r"alloc::Layout::new::<")
def layout(ex, fn, a): return Opaque('layout')
@builtin(r"^std::boxed::Box::<.*>::from_raw$")
def box_from_raw(ex, fn, a): return a[0]
@builtin(r"^std::boxed::Box::<.*>::new$")
def box_new(ex, fn, a): return Slot(L([a[0]]), 0)

# ---- fmt: the formatter's output is a sequence of tokens (n, value) = the n low hex digits of value, or characters
class Text(Abs):
    """what was written to a formatter"""
    __slots__ = ('toks',)
    def __init__(s, toks=()): s.toks = tuple(toks)
    def materialize(s, ex): raise Unsupported('text')
class FArg(Abs):
    __slots__ = ('kind', 'ref', 'ty')
    def __init__(s, kind, ref, ty): s.kind = kind; s.ref = ref; s.ty = ty
class FArgs(Abs):
    __slots__ = ('tpl', 'args')
    def __init__(s, tpl, args): s.tpl = tpl; s.args = args

@builtin(r"^core::fmt::rt::.*Argument.*::new_(\w+)::<|^std::fmt::rt::.*Argument.*::new_(\w+)::<|^(std|core)::fmt::rt::Argument")
def fmt_arg(ex, fn, a):
    m = re.search(r"::new_(\w+)::<(.*)>$", fn.name)
    if not m: return NotImplemented
    r = a[0]; ty = m.group(2)
    while ty.startswith('&'): r = ex.readp(r); ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
    return FArg(m.group(1), r, ty)
@builtin(r"fmt::Arguments::<.*>::new::<|fmt::rt::<impl .*Arguments.*>::new::<|fmt::Arguments.*::new::<")
def fmt_args(ex, fn, a):
    def lst(r):
        if isinstance(r, (bytes, tuple)): return list(r)
        if type(r) is L: return list(r)
        v = ex.readp(r) if isinstance(r, Slot) else [ex.load(r.l, add(r.start, i)) for i in range(r.n)]
        return list(v)
    t = lst(a[0])
    if not all(isinstance(x, int) for x in t): raise Unsupported('format template')
    return FArgs(bytes(t), lst(a[1]))

@builtin(r"fmt::Formatter::<.*>::write_fmt$|fmt::Formatter.*::write_fmt$")
def write_fmt(ex, fn, a):
    f, g = a[0], a[1]
    if not isinstance(g, FArgs) or not isinstance(f, Slot) or not isinstance(f.l[f.i], L) or not isinstance(f.l[f.i][0], Text): return NotImplemented
    t = g.tpl; i = 0; n = 0; toks = []; last = None
    while t[i]:
        b = t[i]; i += 1
        if last is not None: raise Unsupported('text after a formatted value')
        if b < 0x80: toks.append(('text', t[i:i+b])); i += b; continue
        if b < 0xC0: raise Unsupported('long text')
        flags = width = 0
        if b & 1: flags = int.from_bytes(t[i:i+4], 'little'); i += 4
        if b & 2: width = int.from_bytes(t[i:i+2], 'little'); i += 2
        if b & 0x3C: raise Unsupported('format option')
        if n >= len(g.args): raise Unsupported('format arguments')
        x = g.args[n]; n += 1
        m = re.match(r"(u|i)(8|16|32|64|128)$", x.ty)
        if m and x.kind == 'lower_hex':
            d = int(m.group(2)) // 4
            if not (flags >> 24 & 1 and not flags >> 23 & 1 and not flags >> 21 & 3 and width >= d): raise Unsupported('hex of variable width')
            if width > d: toks.append((width - d, 0))
            v = ex.readp(x.ref); toks.append((d, v if m.group(1) == 'u' else mod(v, 1 << 4*d)))
        else: last = x
    def okf():
        o = f.l[f.i]; ex.wr(o, 0, Text(o[0].toks + tuple(toks)))
        return E([0, L([])])
    if last is None:
        c = T.boolvar('written%d' % len(T.AT))
        return Alt([(c, okf), (bnot(c), lambda: E([1, L([])]))])
    if toks: raise Unsupported('text before a formatted value')
    k = {'lower_hex': 'LowerHex', 'display': 'Display', 'debug': 'Debug', 'upper_hex': 'UpperHex'}.get(last.kind)
    for key, h in ex.p.fns.items():
        if re.search(r"<%s as .*fmt::%s>::fmt$|<impl .*fmt::%s for %s>::fmt$" % (re.escape(last.ty), k, k, re.escape(last.ty)), h.name) and h.raw:
            r = ex.callfn(h, [last.ref, f])
            return r[1] if isinstance(r, tuple) else r
    return NotImplemented

@builtin(r"^std::fmt::(Arguments|Formatter)|^core::fmt::rt::|std::fmt::rt::")
def fmtargs(ex, fn, a): return NotImplemented

@builtin(r"^std::intrinsics::(ctpop|ctlz|cttz|ctlz_nonzero|cttz_nonzero)::<[ui](\d+|size)>$")
def bitcount(ex, fn, a):
    m = re.match(r"^std::intrinsics::(\w+)::<[ui](\d+|size)>$", fn.name); n = 64 if m.group(2) == 'size' else int(m.group(2))
    if not isinstance(a[0], int): return NotImplemented
    v = a[0] % (1 << n)
    if m.group(1) == 'ctpop': return bin(v).count('1')
    if m.group(1).startswith('ctlz'): return n - v.bit_length()
    return n if v == 0 else (v & -v).bit_length() - 1
