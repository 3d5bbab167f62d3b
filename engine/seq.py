"""Symbolic byte sequences of symbolic length."""
import terms as T, solver, z3
from exec import L, View, Alt
from terms import V, Unsupported

class Seq(L):
    """read-only sequence of bytes; element i is the uninterpreted term sel(i)"""
    __slots__ = ('id', 'n')
    def __init__(s, name, n):
        list.__init__(s); s.born = 0; s.id = name; s.n = n
    def at(s, i):
        if isinstance(i, V): i = T.subst_pc(i)
        if isinstance(i, V): i = T.mk(dict(i.p))
        k = i if isinstance(i, int) else i.k
        return T.av(T.atom('sel', (i, s.id), 0, 255, '%s[%s]' % (s.id, i if isinstance(i, int) else T.show(i).split(')[')[0] + ')'), ('sel', s.id, k)))
    def __getitem__(s, i):
        if isinstance(i, slice): raise Unsupported('slice of a symbolic sequence')
        return s.at(i)
    def symread(s, ex, i): return s.at(i)
    def symwrite(s, ex, i, v): raise Unsupported('write to a symbolic sequence')
    def __len__(s): raise Unsupported('len of a symbolic sequence')
    def __iter__(s): raise Unsupported('iteration over a symbolic sequence')
    def __bool__(s): return True
    def view(s): return View(s, 0, s.n)

def _hook(a, tr):
    out = []
    i = a.args[0]
    for bid, (b, z) in list(tr.m.items()):
        o = T.AT[bid]
        if o.kind == 'sel' and o is not a and o.args[1] == a.args[1]:
            d = T.sub(i, o.args[0])
            if isinstance(d, int):
                if d == 0: out.append(tr.m[a.id][1] == z)
                continue
            out.append(z3.Implies(tr.val(d) == 0, tr.m[a.id][1] == z))
    return out
solver.HOOKS['sel'] = _hook
T.REBUILD['sel'] = lambda a, args: T.av(T.atom('sel', (args[0], args[1]), 0, 255, '%s[%s]' % (args[1], args[0] if isinstance(args[0], int) else T.show(args[0])), ('sel', args[1], args[0] if isinstance(args[0], int) else args[0].k)))
def _ev(a, env, memo):
    i = a.args[0] if isinstance(a.args[0], int) else T.evaluate(a.args[0], env, memo)
    k = ('sel', a.args[1], i)
    if k not in memo: memo[k] = hash((i, a.args[1], len(memo))) % 256 if i % 3 else (0, 1, 2, 0x30, 0x80, 0xff)[hash((i, len(memo))) % 6]
    return memo[k]
T.EVAL_HOOKS['sel'] = _ev

def refresh(v):
    """v with what the path condition knows about it"""
    if isinstance(v, int): return v
    v = T.subst_pc(v)
    return v if isinstance(v, int) else T.mk(dict(v.p), v.lo, v.hi)

def symcopy(ex, d, s):
    """copy_from_slice where the length is symbolic: one case per length"""
    n = refresh(s.n) if not isinstance(s.n, int) else s.n
    m = refresh(d.n) if not isinstance(d.n, int) else d.n
    if not isinstance(n, int) and isinstance(m, int): n = m
    lo = max([x for x in (T.ilo(n), T.ilo(m)) if x is not None], default=None)
    hi = min([x for x in (T.ihi(n), T.ihi(m)) if x is not None], default=None)
    if type(d.l) is L:     # the destination slice was bounds-checked when it was made
        lo = max(lo or 0, 0); hi = len(d.l) if hi is None else min(hi, len(d.l))
    if lo is None or hi is None or hi - lo > 80: raise Unsupported('copy of symbolic length')
    def case(k):
        def f():
            st = refresh(d.start); src = refresh(s.start) if not isinstance(s.start, int) else s.start
            if not isinstance(st, int): raise Unsupported('copy to a symbolic position')
            vals = [ex.load(s.l, T.add(src, j)) for j in range(k)]
            for j in range(k): ex.wr(d.l, st + j, vals[j])
            return L([])
        return f
    if isinstance(n, int): return case(n)()
    a = Alt([(T.eq(n, k), case(k)) for k in range(lo, hi + 1)])
    return a
import exec as X
X.Exec.symcopy = symcopy
