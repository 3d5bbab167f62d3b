"""Symbolic executor over MIR: generates and discharges verification conditions.

Memory is a graph of Python lists (class L); a Rust place is a (list, index) pair; references are Slot
(pointer to one place) or View (pointer to a run of array elements).  Every panic edge, overflow check,
bounds check and debug assertion of the executed MIR becomes an obligation under the path condition.
"""
import sys, time, re
import terms as T
import solver
from terms import V, Unsupported, add, sub, mul, neg, scale, eq, ne, lt, le, gt, ge, bnot, band, bor, ite, mod, fdiv
from mir import Prog, successors

sys.setrecursionlimit(20000)

class Uninit:
    def __repr__(s): return '?'
    def __deepcopy__(s, m): return s
UN = Uninit()

STAMP = [1]

class L(list):
    __slots__ = ('born',)
    def __init__(s, it=()):
        list.__init__(s, it); s.born = STAMP[0]

class E(L):
    """enum value: [variant index, field0, ...]"""
    __slots__ = ()

class Slot:
    __slots__ = ('l', 'i')
    def __init__(s, l, i): s.l = l; s.i = i
    def __repr__(s): return '&slot[%s]' % s.i

class View:
    """pointer to elements l[start:start+n]; arr=True when the pointee is an array (thin pointer)"""
    __slots__ = ('l', 'start', 'n', 'arr')
    def __init__(s, l, start, n, arr=False): s.l = l; s.start = start; s.n = n; s.arr = arr
    def __repr__(s): return '&view[%s;%s]' % (s.start, s.n)

class FnVal:
    __slots__ = ('key',)
    def __init__(s, key): s.key = key

class Opaque:
    __slots__ = ('what',)
    def __init__(s, what): s.what = what
    def __repr__(s): return '<%s>' % s.what

class Abs:
    """base class of abstract leaf values (immutable)"""
    def merge(s, c, o): return None      # value of ite(c, s, o), or None
    def same(s, o): return s is o

class LazyArr(L):
    """array decoded on demand from static memory (read only)"""
    __slots__ = ('dec', 'count', 'cache')
    def __init__(s, count, dec):
        list.__init__(s); s.born = 0; s.dec = dec; s.count = count; s.cache = {}
    def __getitem__(s, i):
        if isinstance(i, slice): return [s[k] for k in range(*i.indices(s.count))]
        if not 0 <= i < s.count: raise IndexError
        if i not in s.cache: s.cache[i] = s.dec(i)
        return s.cache[i]
    def __len__(s): return s.count
    def __iter__(s): return (s[i] for i in range(s.count))
    def __setitem__(s, i, v): s.cache[i] = v

class ParamArr(L):
    """array known by a function of its (possibly symbolic) index"""
    __slots__ = ('f', 'count', 'cache')
    def __init__(s, count, f):
        list.__init__(s); s.born = 0; s.f = f; s.count = count; s.cache = {}
    def __getitem__(s, i):
        k = i if isinstance(i, int) else i.k
        if k not in s.cache: s.cache[k] = s.f(i)
        return s.cache[k]
    def __len__(s): raise Unsupported('len of param array')
    def __setitem__(s, i, v): raise Unsupported('write to parametric array')

def copyval(v):
    if isinstance(v, L):
        if isinstance(v, (LazyArr, ParamArr, OrdE)): return v
        if type(v) is E: r = E()
        else: r = L()
        list.extend(r, [copyval(x) if isinstance(x, L) else x for x in v])
        return r
    return v

class Alt:
    """contract result with several cases: list of (cond, thunk)"""
    def __init__(s, alts): s.alts = alts

class Outcome:
    __slots__ = ('pc', 'delta', 'frozen')
    def __init__(s, pc, delta, frozen): s.pc = pc; s.delta = delta; s.frozen = frozen

ONE = 'one'
NONE = 'none'

class Oblig:
    __slots__ = ('unit', 'kind', 'desc', 'status', 'method', 'secs', 'env', 'where', 'goal')
    def __init__(s, **k):
        for a in s.__slots__: setattr(s, a, k.get(a))

class Frame:
    __slots__ = ('fn', 'loc', 'depth', 'unroll', 'forks', 'recut')
    def __init__(s, fn, loc, depth): s.fn = fn; s.loc = loc; s.depth = depth; s.unroll = set(); s.forks = {}; s.recut = {}

class LoopRun:
    """a loop being executed from a generic iteration: mode 'collect' gathers the states at the back edges,
    mode 'exit' drops them (the invariant was re-established) and lets the exits continue"""
    __slots__ = ('fr', 'hdr', 'body', 'mode', 'backs', 'ntrail', 'npc', 'onback', 'onexit', 'exits')
    def __init__(s, fr, hdr, mode): s.fr = fr; s.hdr = hdr; s.body = fr.fn.loops.get(hdr) or fr.recut[hdr]; s.mode = mode; s.backs = []; s.onback = None; s.onexit = None

class NotInductive(Exception): pass
def oncycle(fn, h, body, x):
    """every cycle through h inside the body passes x"""
    seen, w = set(), [h]
    while w:
        y = w.pop()
        for z in successors(fn.blocks[y][1]):
            if z == h: return False
            if z in body and z != x and z not in seen: seen.add(z); w.append(z)
    return True

DIVERGE = ('panicking::panic', 'panic_fmt', 'unwrap_failed', 'expect_failed', 'slice_index_fail', 'len_mismatch_fail',
           'panic_nounwind', 'handle_error', 'assert_failed', 'panic_bounds_check', 'begin_panic', 'panic_const', 'unwrap_failed_inner')

class Budget(Exception): pass

class Exec:
    def __init__(s, prog, contracts=None, builtins=None):
        s.p = prog
        s.contracts = contracts or {}
        s.builtins = builtins or {}
        s.trail = []
        s.marks = []
        s.mark_stamp = 0
        s.obligs = []
        s.unit = ''
        s.statics = {}
        s.memalloc = {}
        s.steps = 0
        s.deadline = None
        s.maxpaths = 4000
        s.stack = []
        s.loop_hook = None
        s.noinline = set()
        s.used_contracts = set()
        s.inlined = set()
        s.trusted = set()
        s._cd = {}
        s.panic_ok = False
        s.onpath = None
        s.depthlimit = 400
        s.assumed = []
        s.switches = 0
        s.nomerge = False
        s.havoc = False         # cells a counted loop changes otherwise are unknown at the start of an iteration
        s.autoloops = False     # infer invariants of counted loops
        s.loopspecs = {}        # (cname, index of the loop header in block order) -> contract
        s.lruns = []
        s.volatile = []         # places written by volatile stores
        s.foralls = []          # (k, pc, C): for all j < k, C(j)
        s.arrays = []           # digit arrays and key sequences in play (pts.py)
        s.accloops = None       # rule for loops over points

    # ------------------------------------------------------------ trail
    def wr(s, l, i, v):
        if l.born < s.mark_stamp: s.trail.append((l, i, l[i]))
        l[i] = v

    def mark(s):
        STAMP[0] += 1
        s.marks.append((len(s.trail), s.mark_stamp))
        s.mark_stamp = STAMP[0]

    def undo(s):
        n, st = s.marks.pop()
        tr = s.trail
        while len(tr) > n:
            l, i, v = tr.pop(); l[i] = v
        s.mark_stamp = st

    def capture(s, npc, dead=None):
        """delta since innermost mark (state not yet undone)"""
        n, _ = s.marks[-1]
        d = {}
        for l, i, old in s.trail[n:]:
            k = (id(l), i)
            if k not in d: d[k] = (l, i, l[i])
        stamp = s.mark_stamp
        frozen = {}
        for k, (l, i, v) in d.items():
            if l.born < stamp and not (dead and dead(l, i)):
                frozen[k] = copyval(v) if isinstance(v, L) else v
        if dead:
            d = {k: x for k, x in d.items() if not dead(x[0], x[1])}
        return Outcome(list(T.PC[npc:]), d, frozen)

    def apply(s, o):
        for l, i, v in o.delta.values(): s.wr(l, i, v)

    # ------------------------------------------------------------ obligations
    def oblige(s, cond, kind, desc, where=None):
        """record and try to discharge cond under the path condition"""
        t = time.time()
        if isinstance(cond, int):
            if cond:
                st, how, env = 'proved', 'trivial', None
            else:
                # must show the path infeasible
                st, env = s.infeasible()
                how = 'z3'
        else:
            z = T.STATS['z3']
            st, env = solver.prove(cond)
            how = 'z3' if T.STATS['z3'] > z else 'simplifier'
        s.obligs.append(Oblig(unit=s.unit, kind=kind, desc=desc, status=st, method=how, secs=time.time()-t, env=env,
                              where=where or s.where(), goal=None if st == 'proved' else (cond, list(T.PC))))
        return st == 'proved'

    def infeasible(s):
        if not T.PC: return 'refuted', {}
        c = T.ball(T.PC)
        if isinstance(c, int): return ('proved', None) if not c else ('refuted', {})
        return s._infeas()

    def _infeas(s):
        tr = solver.Tr()
        cons = [tr.bool(f) for f in T.PC]
        tr.close()
        r, so = solver._z3run(cons + tr.cons, solver.TIMEOUT)
        if str(r) == 'unsat': return 'proved', None
        if str(r) == 'sat':
            m = so.model(); env = {}
            for aid, (b, i) in tr.m.items():
                try: env[aid] = (1 if str(m.eval(b, model_completion=True)) == 'True' else 0) if b is not None else m.eval(i, model_completion=True).as_long()
                except Exception: pass
            return 'refuted', env
        return 'unknown', None

    def where(s):
        if not s.stack: return ''
        f, bb = s.stack[-1].fn, None
        return ' < '.join('%s' % fr.fn.cname for fr in reversed(s.stack[-4:]))

    # ------------------------------------------------------------ types / constants
    def ty(s, i): return s.p.types[i]

    def decode(s, data, prov, off, tid):
        """value of type tid at data[off:]; data is bytes or None-able list"""
        t = s.ty(tid); k = t['k']
        if k == 'int':
            n = t['bits'] // 8
            b = data[off:off+n]
            if any(x is None for x in b): return UN
            return int.from_bytes(bytes(b), 'little', signed=t['signed'])
        if k in ('bool', ): 
            return UN if data[off] is None else data[off]
        if k == 'char': return int.from_bytes(bytes(data[off:off+4]), 'little')
        if k == 'array':
            es = s.ty(t['elem'])['layout']['size']
            if t['len'] > 2048 or (t['len'] * es > 20000):
                return LazyArr(t['len'], lambda i, e=t['elem']: s.decode(data, prov, off + i*es, e))
            return L([s.decode(data, prov, off + i*es, t['elem']) for i in range(t['len'])])
        if k == 'tuple':
            fo = t['layout']['fields'] or []
            return L([s.decode(data, prov, off + fo[i], f) for i, f in enumerate(t['fields'])])
        if k == 'closure': return L([])
        if k == 'fndef': return FnVal(t['inst'])
        if k in ('ref', 'ptr'):
            return s.decode_ptr(data, prov, off, t['to'])
        if k == 'adt':
            if t['kind'] == 'Enum': return s.decode_enum(data, prov, off, t)
            if t['kind'] == 'Union': return Opaque('union')
            fo = t['layout']['fields'] or []
            return L([s.decode(data, prov, off + fo[i], f[1]) for i, f in enumerate(t['variants'][0]['fields'])])
        if k == 'fnptr':
            a = prov.get(off)
            if a is not None: return FnVal(s.p.allocs[a]['inst'])
        return Opaque('const ' + t['name'])

    def decode_enum(s, data, prov, off, t):
        lay = t['layout']['variants']
        if 'single' in lay:
            vi = lay['single']
            fo = t['layout']['fields'] or []
        else:
            tag = lay['tag']['Initialized']['value'] if 'Initialized' in lay['tag'] else lay['tag'].get('Union', {}).get('value')
            toff = off + t['layout']['fields'][lay['tag_field']]
            if 'Int' in tag:
                n = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}[tag['Int']['length']]
            else: n = 8
            tv = int.from_bytes(bytes(x or 0 for x in data[toff:toff+n]), 'little')
            if toff in prov: tv = 1 << 70
            if lay['enc'] == 'direct':
                vi = [i for i, v in enumerate(t['variants']) if int(v['discr']) % (1 << (8*n)) == tv][0]
            else:
                enc = lay['enc']
                rel = (tv - int(enc['start'])) % (1 << (8*n)) if tv < (1 << 70) else 1 << 70
                vi = enc['from'] + rel if rel <= enc['to'] - enc['from'] else enc['untagged']
            fo = lay['offs'][vi]
        return E([vi] + [s.decode(data, prov, off + fo[i], f[1]) for i, f in enumerate(t['variants'][vi]['fields'])])

    def decode_ptr(s, data, prov, off, to):
        t = s.ty(to)
        addr = int.from_bytes(bytes(x or 0 for x in data[off:off+8]), 'little')
        a = prov.get(off)
        unsized = t['k'] in ('slice', 'str', 'dyn')
        meta = int.from_bytes(bytes(x or 0 for x in data[off+8:off+16]), 'little') if unsized else None
        if a is None:
            if t['k'] in ('slice', 'str'): return View(L([]), 0, 0)
            return Slot(L([UN]), addr)
        al = s.p.allocs[a]
        if al['kind'] == 'fn': return FnVal(al['inst'])
        if al['kind'] == 'static':
            return s.static_ref(a)
        if al['kind'] != 'mem' or t['k'] == 'dyn': return Opaque('ptr')
        key = (a, addr, to, meta)
        if key in s.memalloc: return s.memalloc[key]
        raw = parse_hex(al['init']['hex'])
        pv = {o: p for o, p in al['init']['prov']}
        try:
            if t['k'] == 'str': r = View(L(list(raw[addr:addr+meta])), 0, meta)
            elif t['k'] == 'slice':
                es = s.ty(t['elem'])['layout']['size']
                r = View(L([s.decode(raw, pv, addr + i*es, t['elem']) for i in range(meta)]), 0, meta)
            else:
                r = Slot(L([s.decode(raw, pv, addr, to)]), 0)
        except (Unsupported, KeyError, IndexError, TypeError):
            r = Opaque('const ptr')
        s.memalloc[key] = r
        if isinstance(r, (Slot, View)): r.l.born = 0
        return r

    def static_ref(s, a):
        if a not in s.statics:
            al = s.p.allocs[a]
            raw = parse_hex(al['init']['hex'])
            pv = {o: p for o, p in al['init']['prov']}
            l = L([s.decode(raw, pv, 0, al['ty'])]); l.born = 0
            s.statics[a] = Slot(l, 0)
        return s.statics[a]

    def const(s, c):
        ck = id(c)
        r = s._cd.get(ck)
        if r is not None:
            return copyval(r[0]) if isinstance(r[0], L) else r[0]
        tid = c['const_']['ty']
        k = c['const_']['kind']
        if k == 'ZeroSized':
            v = s.zst(tid)
        elif isinstance(k, dict) and 'Allocated' in k:
            al = k['Allocated']
            pv = {o: p for o, p in al['provenance']['ptrs']}
            try: v = s.decode(al['bytes'], pv, 0, tid)
            except (KeyError, IndexError, TypeError): v = Opaque('const')
        else:
            raise Unsupported('const kind %r' % (k,))
        s._cd[ck] = (v, c)
        return copyval(v) if isinstance(v, L) else v

    def zst(s, tid):
        t = s.ty(tid)
        if t['k'] == 'fndef': return FnVal(t['inst'])
        if t['k'] == 'tuple': return L([s.zst(f) for f in t['fields']])
        if t['k'] == 'adt' and t['kind'] == 'Struct': return L([s.zst(f[1]) for f in t['variants'][0]['fields']])
        if t['k'] == 'closure': return L([])
        if t['k'] == 'array': return L([])
        return L([])

    # ------------------------------------------------------------ places
    def place(s, fr, p):
        """returns ('s', list, idx) or ('v', View)"""
        l, i = fr.loc, p['local']
        pr = p['projection']
        if not pr: return l, i
        cur = None       # pending View (array/slice place)
        var = None
        for x in pr:
            if x == 'Deref':
                v = l[i] if cur is None else s._bad('deref of view')
                if isinstance(v, Slot): l, i = v.l, v.i
                elif isinstance(v, View): cur = v
                elif isinstance(v, L) and len(v) >= 1 and isinstance(v[0], L): # Box
                    raise Unsupported('box deref')
                else: raise Unsupported('deref of %r in %s' % (v, fr.fn.cname))
                continue
            k, a = next(iter(x.items()))
            if k == 'Field':
                fi = a[0]
                v = s.slotval(l, i)
                if isinstance(v, (Slot, View)): continue         # a Box (or Unique, NonNull) is its pointer
                if isinstance(v, Abs): v = s.concretize(l, i, v)
                if not isinstance(v, L): raise Unsupported('field of %r in %s' % (v, fr.fn.cname))
                if isinstance(v, E): l, i = v, fi + 1
                else: l, i = v, fi
            elif k == 'Downcast': pass
            elif k == 'Index' or k == 'ConstantIndex':
                if k == 'Index': idx = fr.loc[a]
                else:
                    idx = a['offset']
                    n = cur.n if cur is not None else len(s.slotval(l, i))
                    if a['from_end']: idx = sub(n, idx)
                if cur is not None:
                    l, i = cur.l, add(cur.start, idx); cur = None
                else:
                    v = s.slotval(l, i)
                    if isinstance(v, Abs): v = s.concretize(l, i, v)
                    l, i = v, idx
                if not isinstance(i, int):
                    i2 = T.subst_pc(i)
                    i = i2
            elif k == 'Subslice':
                f, t, fe = a['from'], a['to'], a['from_end']
                if cur is None: v = s.slotval(l, i); cur = View(v, 0, len(v))
                n = sub(sub(cur.n, t) if fe else t, f)
                cur = View(cur.l, add(cur.start, f), n)
            elif k == 'OpaqueCast': pass
            else: raise Unsupported('projection %r' % (x,))
        if cur is not None: return cur, None
        return l, i

    def _bad(s, m): raise Unsupported(m)

    def slotval(s, l, i):
        if isinstance(i, int): return l[i]
        return s.symread(l, i)

    def symread(s, l, i):
        """read at symbolic index"""
        if isinstance(l, ParamArr): return l[i]
        if hasattr(l, 'symread'): return l.symread(s, i)
        lo, hi = T.ilo(i), T.ihi(i)
        n = len(l)
        if lo is None or hi is None or hi - lo > 600: raise Unsupported('symbolic index')
        lo = max(lo, 0); hi = min(hi, n-1)
        r = l[hi]
        for k in range(hi-1, lo-1, -1):
            c = eq(i, k)
            r = s.mergeval(c, l[k], r)
            if r is NOMERGE: raise Unsupported('symbolic index merge')
        return r

    def concretize(s, l, i, v):
        n = v.materialize(s)
        s.wr(l, i, n)
        return n

    def load(s, l, i):
        if i is None:      # view place
            v = l
            if isinstance(v.n, int) and hasattr(v.l, 'symread'): return L([s.load(v.l, add(v.start, k)) for k in range(v.n)])
            if not isinstance(v.n, int) or not isinstance(v.start, int): raise Unsupported('load of symbolic slice')
            return L([copyval(x) if isinstance(x, L) else x for x in v.l[v.start:v.start+v.n]])
        v = s.slotval(l, i)
        if isinstance(v, L): return copyval(v)
        if v is UN: raise Unsupported('read of uninitialised value in %s' % s.where())
        return v

    def store(s, l, i, v):
        if i is None:
            w = l
            if not isinstance(v, L) or len(v) != w.n: raise Unsupported('store to view')
            for k in range(w.n): s.wr(w.l, w.start + k, v[k])
            return
        if not isinstance(i, int):
            return s.symwrite(l, i, v)
        s.wr(l, i, v)

    def symwrite(s, l, i, v):
        if hasattr(l, 'symwrite'): return l.symwrite(s, i, v)
        lo, hi = T.ilo(i), T.ihi(i)
        if lo is None or hi is None or hi - lo > 600: raise Unsupported('symbolic index write')
        for k in range(max(lo, 0), min(hi, len(l)-1)+1):
            r = s.mergeval(eq(i, k), v, l[k])
            if r is NOMERGE: raise Unsupported('symbolic write merge')
            s.wr(l, k, r)

    def ref(s, l, i):
        if i is None: return l
        return Slot(l, i)

    def operand(s, fr, o):
        if 'Copy' in o:
            p = o['Copy']
            if not p['projection']:
                v = fr.loc[p['local']]
                return copyval(v) if isinstance(v, L) else v
            return s.load(*s.place(fr, p))
        if 'Move' in o:
            p = o['Move']
            if not p['projection']: return fr.loc[p['local']]
            return s.load(*s.place(fr, p))
        if 'Constant' in o: return s.const(o['Constant'])
        if 'RuntimeChecks' in o: return 1
        raise Unsupported('operand %r' % (list(o),))

    def opty(s, fr, o):
        """type id of an operand"""
        if 'Constant' in o: return o['Constant']['const_']['ty']
        if 'RuntimeChecks' in o: return s.p.bytype['bool']
        p = o.get('Copy') or o.get('Move')
        return s.placety(fr, p)

    def placety(s, fr, p):
        t = fr.fn.locals[p['local']]
        var = 0
        for x in p['projection']:
            d = s.ty(t)
            if x == 'Deref':
                if d['k'] == 'adt': # Box
                    t = d['args'][0]['ty']
                else: t = d['to']
            else:
                k, a = next(iter(x.items()))
                if k == 'Field': t = a[1]
                elif k in ('Index', 'ConstantIndex'): t = d['elem']
        return t

    # ------------------------------------------------------------ rvalues
    def wrap(s, v, t):
        bits, sg = t['bits'], t['signed']
        if not sg:
            if isinstance(v, int): return v & ((1 << bits) - 1)
            if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < (1 << bits): return v
            return mod(v, 1 << bits)
        h = 1 << (bits-1)
        if isinstance(v, int): return ((v + h) & ((1 << bits) - 1)) - h
        if v.lo is not None and v.lo >= -h and v.hi is not None and v.hi < h: return v
        return sub(mod(add(v, h), 1 << bits), h)

    def inrange(s, v, t):
        if not t['signed']: lo, hi = 0, (1 << t['bits']) - 1
        else: lo, hi = -(1 << (t['bits']-1)), (1 << (t['bits']-1)) - 1
        return lo, hi

    def unsigned(s, v, t):
        if T.ilo(v) is not None and T.ilo(v) >= 0: return v
        return mod(v, 1 << t['bits'])

    def binop(s, op, a, b, t, tb=None):
        if isinstance(a, (Slot, View, FnVal, Opaque)) or isinstance(b, (Slot, View)):
            return s.ptrop(op, a, b)
        k = t['k']
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return ne(a, b)
        if op == 'Lt': return lt(a, b)
        if op == 'Le': return le(a, b)
        if op == 'Gt': return gt(a, b)
        if op == 'Ge': return ge(a, b)
        if k in ('bool', 'char'): t = {'k': 'int', 'bits': 1 if k == 'bool' else 32, 'signed': False}
        if op in ('Add', 'AddUnchecked'): return s.wrap(add(a, b), t)
        if op in ('Sub', 'SubUnchecked'): return s.wrap(sub(a, b), t)
        if op in ('Mul', 'MulUnchecked'): return s.wrap(mul(a, b), t)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            a, b = s.unsigned(a, t), s.unsigned(b, t)
            r = T.bit_and(a, b) if op == 'BitAnd' else T.bit_or(a, b) if op == 'BitOr' else T.bit_xor(a, b, t['bits'])
            return s.wrap(r, t) if t['signed'] else r
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            if not isinstance(b, int):
                b = T.subst_pc(b)
            if not isinstance(b, int):
                return s.symshift(op, a, b, t)
            b &= t['bits'] - 1
            if op.startswith('Shl'): return s.wrap(scale(a, 1 << b), t)
            return fdiv(a, 1 << b)
        if op == 'Div' or op == 'Rem':
            if not isinstance(b, int): raise Unsupported('division by symbolic')
            if t['signed'] and (T.ilo(a) is None or T.ilo(a) < 0 or b <= 0):
                if isinstance(a, int):
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return q if op == 'Div' else a - q*b
                # truncation toward zero for symbolic a, b > 0
                if b <= 0: raise Unsupported('signed division')
                n = lt(a, 0)
                q = ite(n, neg(fdiv(neg(a), b)), fdiv(a, b))
                return q if op == 'Div' else sub(a, scale(q, b))
            q = fdiv(a, b)
            return q if op == 'Div' else mod(a, b)
        if op == 'Cmp':
            # Ordering as enum: -1,0,1 -> variants Less(0) Equal(1) Greater(2)
            raise Unsupported('three-way compare')
        raise Unsupported('binop ' + op)

    def symshift(s, op, a, b, t):
        lo, hi = T.ilo(b), T.ihi(b)
        if lo is None or hi is None or hi - lo > 70: raise Unsupported('symbolic shift')
        r = None
        for k in range(lo, hi+1):
            v = s.binop(op, a, k, t)
            r = v if r is None else ite(eq(b, k), v, r)
        return r

    def ptrop(s, op, a, b):
        if op in ('Eq', 'Ne'):
            same = None
            if isinstance(a, Slot) and isinstance(b, Slot):
                same = a.l is b.l and veqi(a.i, b.i)
            elif isinstance(a, View) and isinstance(b, View): same = a.l is b.l and veqi(a.start, b.start)
            elif isinstance(a, View) and isinstance(b, Slot): same = a.l is b.l and veqi(a.start, b.i)
            elif isinstance(b, View) and isinstance(a, Slot): same = a.l is b.l and veqi(b.start, a.i)
            elif isinstance(a, (Slot, View)) and isinstance(b, int): same = False
            if same is not None: return int(same == (op == 'Eq'))
        if op == 'Offset' and isinstance(a, Slot): return Slot(a.l, add(a.i, b))
        if op == 'Offset' and isinstance(a, View): return Slot(a.l, add(a.start, b))
        if op in ('BitAnd',) and isinstance(b, int): return 0    # address & (align-1): aligned by construction
        if op in ('Sub',) : pass
        raise Unsupported('pointer op ' + op)

    def rvalue(s, fr, rv, bi, si):
        k, a = next(iter(rv.items()))
        if k == 'Use': return s.operand(fr, a[0])
        if k == 'Ref': return s.ref(*s.place(fr, a[2]))
        if k == 'AddressOf': return s.ref(*s.place(fr, a[1]))
        if k == 'BinaryOp':
            x = s.operand(fr, a[1]); y = s.operand(fr, a[2])
            if a[0] == 'Cmp': return s.cmp3(x, y)
            return s.binop(a[0], x, y, s.ty(s.opty(fr, a[1])))
        if k == 'CheckedBinaryOp':
            t = s.ty(s.opty(fr, a[1]))
            x = s.operand(fr, a[1]); y = s.operand(fr, a[2])
            return s.checked(fr, a[0], x, y, t, bi)
        if k == 'UnaryOp':
            x = s.operand(fr, a[1])
            t = s.ty(s.opty(fr, a[1]))
            if a[0] == 'Not':
                if t['k'] == 'bool': return bnot(x)
                if t['signed']: return sub(-1, x)
                return sub((1 << t['bits']) - 1, x)
            if a[0] == 'Neg': return s.wrap(neg(x), t)
            if a[0] == 'PtrMetadata':
                if isinstance(x, View): return x.n
                if isinstance(x, Slot) and isinstance(x.l[x.i], L): return len(x.l[x.i])
                raise Unsupported('metadata of %r' % (x,))
            raise Unsupported('unop ' + a[0])
        if k == 'Cast': return s.cast(fr, a)
        if k == 'Aggregate': return s.aggregate(fr, a)
        if k == 'Repeat':
            v = s.operand(fr, a[0])
            n = int.from_bytes(bytes(a[1]['kind']['Value'][1]['bytes']), 'little')
            return L([copyval(v) if isinstance(v, L) else v for _ in range(n)])
        if k == 'Discriminant':
            l, i = s.place(fr, a)
            v = s.slotval(l, i)
            t = s.ty(s.placety(fr, a))
            if isinstance(v, OrdE): return v[0]
            if isinstance(v, E):
                if not isinstance(v[0], int): return v[0]
                d = int(t['variants'][v[0]]['discr'])
                try: tag = t['layout']['variants']['tag']['Initialized']['value']['Int']
                except (KeyError, TypeError): return d
                bits = int(tag['length'][1:])
                return d - (1 << bits) if tag['signed'] and d >> (bits - 1) & 1 and len(t['variants']) <= 256 else d
            if t['k'] != 'adt' or t['kind'] != 'Enum': return 0
            one = (t.get('layout') or {}).get('variants'); one = one.get('single') if isinstance(one, dict) else None
            if one is not None: return int(t['variants'][one]['discr'])     # one inhabited variant: no tag is stored
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'Len':
            l, i = s.place(fr, a)
            if i is None: return l.n
            return len(l[i])
        if k == 'CopyForDeref': return s.load(*s.place(fr, a))
        if k == 'NullaryOp': raise Unsupported('nullary')
        if k == 'ThreadLocalRef': raise Unsupported('tls')
        raise Unsupported('rvalue ' + k)

    def cmp3(s, x, y):
        d = lt(x, y); e = eq(x, y)
        if isinstance(d, int) and isinstance(e, int): return E([0 if d else 1 if e else 2])
        # symbolic ordering: variant index as a term (discriminants are -1,0,1)
        return OrdE(d, e)

    def checked(s, fr, op, x, y, t, bi):
        if op in ('Shl', 'Shr'):
            inr = band(ge(y, 0), lt(y, t['bits']))
            return L([s.binop(op, x, y, t), bnot(inr)])
        v = add(x, y) if op == 'Add' else sub(x, y) if op == 'Sub' else mul(x, y)
        lo, hi = s.inrange(v, t)
        if isinstance(v, int):
            return L([s.wrap(v, t), int(not lo <= v <= hi)])
        ok = (v.lo is not None and v.lo >= lo and v.hi is not None and v.hi <= hi)
        if ok: return L([v, 0])
        inr = band(ge(v, lo), le(v, hi))
        tm = fr.fn.blocks[bi][1]
        if isinstance(tm, dict) and 'Assert' in tm and isinstance(tm['Assert']['msg'], dict) and 'Overflow' in tm['Assert']['msg']:
            s.oblige(inr, 'overflow', 'no overflow in %s' % op)
            return L([T.mk(v.p, lo, hi), 0])
        return L([s.wrap(v, t), bnot(inr)])

    def cast(s, fr, a):
        kind, o, tid = a
        v = s.operand(fr, o)
        t = s.ty(tid)
        if kind == 'IntToInt':
            if t['k'] == 'int':
                if isinstance(v, E): raise Unsupported('enum cast')
                return s.wrap(v, t)
            if t['k'] in ('bool', 'char'): return v
        src = s.ty(s.opty(fr, o))
        if isinstance(kind, dict) and kind.get('PointerCoercion') == 'Unsize':
            to = t
            while to['k'] == 'adt' and 'Box' in to['path']: raise Unsupported('unsize box')
            tgt = s.ty(t['to'])
            if tgt['k'] == 'slice':
                if isinstance(v, View): return View(v.l, v.start, v.n)
                arr = v.l[v.i]
                if isinstance(arr, Abs): arr = s.concretize(v.l, v.i, arr)
                n = s.ty(src['to'])['len']
                return View(arr, 0, n)
            return v
        if kind == 'PtrToPtr' or (isinstance(kind, dict)) or kind in ('Transmute', 'BoxDerefTransmute', 'FnPtrToPtr'):
            return s.ptrcast(v, src, t)
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance'): return v
        raise Unsupported('cast %r' % (kind,))

    def uninit(s, tid):
        t = s.ty(tid)
        if t['k'] == 'adt' and t['kind'] == 'Struct': return L([s.uninit(f[1]) for f in t['variants'][0]['fields']])
        if t['k'] == 'array': return L([s.uninit(t['elem']) for _ in range(t['len'])])
        return UN

    def pointee(s, t):
        if t['k'] in ('ref', 'ptr'): return s.ty(t['to'])
        if t['k'] == 'adt':
            for f in t['variants'][0]['fields']:
                r = s.pointee(s.ty(f[1]))
                if r is not None: return r
        return None

    def ptrcast(s, v, src, t):
        if isinstance(v, (FnVal, Opaque)): return v
        if t['k'] == 'int' and isinstance(v, (Slot, View)): return v
        if isinstance(v, int) or isinstance(v, V):
            if t['k'] == 'int': return s.wrap(v, t)
            return v
        if isinstance(v, L):
            # transmute of aggregates: newtype wrappers around pointers or equal-size arrays
            if src['name'] == t['name']: return v
            if t['k'] in ('ref', 'ptr'):
                x = v
                while isinstance(x, L) and len(x) >= 1: x = x[0]
                if isinstance(x, (Slot, View)): return x
            return s.reshape(v, src, t)
        if isinstance(v, (Slot, View)) and t['k'] == 'adt':
            # wrap pointer into newtype struct(s)
            fs = t['variants'][0]['fields']
            if t['kind'] == 'Enum': raise Unsupported('transmute to enum')
            inner = s.ptrcast(v, src, s.ty(fs[0][1]))
            return L([inner] + [s.zst(f[1]) for f in fs[1:]])
        if isinstance(v, Slot) and isinstance(v.i, int) and v.l[v.i] is UN and t['k'] == 'ptr':
            v.l[v.i] = s.uninit(t['to'])      # fresh allocation: gets the shape of its first typed pointer
            return v
        if isinstance(v, Slot):
            p0, p1 = s.pointee(src), s.pointee(t)
            if p0 is None or p1 is None or p0['name'] == p1['name']: return v
            if p1['k'] == 'array':
                if p0['k'] == 'array' : 
                    return v if p0['name'] == p1['name'] else s._bad('array ptr cast')
                # element pointer to array pointer
                if s.ty(p1['elem'])['name'] == p0['name']: return View(v.l, v.i, p1['len'], True)
                x = v.l[v.i]
                if isinstance(x, L) and p0['k'] == 'adt': # e.g. GenericArray<u8,N> -> [u8;N]
                    return v
            if p0['k'] == 'array' and s.ty(p0['elem'])['name'] == p1['name']:
                arr = v.l[v.i]
                if isinstance(arr, Abs): arr = s.concretize(v.l, v.i, arr)
                return Slot(arr, 0)
            if p0['k'] == 'tuple' or p1['k'] == 'tuple': return v
            # struct pointer to its first field (newtype)
            if p1['k'] in ('slice', 'str'): return v
            x = v.l[v.i] if isinstance(v.i, int) and v.i < len(v.l) else None
            if p0['k'] == 'adt' and p0['kind'] == 'Struct' and p0['variants'][0]['fields']:
                f0 = p0['variants'][0]['fields']
                for idx, f in enumerate(f0):
                    if s.ty(f[1])['name'] == p1['name'] and isinstance(x, L): return Slot(x, idx)
            if p1['name'] in ('u8', '()'): return v
            if p0['name'] in ('u8', '()'): return v
            if 'MaybeUninit' in p0['name'] or 'MaybeUninit' in p1['name'] or 'ManuallyDrop' in p0['name'] or 'ManuallyDrop' in p1['name']: return v
            raise Unsupported('pointer cast %s -> %s' % (p0['name'], p1['name']))
        if isinstance(v, View):
            p1 = s.pointee(t)
            if p1 is not None and p1['k'] not in ('slice', 'str', 'array', 'dyn'): return Slot(v.l, v.start)
            if p1 is not None and p1['k'] == 'array': return View(v.l, v.start, p1['len'], True)
            return v
        raise Unsupported('ptrcast of %r' % (v,))

    def reshape(s, v, src, t):
        raise Unsupported('transmute %s -> %s' % (src['name'], t['name']))

    def aggregate(s, fr, a):
        k, ops = a
        vals = [s.operand(fr, o) for o in ops]
        if k == 'Tuple': return L(vals)
        kk, d = next(iter(k.items())) if isinstance(k, dict) else (k, None)
        if kk == 'Array': return L(vals)
        if kk == 'Adt':
            tid = None
            return ('adt', d, vals)
        if kk == 'Closure': return L(vals)
        if kk == 'RawPtr':
            # (data ptr, metadata)
            p, m = vals
            if isinstance(m, L): return p
            if isinstance(p, Slot): return View(p.l, p.i, m)
            if isinstance(p, View): return View(p.l, p.start, m)
        raise Unsupported('aggregate %r' % (kk,))

    def mkadt(s, d, vals, tid):
        t = s.ty(tid)
        if t['k'] != 'adt': return L(vals)
        if t['kind'] == 'Enum': return E([d[1]] + vals)
        if t['kind'] == 'Union': 
            return L(vals)
        # active field order is positional for structs
        return L(vals)

    # ------------------------------------------------------------ merging
    def mergeval(s, c, a, b):
        """value equal to a if c else b"""
        if a is b: return a
        if isinstance(a, (int, V)) and isinstance(b, (int, V)): return ite(c, a, b)
        if a is UN or b is UN: return UN
        if isinstance(a, Abs) or isinstance(b, Abs):
            if isinstance(a, Abs) and isinstance(b, Abs):
                r = a.merge(c, b)
                return NOMERGE if r is None else r
            return NOMERGE
        if isinstance(a, L) and isinstance(b, L) and type(a) is type(b) and not isinstance(a, (LazyArr, ParamArr)):
            if len(a) != len(b): return NOMERGE
            if isinstance(a, E) and a[0] != b[0]: return NOMERGE
            out = []
            for x, y in zip(a, b):
                r = s.mergeval(c, x, y)
                if r is NOMERGE: return NOMERGE
                out.append(copyval(r) if isinstance(r, L) else r)
            r = E() if isinstance(a, E) else L()
            list.extend(r, out)
            return r
        if isinstance(a, Slot) and isinstance(b, Slot) and a.l is b.l and veqi(a.i, b.i): return a
        if isinstance(a, View) and isinstance(b, View) and a.l is b.l:
            if veqi(a.start, b.start) and veqi(a.n, b.n): return a
            return View(a.l, ite(c, a.start, b.start), ite(c, a.n, b.n)) if isinstance(a.l, ParamArr) or hasattr(a.l, 'symread') else NOMERGE
        if isinstance(a, FnVal) and isinstance(b, FnVal) and a.key == b.key: return a
        if isinstance(a, Opaque) and isinstance(b, Opaque): return a
        return NOMERGE

    def merge_two(s, o1, o2, npc):
        """merge two outcomes (state = common state). Returns Outcome or None"""
        c = T.ball(o1.pc)
        keys = dict(o1.delta); keys.update(o2.delta)
        pre = {}
        for k, (l, i, _) in keys.items():
            if k in o1.frozen or k in o2.frozen:
                v1 = o1.frozen.get(k, None) if k in o1.frozen else (l[i])
                v2 = o2.frozen.get(k, None) if k in o2.frozen else (l[i])
                m = s.mergeval(c, v1, v2)
                if m is NOMERGE: return None
                if isinstance(m, L): m = copyval(m)
                pre[k] = (l, i, m)
        # common prefix of conditions
        n = 0
        pc = [bor(c, T.ball(o2.pc))]
        if isinstance(pc[0], int): pc = []
        return Outcome(pc, pre, {k: (copyval(v[2]) if isinstance(v[2], L) else v[2]) for k, v in pre.items()})

    def merge_all(s, outs, npc):
        if len(outs) > 40 or s.nomerge: return outs
        outs = list(outs)
        i = 0
        while i < len(outs):
            j = i + 1
            while j < len(outs):
                m = s.merge_two(outs[i], outs[j], npc)
                if m is not None:
                    outs[i] = m; outs.pop(j); j = i + 1
                else: j += 1
            i += 1
        return outs

    # ------------------------------------------------------------ running
    def run(s, fr, bb, stop, fresh=True):
        """run from block bb until stop (None: return).  ONE / NONE / list of outcomes relative to current state"""
        fn = fr.fn
        blocks = fn.blocks
        first = not fresh
        while True:
            if bb == stop and first: return ONE
            if s.lruns or ((s.autoloops or s.loopspecs or s.accloops) and (bb in fn.loops or bb in fr.recut)):
                r = s.at_loop(fr, bb, stop)
                if r is not None: return r
            first = True
            st, t = blocks[bb]
            s.steps += 1
            if s.deadline and (s.steps & 255) == 0 and time.time() > s.deadline: raise Budget('time budget exhausted')
            for si, sm in enumerate(st):
                k = sm['kind']
                if isinstance(k, dict):
                    if 'Assign' in k:
                        p, rv = k['Assign']
                        v = s.rvalue(fr, rv, bb, si)
                        if type(v) is tuple and v[0] == 'adt':
                            v = s.mkadt(v[1], v[2], s.placety(fr, p))
                        if not p['projection']: s.wr(fr.loc, p['local'], v)
                        else: s.store(*s.place(fr, p), v)
                    elif 'StorageDead' in k:
                        if k['StorageDead'] in fn.borrowed: s.wr(fr.loc, k['StorageDead'], UN)
                    elif 'SetDiscriminant' in k:
                        l, i = s.place(fr, k['SetDiscriminant']['place'])
                        v = s.slotval(l, i)
                        s.wr(v, 0, k['SetDiscriminant']['variant_index'])
                    elif 'Intrinsic' in k:
                        d = k['Intrinsic']
                        if isinstance(d, dict) and 'Assume' in d: continue
                        s.copy_nonoverlapping(fr, d)
            if t == 'Return': return ONE
            if isinstance(t, str):
                if t == 'Unreachable':
                    s.oblige(0, 'unreachable', 'unreachable code is not reached')
                    return NONE
                raise Unsupported('terminator ' + t)
            k, a = next(iter(t.items()))
            if k == 'Goto': bb = a['target']
            elif k == 'SwitchInt':
                d = s.operand(fr, a['discr'])
                br = a['targets']['branches']
                if not isinstance(d, int): d = T.subst_pc(d) if isinstance(d, V) else d
                if isinstance(d, OrdV): d = d.disc()
                if isinstance(d, int):
                    bits = s.ty(s.opty(fr, a['discr']))
                    if d < 0: d = d % (1 << bits['bits'])
                    for v, tg in br:
                        if v == d: bb = tg; break
                    else: bb = a['targets']['otherwise']
                    continue
                r = s.switch(fr, bb, d, br, a['targets']['otherwise'], stop, s.ty(s.opty(fr, a['discr'])))
                if type(r) is int: bb = r; first = True; continue
                if r is NONE: return NONE
                # (outcomes, join)
                outs, join = r
                if join == RETJOIN: return outs
                return s.continue_multi(fr, outs, join, stop)
            elif k == 'Assert':
                c = s.operand(fr, a['cond'])
                good = c if a['expected'] else bnot(c)
                if good != 1 or not isinstance(good, int):
                    m = a['msg']
                    mk = next(iter(m)) if isinstance(m, dict) else m
                    s.oblige(good, 'assert', mk)
                    if isinstance(good, int): return NONE
                    T._learn(good)
                else:
                    s.obligs_trivial()
                bb = a['target']
            elif k == 'Drop': bb = a['target']
            elif k == 'Call':
                r = s.call(fr, bb, a)
                if r is NONE: return NONE
                if r is not ONE:
                    return s.continue_multi(fr, r, a['target'], stop)
                bb = a['target']
            else: raise Unsupported('terminator ' + k)

    # ------------------------------------------------------------ loops
    def at_loop(s, fr, bb, stop):
        """None: go on; otherwise the result of the run"""
        for lr in s.lruns:
            if lr.fr is not fr: continue
            if bb == lr.hdr:
                if lr.mode == 'fresh': lr.mode = lr.backs.pop(); return None
                if lr.mode == 'collect':
                    d = {}
                    for l, i, old in s.trail[lr.ntrail:]:
                        k = (id(l), i)
                        if k not in d: d[k] = (l, i, old, l[i])
                    lr.backs.append((d, list(T.PC[lr.npc:])))
                elif lr.onback: lr.onback(s, fr)
                return NONE
            if lr.mode == 'collect' and bb not in lr.body: return NONE
            if lr.mode == 'once' and bb not in lr.body and bb in fr.fn.canret:
                lr.onexit(s, fr); return NONE
            if lr.mode == 'exit' and lr.onexit and bb in lr.exits: lr.onexit(s, fr)
        if bb not in fr.fn.loops and bb not in fr.recut: return None
        if any(lr.fr is fr and lr.hdr == bb for lr in s.lruns): return None
        if bb in fr.recut and any(lr.fr is fr and lr.body is fr.recut[bb] for lr in s.lruns): return None
        spec = s.loopspecs.get((fr.fn.cname, sorted(fr.fn.loops).index(bb))) if bb in fr.fn.loops else None
        if spec is not None: return spec(s, fr, bb, stop)
        if s.accloops is not None and bb not in fr.unroll: return s.accloops(s, fr, bb, stop)
        if s.autoloops and bb not in fr.unroll:
            try: return s.induct(fr, bb, stop)
            except NotInductive:
                fr.unroll.add(bb); body = fr.fn.loops.get(bb)
                if body and s.havoc:         # the invariant may be simpler elsewhere in the cycle (a loop that tests what the last iteration drew)
                    for x in sorted(body - {bb}):
                        if isinstance(fr.fn.blocks[x][1], dict) and 'Call' in fr.fn.blocks[x][1] and x not in fr.fn.loops and oncycle(fr.fn, bb, body, x): fr.recut[x] = body
        return None

    def collect(s, fr, bb):
        """states at the back edges after one iteration from the current state; nothing is kept"""
        npc = T.push_scope(); s.mark()
        n = len(s.obligs); nt = s.ntriv
        lr = LoopRun(fr, bb, 'fresh'); lr.backs = ['collect']; lr.ntrail = len(s.trail); lr.npc = len(T.PC)
        s.lruns.append(lr)
        try:
            s.run(fr, bb, None, fresh=True)
            live = fr.fn.live[bb]; bor = fr.fn.borrowed
            out = []
            for d, pc in lr.backs:
                ch = {}
                for k, (l, i, old, new) in d.items():
                    if l.born >= s.mark_stamp: continue
                    if l is fr.loc and i not in live and i not in bor: continue
                    ch[k] = (l, i, old, new)
                out.append((ch, pc))
            return out
        finally:
            s.lruns.remove(lr)
            del s.obligs[n:]; s.ntriv = nt
            s.undo(); T.pop_scope(npc)

    def from_header(s, fr, bb, stop, onback=None):
        """run one generic iteration and everything after the loop"""
        lr = LoopRun(fr, bb, 'fresh'); lr.backs = ['exit']; lr.onback = onback
        s.lruns.append(lr)
        try: return s.run(fr, bb, stop, fresh=True)
        finally: s.lruns.remove(lr)

    def deltas(s, backs):
        r = None
        for ch, pc in backs:
            d = {}
            for k, (l, i, old, new) in ch.items():
                if not (isinstance(old, (int, V)) and isinstance(new, (int, V))):
                    if old is new: continue
                    if s.havoc: d[k] = (l, i, old, UN); continue
                    raise NotInductive
                e = sub(new, old)
                if not isinstance(e, int):
                    if s.havoc: d[k] = (l, i, old, UN); continue
                    raise NotInductive
                if e: d[k] = (l, i, old, e)
            if s.havoc:          # cells that change otherwise hold nothing known at the start of a later iteration
                for k in set(d) | set(r or {}):
                    x = (r or d).get(k); y = d.get(k)
                    if x is None or y is None or x[3] is UN or y[3] is UN or x[3] != y[3]:
                        z = x or y; d[k] = (z[0], z[1], z[2], UN)
                r = d; continue
            if r is not None and {k: v[3] for k, v in r.items()} != {k: v[3] for k, v in d.items()}: raise NotInductive
            r = d
        return r

    def induct(s, fr, bb, stop):
        backs = s.collect(fr, bb)
        if not backs: return None            # at most one iteration from here: plain execution
        ds = s.deltas(backs)
        if not any(v[3] is not UN for v in ds.values()): s.oblige(0, 'termination', 'the loop makes progress'); return NONE
        k = T.var('iter%d' % len(T.AT), 0, 1 << 63); kid = next(iter(k.p))[0]
        def setgen():
            for l, i, old, e in ds.values(): s.wr(l, i, UN if e is UN else add(old, scale(k, e)))
        # inductive step from the generic iteration k
        npc = T.push_scope(); s.mark()
        try:
            setgen()
            gb = s.collect(fr, bb)
        except Unsupported:
            if s.havoc and (fr.recut or fr.fn.loops.get(bb)): raise NotInductive
            raise
        finally: s.undo(); T.pop_scope(npc)
        if not gb: raise NotInductive
        gd = s.deltas(gb)
        if {q: v[3] for q, v in gd.items() if v[3] is not UN} != {q: v[3] for q, v in ds.items() if v[3] is not UN}: raise NotInductive
        if any(v[3] is UN and (q not in ds or ds[q][3] is not UN) for q, v in gd.items()): raise NotInductive
        C = T.bany([T.ball(pc) for _, pc in gb])
        setgen()
        s.foralls.append((k, list(T.PC), lambda j: T.rebuild(C, {kid: j})))
        s.fact(bor(eq(k, 0), T.rebuild(C, {kid: sub(k, 1)})))
        return s.from_header(fr, bb, stop)

    ntriv = 0
    def obligs_trivial(s): s.ntriv += 1

    def continue_multi(s, fr, outs, bb, stop):
        if bb is None: return NONE
        res = []
        if len(outs) > s.maxpaths: raise Unsupported('too many paths')
        for o in outs:
            npc = T.push_scope()
            s.mark()
            try:
                ok = True
                for c in o.pc:
                    if not T.assume(c): ok = False
                if not ok: continue
                s.apply(o)
                r = s.run(fr, bb, stop, fresh=False)
                dead = s.deadf(fr, stop)
                if r is ONE: res.append(s.capture(npc, dead))
                elif r is NONE: pass
                else:
                    base = s.capture(npc, None)
                    for q in r:
                        d = dict(base.delta); d.update(q.delta)
                        f = dict(base.frozen); f.update(q.frozen)
                        res.append(Outcome(base.pc + q.pc, d, f))
            finally:
                s.undo()
                T.pop_scope(npc)
        if not res: return NONE
        if len(res) > 1: res = s.merge_all(res, None)
        if len(res) == 1:
            s.apply(res[0])
            for c in res[0].pc: s.fact(c)
            return ONE
        return res

    def fact(s, c):
        """c is known to hold on the current path (other alternatives were shown impossible)"""
        if isinstance(c, int): return
        if T.SCOPE: T.assume(c)
        else:
            T.PC.append(c); T._learn(c)

    def deadf(s, fr, join):
        loc = fr.loc
        if join is None:
            def dead(l, i): return l is loc and i != 0
        else:
            live = fr.fn.live[join]; bor = fr.fn.borrowed
            def dead(l, i): return l is loc and i not in live and i not in bor
        return dead

    def switch(s, fr, bb, d, branches, otherwise, stop, ty):
        fn = fr.fn
        if s.loop_hook:
            r = s.loop_hook(s, fr, bb, d, branches, otherwise)
            if r is not None: return r
        join = fn.ipdom.get(bb)
        if bb not in fn.ipdom: join = None
        alts = []
        rest = 1
        for v, tg in branches:
            if isinstance(ty, dict) and ty.get('signed') and v >= 1 << (ty['bits']-1): v -= 1 << ty['bits']
            c = eq(d, v)
            c = T.subst_pc(c)
            alts.append((c, tg))
            rest = band(rest, bnot(c))
        alts.append((T.subst_pc(rest), otherwise))
        alts = [(c, tg) for c, tg in alts if not (isinstance(c, int) and c == 0)]
        for c, tg in alts:
            if isinstance(c, int) and c == 1: return tg
        if len(alts) == 1: return alts[0][1]
        s.switches += 1
        outs = []
        dead = s.deadf(fr, join)
        if len(s.marks) > s.depthlimit: raise Unsupported('branch depth in ' + ' < '.join(f.fn.name[:60] for f in reversed(s.stack)))
        for c, tg in alts:
            if tg not in fn.canret and s.fastpanic(fr, tg):
                # straight to a panic: the obligation is not c
                s.oblige(bnot(c), 'panic', 'panic not reached: ' + s.panicname(fr, tg))
                continue
            npc = T.push_scope()
            s.mark()
            try:
                if not T.assume(c): continue
                # a fork nested in itself (an unrolled loop): go on only if the path is satisfiable
                again = fr.forks.get(bb, 0)
                if again >= 2 and not solver.feasible(): continue
                fr.forks[bb] = again + 1
                try: r = s.run(fr, tg, join, fresh=False)
                finally: fr.forks[bb] = again
                if r is ONE: outs.append(s.capture(npc, dead))
                elif r is NONE: pass
                else:
                    base = s.capture(npc, None)
                    for q in r:
                        dl = dict(base.delta); dl.update(q.delta)
                        fz = dict(base.frozen); fz.update(q.frozen)
                        outs.append(Outcome(base.pc + q.pc, dl, fz))
            finally:
                s.undo()
                T.pop_scope(npc)
        if not outs: return NONE
        if len(outs) > 1: outs = s.merge_all(outs, None)
        if len(outs) == 1:
            s.apply(outs[0])
            for c in outs[0].pc: s.fact(c)
            if join is None: return (ONE_RET, None) if False else s._ret(fr)
            return join
        if join is None: return (outs, RETJOIN)
        # drop infeasible paths before forking
        if len(outs) > 1: outs = s.prune(outs)
        if not outs: return NONE
        return (outs, join)

    def prune(s, outs):
        res = []
        for o in outs:
            npc = T.push_scope()
            try:
                ok = all(T.assume(c) for c in o.pc)
                if ok and T.PC and not solver.feasible(): ok = False
            finally: T.pop_scope(npc)
            if ok: res.append(o)
        return res

    def _ret(s, fr):
        """block index of a bare return for the frame (after a merged return)"""
        fn = fr.fn
        for i, (st, t) in enumerate(fn.blocks):
            if t == 'Return' and all(not (isinstance(x['kind'], dict) and 'Assign' in x['kind']) for x in st): return i
        # synthesize
        fn.blocks.append(([], 'Return'))
        i = len(fn.blocks) - 1
        fn.canret.add(i); fn.ipdom[i] = None; fn.live.append({0}); fn.succ.append([])
        return i

    def fastpanic(s, fr, bb):
        seen = set()
        fn = fr.fn
        while bb not in seen:
            seen.add(bb)
            st, t = fn.blocks[bb]
            if isinstance(t, dict):
                if 'Goto' in t: bb = t['Goto']['target']; continue
                if 'Call' in t:
                    if t['Call']['target'] is None:
                        return True
                    bb = t['Call']['target']; continue
            return t == 'Unreachable'
        return False

    def panicname(s, fr, bb):
        fn = fr.fn
        seen = set()
        while bb not in seen:
            seen.add(bb)
            st, t = fn.blocks[bb]
            if isinstance(t, dict):
                if 'Goto' in t: bb = t['Goto']['target']; continue
                if 'Call' in t:
                    if t['Call']['target'] is not None: bb = t['Call']['target']; continue
                    for o in t['Call']['args']:
                        try:
                            v = s.operand(fr, o)
                            if isinstance(v, View): return bytes(v.l[v.start:v.start+v.n]).decode('utf8', 'replace')
                        except Exception: pass
                    return 'panic'
            break
        return 'unreachable'

    # ------------------------------------------------------------ calls
    def call(s, fr, bb, a):
        key = fr.fn.calls.get(bb)
        args = None
        if key is None:
            f = s.operand(fr, a['func'])
            if isinstance(f, FnVal) and f.key: key = f.key
            else: raise Unsupported('indirect call')
        fn = s.p.fns[key]
        cn = fn.cname
        if a['target'] is None or any(x in fn.name for x in DIVERGE):
            if any(x in fn.name for x in DIVERGE) or a['target'] is None:
                s.oblige(0, 'panic', 'panic not reached: ' + s.panicname(fr, bb))
                return NONE
        args = [s.operand(fr, o) for o in a['args']]
        if fn.raw and '{closure' in fn.name and args and isinstance(args[-1], L):
            # rust-call ABI: closures are called with their arguments as one tuple
            p = next(iter(a['args'][-1].values())); s.p.prep(fn)
            if isinstance(p, dict) and 'local' in p:
                ti = s.placety(fr, p)
                if s.ty(ti)['k'] == 'tuple' and len(args) - 1 + len(args[-1]) == fn.argc and (len(args) != fn.argc or ti != fn.locals[fn.argc]):
                    args = args[:-1] + list(args[-1])
        r = s.callfn(fn, args, fr, bb)
        if r is NONE: return NONE
        if isinstance(r, tuple):       # ('val', v)
            s.setdest(fr, a['destination'], r[1])
            return ONE
        # list of outcomes each leaving the value in a result box
        outs, box = r.outs, r.box
        res = []
        for o in outs:
            s.mark()
            npc = T.push_scope()
            try:
                s.apply(o)
                s.setdest(fr, a['destination'], box[0])
                q = s.capture(npc, None)
                d = dict(o.delta); d.update(q.delta); d.pop((id(box), 0), None)
                f = dict(o.frozen); f.update(q.frozen); f.pop((id(box), 0), None)
                res.append(Outcome(o.pc, d, f))
            finally:
                T.pop_scope(npc); s.undo()
        return res

    def setdest(s, fr, p, v):
        if not p['projection']: s.wr(fr.loc, p['local'], v)
        else: s.store(*s.place(fr, p), v)

    def callfn(s, fn, args, fr=None, bb=None):
        """('val', v) | NONE | Multi"""
        cn = fn.cname
        c = s.contracts.get(cn)
        if c is not None:
            r = c(s, fn, args)
            if r is not NotImplemented:
                s.used_contracts.add(cn)
                return s.finish(r)
        b = s.builtin(fn)
        if b is not None:
            r = b(s, fn, args)
            if r is not NotImplemented:
                s.trusted.add(fn.name.split('<')[0] if fn.name[0] != '<' else cn)
                return s.finish(r)
        if fn.raw and SLICE_FOLD.search(fn.name):
            g = s.p.synth_iter(fn)
            if g is not None: return s.inline(g, args)
        if fn.raw and VEC_ITER.search(fn.name):
            g = s.p.synth_vec(fn)
            if g is not None: return s.inline(g, args)
        if not fn.raw:
            k = s.ctor(fn.name, len(args))
            if k is not None: return ('val', L(args) if k < 0 else E([k] + list(args)))
            raise Unsupported('no body: ' + fn.name)
        return s.inline(fn, args)

    def ctor(s, name, n):
        """constructor of a tuple struct (-1) or of an enum variant (its index) used as a function"""
        name = name.split('<')[0] if name[0] != '<' else name
        for t in s.p.types.values():
            if t.get('k') != 'adt' or not t.get('path'): continue
            if t['kind'] == 'Struct' and t['path'] == name and len(t['variants'][0]['fields']) == n: return -1
            if t['kind'] == 'Enum' and name.startswith(t['path'] + '::'):
                for i, v in enumerate(t['variants']):
                    if name == t['path'] + '::' + v['name'] and len(v['fields']) == n: return i
        return None

    def callfn_body(s, fn, args):
        """the real body, whatever contract exists for it"""
        if not fn.raw: raise Unsupported('no body: ' + fn.name)
        return s.inline(fn, args)

    def builtin(s, fn):
        try: return s._bc[fn.key]
        except (AttributeError, KeyError): pass
        if not hasattr(s, '_bc'): s._bc = {}
        r = None
        for pat, f in s.builtins:
            if pat.search(fn.name): r = f; break
        s._bc[fn.key] = r
        return r

    def finish(s, r):
        if r is NONE: return NONE
        if isinstance(r, Multi): return r
        if isinstance(r, Alt):
            box = L([UN]); box.born = 0
            outs = []
            for c, th in r.alts:
                c = T.subst_pc(c) if isinstance(c, V) else c
                if isinstance(c, int) and not c: continue
                if isinstance(c, int) and c: return s.finish(th())
                npc = T.push_scope()
                s.mark()
                try:
                    T.assume(c)
                    v = th()
                    if v is NONE: continue
                    if isinstance(v, Alt): raise Unsupported('nested alt')
                    s.wr(box, 0, v)
                    outs.append(s.capture(npc, None))
                finally:
                    s.undo(); T.pop_scope(npc)
            if not outs: return NONE
            if len(outs) > 1: outs = s.merge_all(outs, None)
            if len(outs) == 1:
                s.apply(outs[0]); 
                for c in outs[0].pc: s.fact(c)
                return ('val', box[0])
            return Multi(outs, box)
        return ('val', r)

    def inline(s, fn, args):
        s.p.prep(fn)
        if len(s.stack) > 60: raise Unsupported('recursion')
        n = len(fn.locals)
        if len(args) != fn.argc:
            # rust-call ABI: last argument is a tuple
            if args and isinstance(args[-1], L) and len(args) - 1 + len(args[-1]) == fn.argc:
                args = args[:-1] + list(args[-1])
            elif fn.argc == 1 and len(args) == 2 and not args[-1]: args = args[:1]
            else: raise Unsupported('argument count %s' % fn.name)
        loc = L([UN] * n)
        for i, v in enumerate(args): loc[i+1] = v
        fr = Frame(fn, loc, len(s.stack))
        if fn.inrepo: s.inlined.add(fn.cname)
        s.stack.append(fr)
        try:
            r = s.run(fr, 0, None)
            if r is NONE: return NONE
            if r is ONE:
                v = loc[0]
                if v is UN: v = s.zst(fn.locals[0])
                return ('val', v)
            box = L([UN]); box.born = 0
            outs = []
            for o in r:
                s.mark(); npc = T.push_scope()
                try:
                    s.apply(o)
                    v = loc[0]
                    if v is UN: v = s.zst(fn.locals[0])
                    s.wr(box, 0, v)
                    q = s.capture(npc, None)
                    d = dict(o.delta); d.update(q.delta)
                    f = dict(o.frozen); f.update(q.frozen)
                    lid = id(loc)
                    outs.append(Outcome(o.pc, d, {k: v for k, v in f.items() if k[0] != lid}))
                finally: T.pop_scope(npc); s.undo()
            return Multi(outs, box)
        finally:
            s.stack.pop()

    # ------------------------------------------------------------ raw memory helpers for builtins
    def readp(s, p):
        if isinstance(p, Slot): return s.load(p.l, p.i)
        if isinstance(p, View): return s.load(p, None)
        raise Unsupported('read through %r' % (p,))

    def writep(s, p, v):
        if isinstance(p, Slot): s.store(p.l, p.i, v)
        elif isinstance(p, View): s.store(p, None, v)
        else: raise Unsupported('write through %r' % (p,))

VEC_ITER = re.compile(r"^<std::vec::Vec<.*> as std::vec::spec_from_iter_nested::SpecFromIterNested<.*>>::from_iter$|^std::vec::Vec::<.*>::extend_(trusted|desugared)::<.*>$")
SLICE_FOLD = re.compile(r"^<std::slice::Iter(Mut)?<'_, .*> as std::iter::Iterator>::(fold|for_each|all|any|find|position)::<")
class Multi:
    def __init__(s, outs, box): s.outs = outs; s.box = box

class OrdV:
    pass

class OrdE(E):
    """std::cmp::Ordering with symbolic truth values (lt, eq)"""
    __slots__ = ('lt', 'eq')
    def __init__(s, l, e):
        L.__init__(s); s.lt = l; s.eq = e
        # discriminant -1/0/1
        list.append(s, sub(sub(1, e), scale(l, 2)))

RETJOIN = -1
ONE_RET = 'oneret'
NOMERGE = object()

def veqi(a, b): return T.veq(a, b)

def parse_hex(h):
    if '??' not in h: return bytes.fromhex(h)
    return [None if h[i:i+2] == '??' else int(h[i:i+2], 16) for i in range(0, len(h), 2)]
