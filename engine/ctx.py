"""Verification units: one unit = one function (or a small group) of /repo checked against its contract."""
import time, traceback, random
import terms as T, exec as X, std, solver, ident
from exec import L, E, Slot, View, UN

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141

class Missing(Exception):
    """the function under contract does not exist (renamed or removed private function)"""

UNITS = {}       # name -> Unit
class Unit:
    def __init__(s, name, props, fn, budget): s.name = name; s.props = props; s.fn = fn; s.budget = budget

def unit(name, props, budget=200, deps=()):
    def d(f):
        UNITS[name] = Unit(name, props.split() if isinstance(props, str) else props, f, budget)
        UNITS[name].deps = deps
        return f
    return d

class Ctx:
    def __init__(s, prog, name, deadline=None):
        s.p = prog; s.name = name; s.deadline = deadline
        s.obligs = []; s.functions = set(); s.inlined = set(); s.contracts = set(); s.trusted = set(); s.assumed = []
        s.ntriv = 0; s.notes = []; s.cases = 0
        s.bounded = []
        s.ex = None; s.label = ''

    def fresh(s, contracts=None, label=''):
        """new symbolic state"""
        s.harvest()
        T.reset()
        s.ex = X.Exec(s.p, contracts or {}, std.B)
        s.ex.unit = s.name; s.ex.deadline = s.deadline
        s.label = label
        s.cases += 1
        return s.ex

    def harvest(s):
        if s.ex is None: return
        if T.PC and not solver.feasible(20000):
            s.ex.obligs.append(X.Oblig(unit=s.name, kind='vacuity', desc='the assumed preconditions are satisfiable', status='refuted', method='z3', secs=0, env={}, where='', goal=None))
        for o in s.ex.obligs:
            if s.label: o.desc = '[%s] %s' % (s.label, o.desc)
            if o.status != 'proved': s.fail_details(o)
            o.goal = None
        s.obligs += s.ex.obligs
        s.ntriv += s.ex.ntriv
        s.inlined |= s.ex.inlined; s.contracts |= s.ex.used_contracts; s.trusted |= s.ex.trusted
        s.ex.obligs = []
        s.ex = None

    def fail_details(s, o):
        if o.goal is None: return
        cond, pc = o.goal
        o.env = {'model': {str(k): v for k, v in (o.env or {}).items()} if isinstance(o.env, dict) else None}
        try: o.env['input'] = ident.search(cond, pc, 400, model={int(k): v for k, v in (o.env['model'] or {}).items() if k.isdigit()})
        except Exception: o.env['input'] = None

    def fn(s, cname):
        f = s.p.find(cname)
        if f is None: raise Missing(cname)
        s.functions.add(cname)
        return f

    def call(s, cname, args):
        """run the real body; yields the value of every path (state applied, path condition assumed)"""
        f = s.fn(cname)
        r = s.ex.callfn_body(f, args)
        if r is X.NONE:
            s.check(0, cname + ' returns on some path', 'vacuity')
            return
        if isinstance(r, tuple):
            yield r[1]; return
        for o in r.outs:
            npc = T.push_scope(); s.ex.mark()
            try:
                ok = True
                for c in o.pc:
                    if not T.assume(c): ok = False
                if not ok: continue
                s.ex.apply(o)
                yield r.box[0]
            finally:
                s.ex.undo(); T.pop_scope(npc)

    def one(s, cname, args):
        l = None
        for v in s.call(cname, args):
            if l is not None: raise T.Unsupported('more than one path')
            l = v
        return l

    def assume(s, c):
        """precondition of the unit"""
        if isinstance(c, int):
            assert c, 'precondition is false'
            return
        T.PC.append(c); T._learn(c)

    def check(s, cond, desc, kind='post'):
        return s.ex.oblige(cond, kind, desc)

    def check_zero(s, D, desc, modulus=None, kind='post', timeout=None):
        t = time.time(); z = T.STATS['z3']
        st, info = ident.prove_zero(D, modulus, list(T.PC), timeout=timeout)
        how = 'z3' if T.STATS['z3'] > z else 'polynomial normal form'
        o = X.Oblig(unit=s.name, kind=kind, desc=desc, status=st, method=how, secs=time.time() - t,
                    env={'input': info} if st == 'refuted' and info else {}, where='', goal=None)
        s.ex.obligs.append(o)
        return st == 'proved'

    def record(s, ok, desc, kind='post', method='complete evaluation', env=None, secs=0):
        s.ex.obligs.append(X.Oblig(unit=s.name, kind=kind, desc=desc, status='proved' if ok else 'refuted', method=method, secs=secs,
                                   env={'input': env} if env else {}, where='', goal=None))

TIER = ['quick']
def run_unit(prog, name):
    """executed in a worker process; returns a plain dict"""
    u = UNITS[name]
    t = time.time()
    T.reset(); solver.RETRY[0] = 90.0
    solver.CROSS[0] = [] if TIER[0] == 'thorough' else None
    c = Ctx(prog, name, time.time() + u.budget)
    err = None
    try:
        u.fn(c)
    except X.Unsupported as e: err = ('unsupported', str(e), where(c))
    except Missing as e: c.notes.append('no function %s in the program: its contract has no caller, nothing to verify' % e)
    except X.Budget as e: err = ('budget', str(e), where(c))
    except MemoryError: err = ('budget', 'out of memory', '')
    except Exception as e: err = ('tool-error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-2500:])
    try: c.harvest()
    except Exception as e: err = err or ('tool-error', 'harvest: %s' % e, traceback.format_exc()[-800:])
    cross = None
    if solver.CROSS[0] is not None:
        cross = solver.crosscheck()
        if cross['contradicted']: err = err or ('solvers', 'cvc5 finds a model of a query z3 refutes', name)
    obs = []
    for o in c.obligs:
        obs.append(dict(unit=o.unit, kind=o.kind, desc=o.desc, status=o.status, method=o.method, secs=round(o.secs or 0, 4), env=o.env, where=o.where))
    return dict(unit=name, secs=time.time() - t, obligs=obs, ntriv=c.ntriv, functions=sorted(c.functions), inlined=sorted(c.inlined),
                contracts=sorted(c.contracts), trusted=sorted(c.trusted), error=err, cases=c.cases, notes=c.notes, bounded=c.bounded,
                assumed=c.assumed, cross=cross, z3=T.STATS['z3'], z3time=T.STATS['z3time'])

def where(c):
    if c.ex is None: return ''
    return ' < '.join(f.fn.cname for f in reversed(c.ex.stack[-5:]))

# ---------------------------------------------------------------- small helpers
def words(l, w=32):
    return T.vsum([T.scale(x, 1 << (w*i)) for i, x in enumerate(l)])
def be(l):
    return T.vsum([T.scale(x, 1 << (8*(len(l)-1-i))) for i, x in enumerate(l)])
def bytesvar(name, n): return L([T.var('%s%d' % (name, i), 0, 255) for i in range(n)])
def u32s(name, n): return L([T.var('%s%d' % (name, i), 0, 2**32-1) for i in range(n)])
def box(v):
    """a memory cell holding v"""
    l = L([v]); l.born = 0
    return l
def ref(v):
    l = box(v)
    return Slot(l, 0)
