"""Loads the dumped MIR and preprocesses it."""
import build
import json, re

class Ref:
    __slots__ = ()

def canon(name):
    n = re.sub(r"[a-z_0-9:]+::<impl ([A-Za-z0-9_:]+?)>", r'\1', name)
    n = re.sub(r"\b(?:[a-z_][a-z_0-9]*::)+(?=[A-Z&\[])", '', n)
    n = re.sub(r"\b(?:libsecp256k1|libsecp256k1_core|std|core|alloc)::(?:[a-z_0-9]+::)*(?=[a-z_0-9]+)", '', n)
    n = n.replace("::<'_>", '').replace("<'_>", '').replace("'_ ", '')
    return n

class Fn:
    __slots__ = ('synth', 'key', 'name', 'cname', 'kind', 'intrinsic', 'blocks', 'locals', 'argc', 'calls', 'file', 'line',
                 'succ', 'ipdom', 'live', 'borrowed', 'args', 'raw', 'inrepo', 'dbg', 'loops', 'canret')

class Prog:
    def __init__(s, path):
        j = json.load(open(path))
        s.types = {int(k): v for k, v in j['types'].items()}
        s.allocs = {int(k): v for k, v in j['allocs'].items()}
        s.roots = j['roots']
        s.fns = {}
        s.byname = {}
        for k, f in j['fns'].items():
            fn = Fn()
            fn.key = k; fn.name = f['name']; fn.cname = canon(f['name']); fn.kind = f['kind']
            fn.intrinsic = f.get('intrinsic'); fn.args = f['args']
            b = f.get('body')
            fn.raw = b
            fn.blocks = None
            fn.inrepo = False
            if b:
                fn.locals = b['locals']; fn.argc = b['arg_count']
                fn.calls = {int(a): c for a, c in b['calls'].items()}
                fn.file = b['span']; fn.line = b['line']; fn.dbg = b['dbg']
                fn.inrepo = (build.REPO + '/') in b['span'] or not b['span'].startswith('/')
            s.fns[k] = fn
            s.byname.setdefault(fn.cname, []).append(fn)
        s.typename = {i: t['name'] for i, t in s.types.items()}
        s.bytype = {}
        for i, t in s.types.items(): s.bytype.setdefault(canon(t['name']), i)
        s.statics = {}
        for i, a in s.allocs.items():
            if a['kind'] == 'static': s.statics[a['name'].split('::')[-1]] = i

    def find(s, cname):
        l = [f for f in s.byname.get(cname, []) if f.raw]
        return l[0] if l else None

    def synth_iter(s, fn):
        """fold, for_each, all, any, find and position of a slice iterator in their defining form: while there is an
        element, apply the closure to it (core overrides them with loops over raw pointers)"""
        if getattr(fn, 'synth', None): return fn.synth
        op = re.search(r'::(\w+)::<', fn.name[fn.name.rindex('Iterator>'):]).group(1)
        loc = fn.locals; call = None
        for i, b in enumerate(fn.raw['blocks']):
            t = b['terminator']['kind']
            if isinstance(t, dict) and 'Call' in t and i in fn.calls:
                c = t['Call']
                if 'precondition_check' in s.fns[fn.calls[i]].name: continue
                if len(c['args']) == 2 and not c['destination']['projection'] and c['target'] is not None and ('call_mut' in s.fns[fn.calls[i]].name or '{closure' in s.fns[fn.calls[i]].name or loc[c['destination']['local']] == loc[0]): call = (c, fn.calls[i])
        if call is None: return None
        B = s.bytype['bool']; U = s.bytype['usize']
        P = lambda n: {'local': n, 'projection': []}
        mv = lambda n: {'Move': P(n)}
        cp = lambda n: {'Copy': P(n)}
        asg = lambda n, r: {'kind': {'Assign': [P(n), r]}}
        calls = {}; blocks = []
        ref = lambda n: {'Ref': [{'kind': 'ReErased'}, {'Mut': {'kind': 'Default'}}, P(n)]}
        use = lambda o: {'Use': [o, 'Yes']}
        def bb(st, t): blocks.append({'statements': st, 'terminator': {'kind': t}})
        def cl(key, args, d, t):
            calls[len(blocks)] = key
            return {'Call': {'args': args, 'destination': P(d), 'func': call[0]['func'], 'target': t, 'unwind': 'Unreachable'}}
        def sw(n, zero, other): return {'SwitchInt': {'discr': mv(n), 'targets': {'branches': [[0, zero]], 'otherwise': other}}}
        byval = op in ('fold', 'for_each')
        F = 3 if op == 'fold' else 2
        # locals: 0 result, 1 iterator (or a reference to it), 2.. arguments, 4 bool, 5 iterator reference, 6 closure
        # reference, 7 element, 8 argument tuple, 9 result of the closure, 10 counter, 11 copy of a reference
        it = [asg(5, ref(1))] if byval else [asg(5, use(cp(1)))]
        argt = {'fold': [mv(2), mv(7)], 'find': [mv(11)]}.get(op, [cp(7)])
        bb(([asg(10, use({'Constant': s.synth_zero(U)}))] if op == 'position' else []), {'Goto': {'target': 1}})
        bb(it, cl('vt_more', [mv(5)], 4, 2))
        bb([], sw(4, 6, 3))
        bb(it + [asg(6, ref(F))], cl('vt_take', [mv(5)], 7, 4))
        bb(([asg(11, ref(7))] if op == 'find' else []) + [asg(8, {'Aggregate': ['Tuple', argt]})], cl(call[1], [mv(6), mv(8)], 9, 5))
        if op == 'fold':
            bb([asg(2, use(mv(9)))], {'Goto': {'target': 1}}); bb([asg(0, use(mv(2)))], 'Return')
        elif op == 'for_each':
            bb([], {'Goto': {'target': 1}}); bb([asg(0, {'Aggregate': ['Tuple', []]})], 'Return')
        elif op in ('all', 'any'):
            bb([], sw(9, 7, 1) if op == 'all' else sw(9, 1, 7))
            bb([asg(0, {'UnaryOp': ['Not', cp(4)]} if op == 'all' else use(cp(4)))], 'Return')      # 4 is false here
            bb([asg(0, use(cp(9)))], 'Return')
        elif op == 'find':
            bb([], sw(9, 1, 7)); bb([], cl('vt_none', [], 0, 8)); bb([], cl('vt_some', [mv(7)], 0, 8)); bb([], 'Return')
        elif op == 'position':
            bb([], sw(9, 9, 7)); bb([], cl('vt_none', [], 0, 8)); bb([], cl('vt_some', [cp(10)], 0, 8)); bb([], 'Return')
            bb([], cl('vt_inc', [mv(10)], 10, 1))
        else: return None
        f = Fn(); f.key = fn.key + '#' + op; f.name = fn.name; f.cname = fn.cname; f.kind = fn.kind; f.intrinsic = None; f.args = fn.args
        f.raw = {'blocks': blocks}; f.blocks = None; f.inrepo = False; f.argc = F; f.file = fn.file; f.line = fn.line; f.dbg = []
        l1 = loc[1]
        ap = next(iter(call[0]['args'][1].values()))
        at = loc[ap['local']] if isinstance(ap, dict) and 'local' in ap and not ap['projection'] else l1
        f.locals = [loc[0], l1, loc[2], loc[3] if op == 'fold' else loc[2], B, l1, loc[F], l1, at, loc[call[0]['destination']['local']], U, l1]
        f.calls = calls
        for k in ('vt_more', 'vt_take', 'vt_some', 'vt_none', 'vt_inc'): s.stub(k)
        fn.synth = f
        return f

    def synth_vec(s, fn):
        """Vec::from_iter and Vec::extend in their defining form (alloc writes through raw pointers): from_iter extends
        a new vector; extend_desugared pushes while there is an element; extend_trusted hands for_each a closure that pushes"""
        if getattr(fn, 'synth', None): return fn.synth
        nm = fn.name; loc = fn.locals
        kind = 'trusted' if '::extend_trusted::<' in nm else 'desugared' if '::extend_desugared::<' in nm else 'from_iter'
        want = {'trusted': ['Iterator>::for_each', 'Iterator>::fold'], 'desugared': ['Iterator>::next'], 'from_iter': ['>::spec_extend', '>::extend_trusted', '>::extend_desugared']}[kind]
        call = None
        for w in want:
            for i, b in enumerate(fn.raw['blocks']):
                t = b['terminator']['kind']
                if isinstance(t, dict) and 'Call' in t and i in fn.calls and fn.calls[i] in s.fns:
                    n = s.fns[fn.calls[i]].name; n = n.split('::<')[0] if n[0] != '<' else n
                    if w in n and call is None: call = (t['Call'], fn.calls[i], w)
        if call is None: return None
        g = s.fns[call[1]]
        if not g.raw: return None
        P = lambda n: {'local': n, 'projection': []}
        mv = lambda n: {'Move': P(n)}
        asg = lambda n, r: {'kind': {'Assign': [P(n), r]}}
        ref = lambda n: {'Ref': [{'kind': 'ReErased'}, {'Mut': {'kind': 'Default'}}, P(n)]}
        calls = {}; blocks = []
        def bb(st, t): blocks.append({'statements': st, 'terminator': {'kind': t}})
        def cl(key, args, d, t):
            calls[len(blocks)] = key
            return {'Call': {'args': args, 'destination': P(d), 'func': call[0]['func'], 'target': t, 'unwind': 'Unreachable'}}
        U = next(i for i, t in s.types.items() if t['name'] == '()') if any(t['name'] == '()' for t in s.types.values()) else loc[0]
        B = s.bytype['bool']
        if kind == 'from_iter':
            # 0 the vector, 1 the iterator, 2 reference to the vector
            bb([], cl('vt_vec', [], 0, 1))
            bb([asg(2, ref(0))], cl(call[1], [mv(2), mv(1)], 3, 2))
            bb([], 'Return'); argc = 1; L_ = [loc[0], loc[1], g.locals[1], g.locals[0]]
        elif kind == 'desugared':
            # 1 reference to the vector, 2 the iterator, 3 reference to it, 4 the element or none, 5 bool, 6 nothing, 7 copy of 1
            bb([asg(3, ref(2))], cl(call[1], [mv(3)], 4, 1))
            bb([], cl('vt_has', [{'Copy': P(4)}], 5, 2))
            bb([], {'SwitchInt': {'discr': mv(5), 'targets': {'branches': [[0, 4]], 'otherwise': 3}}})
            bb([], cl('vt_push', [{'Copy': P(1)}, mv(4)], 6, 0))
            bb([], 'Return'); argc = 2; L_ = [loc[0], loc[1], loc[2], g.locals[1], g.locals[0], B, U]
        else:
            bb([], cl('vt_pusher', [mv(1)], 3, 1))
            if call[2].endswith('fold'):
                bb([asg(4, {'Aggregate': ['Tuple', []]})], cl(call[1], [mv(2), mv(4), mv(3)], 0, 2)); L_ = [loc[0], loc[1], loc[2], g.locals[3], U]
            else: bb([], cl(call[1], [mv(2), mv(3)], 0, 2)); L_ = [loc[0], loc[1], loc[2], g.locals[2]]
            bb([], 'Return'); argc = 2
        f = Fn(); f.key = fn.key + '#' + kind; f.name = fn.name; f.cname = fn.cname; f.kind = fn.kind; f.intrinsic = None; f.args = fn.args
        f.raw = {'blocks': blocks}; f.blocks = None; f.inrepo = False; f.argc = argc; f.file = fn.file; f.line = fn.line; f.dbg = []
        f.locals = L_; f.calls = calls
        for k in ('vt_vec', 'vt_has', 'vt_push', 'vt_pusher'): s.stub(k)
        fn.synth = f
        return f

    def stub(s, k):
        if k not in s.fns:
            g = Fn(); g.key = g.name = g.cname = k; g.kind = 'Item'; g.intrinsic = None; g.args = []; g.raw = None; g.blocks = None; g.inrepo = False
            s.fns[k] = g

    def synth_zero(s, ty):
        return {'const_': {'id': -1, 'kind': {'Allocated': {'align': 8, 'bytes': [0] * 8, 'mutability': 'Mut', 'provenance': {'ptrs': []}}}, 'ty': ty}, 'span': 0, 'user_ty': None}

    def prep(s, fn):
        """successors, post-dominators, liveness"""
        if fn.blocks is not None: return
        raw = fn.raw['blocks']
        n = len(raw)
        fn.blocks = [(b['statements'], b['terminator']['kind']) for b in raw]
        succ = []
        for st, t in fn.blocks:
            succ.append(successors(t))
        fn.succ = succ
        # blocks that can reach return
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for x in ss: pred[x].append(i)
        canret = set()
        stack = [i for i, (st, t) in enumerate(fn.blocks) if t == 'Return']
        while stack:
            x = stack.pop()
            if x in canret: continue
            canret.add(x); stack += pred[x]
        fn.canret = canret
        # post dominators over canret blocks with virtual exit n
        EXIT = n
        order = []
        seen = set()
        # reverse postorder on reversed graph from exit
        rets = [i for i in canret if fn.blocks[i][1] == 'Return']
        def dfs(start):
            st = [(start, iter(rets if start == EXIT else [p for p in pred[start] if p in canret]))]
            seen.add(start)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter([p for p in pred[y] if p in canret])))
                        break
                else:
                    order.append(x); st.pop()
        dfs(EXIT)
        rpo = order[::-1]
        num = {x: i for i, x in enumerate(rpo)}
        idom = {EXIT: EXIT}
        changed = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        while changed:
            changed = False
            for x in rpo:
                if x == EXIT: continue
                ps = [y for y in succ[x] if y in num] + ([EXIT] if fn.blocks[x][1] == 'Return' else [])
                new = None
                for y in ps:
                    if y in idom: new = y if new is None else inter(new, y)
                if new is not None and idom.get(x) != new:
                    idom[x] = new; changed = True
        fn.ipdom = {x: (None if d == EXIT else d) for x, d in idom.items() if x != EXIT}
        # liveness
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        borrowed = set()
        for i, (st, t) in enumerate(fn.blocks):
            u, d = use[i], dfn[i]
            def rd(p):
                if p['local'] not in d: u.add(p['local'])
                for x in p['projection']:
                    if isinstance(x, dict) and 'Index' in x and x['Index'] not in d: u.add(x['Index'])
            def op(o):
                if 'Copy' in o: rd(o['Copy'])
                elif 'Move' in o: rd(o['Move'])
            def wr(p):
                if p['projection']: rd(p)
                else: d.add(p['local'])
            for sm in st:
                k = sm['kind']
                if isinstance(k, dict):
                    if 'Assign' in k:
                        pl, rv = k['Assign']
                        walk_rv(rv, op, rd, lambda p: borrowed.add(p['local']) if 'Deref' not in p['projection'] else None)
                        wr(pl)
                    elif 'SetDiscriminant' in k: rd(k['SetDiscriminant']['place'])
            if isinstance(t, dict):
                if 'SwitchInt' in t: op(t['SwitchInt']['discr'])
                elif 'Call' in t:
                    op(t['Call']['func'])
                    for a in t['Call']['args']: op(a)
                    wr(t['Call']['destination'])
                elif 'Assert' in t: op(t['Assert']['cond'])
                elif 'Drop' in t: rd(t['Drop']['place'])
            elif t == 'Return':
                if 0 not in d: u.add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n-1, -1, -1):
                out = set()
                for x in succ[i]: out |= live[x]
                l = use[i] | (out - dfn[i])
                if l != live[i]: live[i] = l; changed = True
        fn.live = live
        fn.borrowed = borrowed
        # natural loop heads: targets of back edges (via dfs)
        color = {}
        heads = {}
        st = [(0, iter(succ[0]))]; color[0] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if color.get(y) == 1: heads.setdefault(y, set()).add(x)
                elif y not in color:
                    color[y] = 1; st.append((y, iter(succ[y]))); break
            else:
                color[x] = 2; st.pop()
        loops = {}
        for h, tails in heads.items():
            body = {h}
            w = list(tails)
            while w:
                x = w.pop()
                if x in body: continue
                body.add(x); w += pred[x]
            loops[h] = body
        fn.loops = loops

def successors(t):
    if isinstance(t, str): return []
    k, v = next(iter(t.items()))
    if k == 'Goto': return [v['target']]
    if k == 'SwitchInt': return [b for _, b in v['targets']['branches']] + [v['targets']['otherwise']]
    if k in ('Assert', 'Drop'): return [v['target']]
    if k == 'Call': return [v['target']] if v['target'] is not None else []
    return []

def walk_rv(rv, op, rd, bor):
    k, v = next(iter(rv.items()))
    if k == 'Use': op(v[0])
    elif k == 'Repeat': op(v[0])
    elif k == 'Ref': bor(v[2]); rd(v[2])
    elif k == 'AddressOf': bor(v[1]); rd(v[1])
    elif k == 'Cast': op(v[1])
    elif k in ('BinaryOp', 'CheckedBinaryOp'): op(v[1]); op(v[2])
    elif k == 'UnaryOp': op(v[1])
    elif k == 'Discriminant' or k == 'Len' or k == 'CopyForDeref': rd(v)
    elif k == 'Aggregate':
        for o in v[1]: op(o)
