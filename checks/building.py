"""The IR builder of the front end on seeded syntax trees, and a reference for what it must build or refuse."""
from parse import *

INT, UNT = ('i32',), ('unit',)
ROOT = 'items'


class Bad(Exception):
    def __init__(self, why, path): self.why, self.path = why, path


class Sem:
    """what a list of items (nested tuples of the reference grammar) means: a program, the defects with their places, and warnings.
    grey: the meaning of some use is not fixed by the properties (its definition exists but does not reach the use in order)"""
    def __init__(self, items):
        self.errors, self.warnings, self.grey = [], [], []
        self.globals, self.funcs = [], []
        self.gv, self.gf = {}, {}
        self.later = {it[1] for it in items if it[0] in ('FunDef', 'FunDecl')}, {it[1] for it in items if it[0] == 'GlobalDef'}
        for k, it in enumerate(items):
            if it[0] in ('GlobalDef', 'FunDef', 'FunDecl'): getattr(self, it[0])(it, (k,))
            elif it[0] == 'Error': pass

    def err(self, why, path): self.errors.append((why, path))

    def ty(self, t):
        if t[0] == 'IntType': return INT
        if t[0] == 'PointerType': return ('ptr', self.ty(t[1]))
        if t[0] == 'ArrayType': return ('arr', self.ty(t[1]), t[2])
        return ('func', tuple(self.ty(x) for x in t[1]), self.ty(t[2]) if t[2] else UNT)

    def temp(self, n): return all(c == '%' or c.isnumeric() for c in n)
    def name(self, n): return None if self.temp(n) else n

    def init(self, ty, t, path):
        if t[0] == 'UndefVal': return ('undef', ty)
        if t[0] == 'ZeroInit': return ('zero', ty)
        if t[0] == 'IntVal':
            if ty != INT: raise Bad('an integer for type %s' % (ty,), path)
            return ('int', t[1])
        if ty[0] != 'arr' or ty[2] != len(t[1]): raise Bad('an aggregate of %d for type %s' % (len(t[1]), ty), path)
        return ('agg', ty, tuple(self.init(ty[1], x, path) for x in t[1]))

    def GlobalDef(self, it, path):
        _, n, (_, ty, init) = it
        ty = self.ty(ty)
        try: v = self.init(ty, init, path)
        except Bad as b: return self.err(b.why, b.path)
        if n in self.gv or n in self.gf: return self.err('global %s is defined twice' % n, path)
        self.gv[n] = (('global', len(self.globals)), ('ptr', ty))
        self.globals.append((self.name(n), ('ptr', ty), v))

    def header(self, n, ps, r, path, names):
        if n in self.gv or n in self.gf: self.err('function %s is defined twice' % n, path)
        r = self.ty(r) if r else UNT
        self.gf[n] = (len(self.funcs), ('func', tuple(ps), r))
        f = {'name': n, 'ty': ('func', tuple(ps), r), 'params': names, 'blocks': []}
        self.funcs.append(f)
        return f

    def FunDecl(self, it, path):
        _, n, ps, r = it
        self.header(n, [self.ty(x) for x in ps], r, path, [])

    def FunDef(self, it, path):
        _, n, ps, r, bbs = it
        seen = set()
        for p, _ in ps:
            if p in seen: self.err('parameter %s twice' % p, path)
            if p in self.gv: self.err('parameter %s is a global' % p, path)
            seen.add(p)
        f = self.header(n, [self.ty(t) for _, t in ps], r, path, [(self.name(p), self.ty(t)) for p, t in ps])
        blocks = {}
        for k, b in enumerate(bbs):
            if b[1] in blocks: self.err('block %s twice' % b[1], path + (k,))
            blocks[b[1]] = k
        # reachable blocks, breadth first
        order, queue, q = [], [0], set()
        while queue:
            k = queue.pop(0)
            if k in q: continue
            q.add(k)
            order.append(k)
            last = bbs[k][3][-1]
            for t in ([last[2], last[4]] if last[0] == 'Branch' else [last[1]] if last[0] == 'Jump' else []):
                if t == bbs[0][1]: self.err('a branch to the entry block', path + (k, len(bbs[k][3]) - 1))
                elif t not in blocks: self.err('no block %s' % t, path + (k, len(bbs[k][3]) - 1))
                else: queue.append(blocks[t])
        for k, b in enumerate(bbs):
            if k not in q and blocks[b[1]] == k: self.warnings.append(b[1])
        # definitions: name -> (block, statement index or -1, value, type)
        defs = {p: (0, -1, ('arg', i), self.ty(t)) for i, (p, t) in enumerate(ps)}
        for j, k in enumerate(order):
            for i, (p, t) in enumerate(bbs[k][2]):
                if p in defs or p in self.gv: self.err('local %s is defined twice' % p, path + (k,))
                defs.setdefault(p, (k, -1, ('bparam', j, i), self.ty(t)))
        f['order'] = order
        allnames = {s[1] for k in order for s in bbs[k][3] if s[0] == 'SymbolDef'} | set(defs)
        dom = self.dominators(bbs, blocks, order)
        for j, k in enumerate(order):
            insts = []
            bparams = tuple((self.name(p), self.ty(t)) for p, t in bbs[k][2])
            f['blocks'].append((self.name(bbs[k][1]), bparams, insts))
            for i, s in enumerate(bbs[k][3]):
                at = path + (k, i)
                def sym(n):
                    if n in self.gv: return self.gv[n]
                    if n in defs:
                        dk, di, v, t = defs[n]
                        if dk == k and di < i or dk != k and dk in dom[k]: return v, t
                        self.grey.append((n, at))
                        return v, t
                    if n in allnames or n in self.later[1]: self.grey.append((n, at)); raise Bad('grey', at)
                    raise Bad('%s is not defined' % n, at)
                def value(ty, t):
                    if t[0] == 'SymbolRef':
                        v, vt = sym(t[1])
                        if vt != ty: raise Bad('%s has type %s, expected %s' % (t[1], vt, ty), at)
                        return v
                    return self.init(ty, t, at)
                def args(tys, xs):
                    if len(tys) != len(xs): raise Bad('%d arguments, expected %d' % (len(xs), len(tys)), at)
                    return tuple(value(a, b) for a, b in zip(tys, xs))
                def pointer(n):
                    v, t = sym(n)
                    if t[0] != 'ptr': raise Bad('%s is no pointer' % n, at)
                    return v, t[1]
                def block(n):
                    if n not in blocks or blocks[n] not in order: raise Bad('no block %s' % n, at)
                    b = blocks[n]
                    return order.index(b), [self.ty(t) for _, t in bbs[b][2]]
                def call(x):
                    if x[1] not in self.gf:
                        if x[1] in self.later[0]: self.grey.append((x[1], at)); raise Bad('grey', at)
                        raise Bad('no function %s' % x[1], at)
                    fi, ft = self.gf[x[1]]
                    return ft[2], ('Call', fi, args(ft[1], x[2]))
                def expr(x):
                    n = x[0]
                    if n == 'MemDecl': return ('ptr', self.ty(x[1])), ('Alloc',)
                    if n == 'FunCall': return call(x)
                    if n == 'Load':
                        v, b = pointer(x[1])
                        return b, ('Load', v)
                    if n == 'GetPointer':
                        v, b = pointer(x[1])
                        return ('ptr', b), ('GetPtr', v, value(INT, x[2]))
                    if n == 'GetElementPointer':
                        v, b = pointer(x[1])
                        if b[0] != 'arr': raise Bad('%s is no pointer to an array' % x[1], at)
                        return ('ptr', b[1]), ('GetElemPtr', v, value(INT, x[2]))
                    return INT, ('Binary', x[1], value(INT, x[2]), value(INT, x[3]))
                try:
                    if s[0] == 'SymbolDef':
                        if s[1] in self.gv or s[1] in defs: self.err('local %s is defined twice' % s[1], at)
                        t, x = expr(s[2])
                        if t == UNT: raise Bad('a unit value is named', at)
                        defs.setdefault(s[1], (k, i, ('inst', j, len(insts)), t))
                        insts.append((self.name(s[1]), t, x))
                    elif s[0] == 'Store':
                        d, b = pointer(s[2])
                        insts.append((None, UNT, ('Store', value(b, s[1]), d)))
                    elif s[0] == 'FunCall':
                        t, x = call(s)
                        insts.append((None, t, x))
                    elif s[0] == 'Branch':
                        cond = value(INT, s[1])
                        tb, tt = block(s[2]); ta = args(tt, s[3])
                        fb, ft = block(s[4]); fa = args(ft, s[5])
                        if tb == fb and (ta or fa): raise Bad('both targets are the same block with arguments', at)
                        insts.append((None, UNT, ('Branch', cond, tb, ta, fb, fa)))
                    elif s[0] == 'Jump':
                        b, t = block(s[1])
                        insts.append((None, UNT, ('Jump', b, args(t, s[2]))))
                    elif s[0] == 'Return':
                        rt = f['ty'][2]
                        if (rt == UNT) != (s[1] is None): raise Bad('a return that does not fit the function', at)
                        insts.append((None, UNT, ('Return', None if s[1] is None else value(rt, s[1]))))
                except Bad as b:
                    if b.why != 'grey': self.err(b.why, b.path)

    def dominators(self, bbs, blocks, order):
        succ = {}
        for k in order:
            last = bbs[k][3][-1]
            succ[k] = [blocks[t] for t in ([last[2], last[4]] if last[0] == 'Branch' else [last[1]] if last[0] == 'Jump' else []) if t in blocks]
        dom = {k: set(order) for k in order}
        dom[order[0]] = {order[0]}
        changed = True
        while changed:
            changed = False
            for k in order[1:]:
                ps = [dom[p] for p in order if k in succ[p]]
                n = set.intersection(*ps) | {k} if ps else {k}
                if n != dom[k]: dom[k], changed = n, True
        return dom

    def program(self):
        return (tuple(self.globals), tuple((f['name'], f['ty'], tuple(f['params']), tuple((n, ps, tuple(i)) for n, ps, i in f['blocks'])) for f in self.funcs))


def deep_int(v):
    if isinstance(v, dict):
        if 'i' in v: return v['i']
        for f in v.get('fs', ()):
            r = deep_int(f)
            if r is not None: return r


class Build(Parse):
    def __init__(self, ir):
        super().__init__(ir)
        self.path_of = {}

    # ---------- trees
    def node(self, t, path=()):
        """nested tuple -> Ast term; the span of every node names its path (item, block, statement)"""
        n, fs = t[0], t[1:]
        s = Sym('span:' + '.'.join(map(str, path)))
        self.path_of[s] = path
        out = {}
        for f, x in zip(ASTF[n], fs):
            tid = dict(self.u.types[self.ir.tid(F + 'ast::' + n)]['vs'][0]['fs'])[f]
            sub = n in ('FunDef', 'Block') and f in ('bbs', 'stmts')
            out[f] = self.field(tid, x, path, sub)
        k = self.ir.struct(F + 'ast::' + n, out)
        return self.ir.struct(F + 'ast::Ast', {'span': s, 'kind': self.ir.variant(F + 'ast::AstKind', n, k)})

    def field(self, tid, x, path, sub):
        ty = self.u.types[tid]
        if ty['k'] == 'adt' and ty['name'] == 'std::option::Option': return self.ir.option(tid, None if x is None else self.node(x, path))
        if ty['k'] == 'adt' and ty['name'] == 'std::vec::Vec': return List([self.field(ty['args'][0], y, path + (i,) if sub else path, False) for i, y in enumerate(x)])
        if isinstance(x, str): return Str(x)
        if isinstance(x, int): return Int(x)
        if isinstance(x, tuple) and x[0] == 'op': return Sym('op:' + x[1])
        if isinstance(x, tuple) and x[0] == 'lit': return App('lit', Str(x[1]))
        if ty['k'] == 'tuple': return Tuple(Str(x[0]), self.node(x[1], path))
        return self.node(x, path)

    # ---------- the run
    def counters(self):
        def h(e, st, args, C):
            p = e.canon(st, args[0])
            if p.op == 'ref' and not p.a[1]: p = p.a[0]
            cell = mk('atomicv', p)
            v = st.store.get(cell)
            if v is None: v = Int(deep_int(self.u.statics[p.a[0]]['val']))
            st.store[cell] = add(v, e.canon(st, args[1]))
            return [Out(st, 'ret', v)]
        return {'std::sync::atomic::Atomic::<%s>::fetch_add' % t: h for t in ('u32', 'usize', 'u64')}

    def place(self, e, st, args, n):
        """log function first argument -> path of the node, or None"""
        return self.path_of.get(e.canon(st, args[0])) if n else None

    def builder(self):
        e = self.eng({**TYPE_GET, **self.counters()}, max_steps=400000, no_models=[m for m in models.MODELS if m.startswith('key_node_list')])
        for n, h in list(e.opaque.items()):
            if n in (SPAN + 'log_error', SPAN + 'log_fatal_error', SPAN + 'log_warning'):
                def g(e, st, args, C, h=h):
                    e.effect(st, 'at', (e.canon(st, args[0]),), C.site)
                    return h(e, st, args, C)
                e.opaque[n] = g
        e.unique_maps = e.unroll = e.fork_insert = True
        o, = e.run(self.ir.fn('front::builder_new'), [], St.new())
        return e, o.st, e.heap(o.st, e.canon(o.st, o.val))

    def build(self, items, rev=False):
        """(engine, builder pointer, outcomes) of building the items in order"""
        e, st, b = self.builder()
        e.rev_maps = rev
        for n, r in self.ranges.items(): st.bnd[App('lit', Str(n))] = r
        sts, done = [st], []
        for k, it in enumerate(items):
            nx = []
            for st in sts:
                for o in e.run(self.ir.fn('front::build_on'), [b, e.heap(st, self.node(it, (k,)))], st):
                    if o.kind == 'ret': nx.append(o.st)
                    else: done.append(o)
            sts = nx
        return e, b, done + [Out(s, 'ret', UNIT) for s in sts]

    # ---------- reading the program back through the public accessors
    def read(self, e, b, st):
        return Reader(self, e, b, st).program()


class Odd(Exception): pass


class Reader:
    def __init__(self, f, e, b, st):
        self.f, self.ir, self.e, self.st = f, f.ir, e, st
        p = self.call('front::program', e.read(st, b.a[0], b.a[1]))
        self.p = e.heap(st, p)
        self.vals = {}

    def call(self, root, *args):
        outs = self.e.run(self.ir.fn(root), list(args), self.st)
        if len(outs) != 1 or outs[0].kind != 'ret': raise Odd('%s has %d outcomes: %s' % (root, len(outs), ' / '.join(show_out(self.e, o)[:80] for o in outs)))
        self.st = outs[0].st
        return outs[0].val

    def c(self, v): return self.e.canon(self.st, v)

    def items(self, v):
        v = self.c(v)
        if v.op != 'list': raise Odd('not a list: ' + show(v)[:200])
        return list(v.a)

    def ty(self, t):
        t = self.c(t)
        if t.op == 'ref': t = self.c(self.e.read(self.st, t.a[0], t.a[1]))
        if t.op != 'adt': raise Odd('type ' + show(t)[:100])
        ty = self.e.tyk(t.a[0])
        if ty['name'].endswith('::Type'): return self.ty(t.a[2])
        n = ty['vs'][t.a[1]]['n']
        if n == 'Int32': return INT
        if n == 'Unit': return UNT
        if n == 'Pointer': return ('ptr', self.ty(t.a[2]))
        if n == 'Array': return ('arr', self.ty(t.a[2]), self.plain(t.a[3]))
        return ('func', tuple(self.ty(x) for x in self.items(t.a[2])), self.ty(t.a[3]))

    def plain(self, v):
        v = self.c(v)
        if v.op in ('int', 'str'): return v.a[0]
        if v.op == 'app' and v.a[0] == 'lit': return ('lit', v.a[1].a[0])
        if v.op == 'sym' and v.a[0].startswith('op:'): return ('op', v.a[0][3:])
        return show(v)

    def opt(self, v, f):
        v = self.c(v)
        if v.op == 'ref': v = self.c(self.e.read(self.st, v.a[0], v.a[1]))
        if v.op != 'adt': raise Odd('option ' + show(v)[:100])
        return f(v.a[2]) if v.a[1] else None

    def program(self):
        p = self.p
        fs = self.items(self.call('program::func_layout', p))
        gs = self.items(self.call('program::inst_layout', p))
        self.fidx = {f: i for i, f in enumerate(fs)}
        self.gidx = {g: i for i, g in enumerate(gs)}
        globs = []
        for g in gs:
            n, t, k = self.data(self.call('program::borrow_value', p, g), None)
            if k[0] != 'GlobalAlloc': raise Odd('a %s among the globals' % k[0])
            globs.append((n, t, k[1]))
        funcs = []
        for f in fs: funcs.append(self.func(self.call('program::func', p, f)))
        return tuple(globs), tuple(funcs)

    def func(self, d):
        name = self.plain(self.call('data::func_name', d))
        ty = self.ty(self.call('data::func_ty', d))
        params = self.items(self.call('data::func_params', d))
        lay = self.call('data::func_layout', d)
        bbs = self.items(self.call('keys::bbs', lay))
        self.bidx = {b: i for i, b in enumerate(bbs)}
        self.where = {p: ('arg', i) for i, p in enumerate(params)}
        ps = []
        for i, p in enumerate(params):
            n, t, k = self.data(self.call('dfg::value', d, p), d)
            if k != ('FuncArgRef', i): raise Odd('parameter %d is %s' % (i, k))
            ps.append((n, t))
        blocks = []
        for b in bbs:
            bd = self.call('dfg::bb', d, b)
            bn = self.opt(self.call('data::bb_name', bd), self.plain)
            bps = self.items(self.call('data::bb_params', bd))
            ins = self.items(self.call('keys::insts', lay, self.e.heap(self.st, b) if False else b))
            for i, x in enumerate(bps): self.where[x] = ('bparam', len(blocks), i)
            for i, x in enumerate(ins): self.where[x] = ('inst', len(blocks), i)
            blocks.append((bn, bps, ins))
        out = []
        for bn, bps, ins in blocks:
            q = []
            for i, x in enumerate(bps):
                n, t, k = self.data(self.call('dfg::value', d, x), d)
                if k != ('BlockArgRef', i): raise Odd('block parameter %d is %s' % (i, k))
                q.append((n, t))
            r = [self.data(self.call('dfg::value', d, x), d) for x in ins]
            out.append((bn, tuple(q), tuple(r)))
        return (name, ty, tuple(ps), tuple(out))

    def value(self, v, d):
        """an operand"""
        v = self.c(v)
        if v in self.gidx: return ('global', self.gidx[v])
        if d is not None and v in self.where: return self.where[v]
        g = self.c(self.call('program::is_global', v))
        n, t, k = self.data(self.call('program::borrow_value', self.p, v) if g is TRUE else self.call('dfg::value', d, v), d)
        if n is not None: raise Odd('constant with the name %s' % n)
        if k[0] == 'Integer': return ('int', k[1]) if t == INT else ('odd integer', t)
        if k[0] == 'ZeroInit': return ('zero', t)
        if k[0] == 'Undef': return ('undef', t)
        if k[0] == 'Aggregate': return ('agg', t, k[1])
        raise Odd('operand %s that is in no block' % (k,))

    def data(self, vd, d):
        n = self.opt(self.call('data::name', vd), self.plain)
        t = self.ty(self.call('data::ty', vd))
        k = self.c(self.call('data::kind', vd))
        if k.op == 'ref': k = self.c(self.e.read(self.st, k.a[0], k.a[1]))
        kn = self.e.tyk(k.a[0])['vs'][k.a[1]]['n']
        x = self.c(k.a[2]) if len(k.a) > 2 else None
        v = lambda y: self.value(y, d)
        vs = lambda y: tuple(self.value(z, d) for z in self.items(y))
        bb = lambda y: self.bidx.get(self.c(y), 'a block outside')
        sel = {'Integer': [('value', self.plain)], 'ZeroInit': [], 'Undef': [], 'Aggregate': [('elems', vs)], 'FuncArgRef': [('index', self.plain)], 'BlockArgRef': [('index', self.plain)], 'Alloc': [], 'GlobalAlloc': [('init', v)],
               'Load': [('src', v)], 'Store': [('value', v), ('dest', v)], 'GetPtr': [('src', v), ('index', v)], 'GetElemPtr': [('src', v), ('index', v)], 'Binary': [('op', self.plain), ('lhs', v), ('rhs', v)],
               'Branch': [('cond', v), ('true_bb', bb), ('true_args', vs), ('false_bb', bb), ('false_args', vs)], 'Jump': [('target', bb), ('args', vs)],
               'Call': [('callee', lambda y: self.fidx.get(self.c(y), 'a function outside')), ('args', vs)], 'Return': [('value', lambda y: self.opt(y, v))]}[kn]
        out = [kn]
        h = self.e.heap(self.st, x) if sel else None
        for f, g in sel: out.append(g(self.call('acc::%s_%s' % (kn.lower(), f), h)))
        return n, t, tuple(out)


# ---------- cases
DECLS = 'decl @d0 ( ) ; decl @d1 ( i32 ) : i32 ; decl @d2 ( * i32 , [ i32 , #2 ] ) : * i32 ; global @gi = alloc i32 , #a ; global @ga = alloc [ i32 , #2 ] , zeroinit ;'
PARAMS = '%i : i32 , %p : * i32 , %a : * [ i32 , #2 ] , %v : [ i32 , #2 ] , %q : * * i32 , %h : ( )'
SYMS = ['%i', '%p', '%a', '%v', '%q', '%h', '@gi', '@ga', '%nope']
VALS = SYMS + ['#k', 'undef']
INITS = VALS + ['zeroinit', '{ #k , #m }', '{ #k }', '{ undef , zeroinit }', '{ { #k } , #m }', '{ #k , #m , undef }']
TYPES = ['i32', '* i32', '[ i32 , #2 ]', '[ [ i32 , #2 ] , #1 ]', '* [ * i32 , #3 ]', '( )', '( i32 , * i32 ) : i32', '* ( ) : [ i32 , #2 ]']


def body(stmt, ret='i32', end='ret #z'):
    return DECLS + ' fun @f ( %s ) : %s { ; %%e : ; %s ; %s ; }' % (PARAMS, ret, stmt, end)


def typed():
    """every statement with every sort of operand in every place"""
    for t in TYPES: yield body('%%x = alloc %s' % t)
    for s in SYMS: yield body('%%x = load %s' % s)
    for op in ('getptr', 'getelemptr'):
        for s in SYMS:
            for v in VALS: yield body('%%x = %s %s , %s' % (op, s, v))
    for a in VALS:
        for b in VALS:
            yield body('%%x = op %s , %s' % (a, b))
            yield body('call @d2 ( %s , %s )' % (a, b))
        for x in ('', '%x = '):
            yield body(x + 'call @d1 ( %s )' % a)
            yield body(x + 'call @d0 ( %s )' % a)
        yield body('%%x = call @d2 ( %s , %%v )' % a)
    for x in ('', '%x = '):
        for call in ('@d0 ( )', '@d1 ( )', '@d1 ( %i , %i )', '@d2 ( %p )', '@d2 ( %p , %v , %i )', '@d2 ( )', '@d9 ( )', '@gi ( )', '%h ( )'): yield body(x + 'call ' + call)
    for a in INITS:
        for s in SYMS: yield body('store %s , %s' % (a, s))
    blocks = ' } ; %l ( %x : i32 ) : ; ret #z ; %m : ; ret #y ; %n ( %s : * i32 , %t : [ i32 , #2 ] ) : ; ret #y'
    def ends(t): return body('%y = alloc i32', end=t).replace(' ; }', blocks.replace(' }', '') + ' ; }')
    for c in VALS: yield ends('br %s , %%l ( #k ) , %%m' % c)
    targets = [t + a for t in ('%l', '%m', '%e', '%z') for a in ('', ' ( #k )', ' ( %p )', ' ( #k , #m )')] + ['%m ( )', '%n ( %y , undef )', '%n ( undef , %p )']
    for a in targets:
        for b in targets: yield ends('br %%i , %s , %s' % (a, b))
        yield ends('jump ' + a)
    for v in VALS:
        yield ends('jump %%l ( %s )' % v)
        yield ends('jump %%n ( %s , %%v )' % v)
        yield ends('jump %%n ( %%p , %s )' % v)
        yield ends('br #k , %%n ( %%p , %s ) , %%m' % v)
        yield ends('br #k , %%m , %%n ( %s , undef )' % v)
    for r in ('', ' : i32', ' : * i32', ' : [ i32 , #2 ]', ' : ( )'):
        for v in [''] + VALS: yield DECLS + ' fun @f ( %s )%s { ; %%e : ; ret %s ; }' % (PARAMS, r, v)
    for t in TYPES:
        for i in ['#k', 'undef', 'zeroinit', '{ #k , #m }', '{ #k }', '{ undef , zeroinit }', '{ { #k , #m } }', '{ { #k } }', '{ zeroinit }', '{ #k , { #m } }', '{ #k , #m , undef }']: yield 'global @x = alloc %s , %s' % (t, i)
        yield 'decl @x ( %s , i32 ) : %s' % (t, t)


def named():
    """definitions of each sort with every sort of name, definitions of the same name, and uses at a distance"""
    for n in ('@x', '%x', '%0', '%12', '@0', '%1x', '@_', '%%'):
        if n == '%%': continue
        yield 'global %s = alloc i32 , #a ; fun @f ( ) : i32 { ; %%e : ; %%v = load %s ; ret %%v ; }' % (n, n)
        yield 'fun @f ( %s : i32 , %%other : * i32 ) : i32 { ; %%e : ; %%v = op %s , #a ; ret %s ; }' % (n, n, n)
        yield 'fun @f ( ) : i32 { ; %%e : ; jump %%b ( #a ) ; %%b ( %s : i32 ) : ; %%v = op #k , %s ; ret %s ; }' % (n, n, n)
        yield 'fun @f ( ) : i32 { ; %%e : ; %s = alloc i32 ; store #a , %s ; %%v = load %s ; ret %%v ; }' % (n, n, n)
        yield 'fun @f ( ) { ; %%e : ; jump %s ; %s : ; ret ; }' % (n, n)
        yield 'fun @f ( ) { ; %s : ; ret ; }' % n
        if n[1:] != '0' and n[1:] != '12':
            yield 'decl %s ( ) ; fun @f ( ) { ; %%e : ; call %s ( ) ; ret ; }' % (n, n)
            yield 'fun %s ( ) { ; %%e : ; call %s ( ) ; ret ; }' % (n, n)
    # the same name twice
    glob, decl, fun = 'global @s = alloc i32 , #a', 'decl @s ( )', 'fun @s ( ) { ; %e : ; ret ; }'
    for a in (glob, decl, fun):
        for b in (glob, decl, fun):
            yield a + ' ; ' + b
            yield a + ' ; decl @t ( ) ; ' + b
            yield a + ' ; ' + b.replace('@s', '@t')
            yield a + ' ; ' + b.replace('@s', '@ss')
    uses = {'param': 'fun @f ( %s : i32 ) { ; %e : ; jump %b ; %b : ; ret ; }', 'second param': 'fun @f ( %i : i32 , %s : i32 ) { ; %e : ; jump %b ; %b : ; ret ; }', 'entry parameter': 'fun @f ( ) { ; %e ( %s : i32 ) : ; jump %b ; %b : ; ret ; }',
            'block parameter': 'fun @f ( ) { ; %e : ; jump %b ( #a ) ; %b ( %s : i32 ) : ; ret ; }', 'local': 'fun @f ( ) { ; %e : ; %s = alloc i32 ; jump %b ; %b : ; ret ; }', 'later local': 'fun @f ( ) { ; %e : ; jump %b ; %b : ; %s = alloc i32 ; ret ; }'}
    for u in uses.values():
        yield 'global %s = alloc i32 , #a ; ' + u
        yield 'global %t = alloc i32 , #a ; ' + u
        yield 'fun @g ( %s : i32 ) { ; %s : ; ret ; } ; ' + u
        yield 'decl %s ( ) ; ' + u
        yield 'fun @g ( ) { ; %e : ; %s = alloc i32 ; ret ; } ; ' + u
    def two(ps, ep, bp, e, b): return 'fun @f ( %s ) { ; %%e%s : ; %s jump %%b%s ; %%b%s : ; %s ret ; }' % (ps, ep, e, ' ( %s )' % ' , '.join(['#a'] * bp.count(':')) if bp else '', bp, b)
    for ps in ('', '%s : i32', '%s : i32 , %s : i32', '%s : i32 , %t : i32 , %s : * i32', '%t : i32'):
        for bp in ('', ' ( %s : i32 )', ' ( %s : i32 , %s : i32 )', ' ( %t : i32 )'):
            for e in ('', '%s = alloc i32 ;', '%s = alloc i32 ; %s = alloc i32 ;'):
                for b in ('', '%s = alloc i32 ;', '%t = alloc i32 ;'): yield two(ps, '', bp, e, b)
    yield 'fun @f ( ) { ; %e : ; jump %b ; %b : ; ret ; %b : ; ret ; }'
    yield 'fun @f ( ) { ; %e : ; jump %b ; %b : ; ret ; %c : ; ret ; %c : ; ret ; }'
    yield 'fun @f ( ) { ; %e : ; jump %b ; %e : ; ret ; %b : ; ret ; }'
    yield 'fun @f ( ) { ; %e : ; br #a , %b , %c ; %b ( %s : i32 ) : ; ret ; %c ( %s : i32 ) : ; ret ; }'.replace('%b ,', '%b ( #a ) ,').replace(' %c ;', ' %c ( #a ) ;')
    # names that are not defined, or only elsewhere
    for n in ('%nope', '%g1', '%b', '@f', '@d', '%x0', '@later'):
        for s in ('%%y = load %s', '%%y = op #a , %s', 'store #a , %s', 'store %s , %%p', '%%y = getptr %%p , %s', '%%y = getptr %s , #a', 'call @d ( %s )'):
            yield 'decl @d ( i32 ) ; fun @g ( %%g1 : i32 ) { ; %%e : ; ret ; } ; fun @f ( %%p : * i32 ) { ; %%e : ; jump %%b ; %%b : ; %s ; ret ; } ; global @later = alloc i32 , #a' % (s % n)
        yield 'decl @d ( i32 ) ; fun @f ( ) { ; %%e : ; br #a , %s , %%b ; %%b : ; ret ; }' % n
        yield 'decl @d ( i32 ) ; fun @f ( ) { ; %%e : ; br #a , %%b , %s ; %%b : ; ret ; }' % n
        yield 'decl @d ( i32 ) ; fun @f ( ) { ; %%e : ; jump %s ; %%b : ; ret ; }' % n
        yield 'decl @d ( i32 ) ; fun @f ( ) { ; %%e : ; call %s ( #a ) ; ret ; }' % n
        yield 'fun @f ( ) { ; %%e : ; jump %%c ; %%b : ; %s = alloc i32 ; ret ; %%c : ; %%y = load %s ; ret ; }' % (('%nope',) * 2)
    # uses at a distance
    for name, cfg in CFGS.items():
        yield cfg
    for k in range(1, 5):
        chain = ' '.join('%%b%d : ; jump %%b%d ;' % (i, i + 1) for i in range(1, k))
        yield 'fun @f ( %%a : i32 ) : i32 { ; %%e : ; %%x = op %%a , #k ; jump %%b1 ; %s %%b%d : ; %%y = op %%x , %%a ; ret %%y ; }' % (chain, k)


def covering(dims, t):
    """vectors of the product of dims in which every combination of t values of t dimensions occurs (greedy, deterministic)"""
    import itertools, random
    rnd = random.Random(7)
    todo = {(k, v) for k in itertools.combinations(range(len(dims)), t) for v in itertools.product(*(range(len(dims[i])) for i in k))}
    ks = list(itertools.combinations(range(len(dims)), t))
    while todo:
        base = min(todo) if len(todo) < 50 else next(iter(sorted(rnd.sample(sorted(todo), 3))))
        best = None
        for _ in range(30):
            v = [rnd.randrange(len(d)) for d in dims]
            for i, x in zip(*base): v[i] = x
            n = sum((k, tuple(v[i] for i in k)) in todo for k in ks)
            if best is None or n > best[0]: best = (n, v)
        for k in ks: todo.discard((k, tuple(best[1][i] for i in k)))
        yield tuple(d[i] for d, i in zip(dims, best[1]))


def mixed(t=3, dups=True):
    """small programs in which every combination of t features occurs: number of blocks, sorts of names, definitions, repeated names, ends"""
    dims = [['@f', '%f'],                                # function
            [1, 2, 3],                                   # blocks
            ['%e', '%0'], ['%b', '%1'], ['%c', '%12'],   # their names
            ['', '%p', '%2', '%p %q', '%2 %p'],          # parameters
            ['', '%r', '%3', '%r %3', '%3 %r', 'dup p'],  # parameters of the second block
            ['', '%x', '%4', 'dup p'],                   # a definition in the first block
            ['alloc i32', 'op #k , #m', 'load @g', 'getptr @g , #k', 'call @d ( #k )'],
            ['', '%y', '%5', 'dup p', 'dup r', 'dup x'],  # a definition in the last block
            ['', ' : i32'],                              # return type
            ['jump', 'br'],                              # how the next block is reached
            ['before', 'after', 'none']]                 # another function with the same local names
    if not dups: dims = [[x for x in d if 'dup' not in str(x)] for d in dims]
    for fn, nb, n0, n1, n2, ps, qs, d1, s, d2, ret, how, other in covering(dims, t):
        ps, qs = ps.split(), qs.split()
        if qs == ['dup', 'p']: qs = ps[:1] or ['%r']
        if d1 == 'dup p': d1 = (ps or ['%x'])[-1]
        d2 = {'dup p': (ps or ['%y'])[0], 'dup r': (qs if nb > 1 and qs else ['%y'])[-1], 'dup x': d1}.get(d2, d2)
        names, bl = [n0, n1, n2][:nb], []
        for i, n in enumerate(names):
            hd = n + (' ( %s )' % ' , '.join(q + ' : i32' for q in qs) if i == 1 and qs else '') + ' :'
            b = []
            if i == 0 and d1: b.append('%s = %s' % (d1, s))
            if i == nb - 1 and d2: b.append('%s = %s' % (d2, s))
            if i == nb - 1 and d1 and s[0] == 'o': b.append('store %s , @g' % d1)
            if i == nb - 1 and qs and nb > 1: b.append('store %s , @g' % qs[-1])
            if i + 1 < nb:
                t_ = names[i + 1] + (' ( %s )' % ' , '.join('#%s' % 'ab'[k] for k in range(len(qs))) if i == 0 and qs else '')
                b.append('jump ' + t_ if how == 'jump' or nb == 2 and qs else 'br #k , %s , %s' % (t_, names[-1] if nb == 3 and i == 0 else t_))
            else: b.append('ret' + (' ' + (ps[0] if ps else '#z') if ret else ''))
            bl.append(hd + ' ; ' + ' ; '.join(b) + ' ;')
        f = 'fun %s ( %s )%s { ; %s }' % (fn, ' , '.join(p + ' : i32' for p in ps), ret, ' '.join(bl))
        o = 'fun @other ( %p : i32 ) { ; %e : ; %x = alloc i32 ; jump %1 ; %1 : ; %4 = load %x ; ret ; }'
        yield 'global @g = alloc i32 , #a ; decl @d ( i32 ) : i32 ; ' + (o + ' ; ' + f if other == 'before' else f + ' ; ' + o if other == 'after' else f)


CFGS = {
    'diamond': 'fun @f ( %a : i32 ) : i32 { ; %e : ; %x = op %a , #k ; br %x , %t , %u ; %t : ; %y = op %x , %a ; jump %j ( %y ) ; %u : ; %z = op %a , %x ; jump %j ( %z ) ; %j ( %r : i32 ) : ; %w = op %r , %x ; ret %w ; }',
    'loop': 'fun @f ( %n : i32 ) : i32 { ; %e : ; %s = alloc i32 ; store #a , %s ; jump %h ( #k ) ; %h ( %i : i32 ) : ; %c = op %i , %n ; br %c , %b , %x ; %b : ; %o = load %s ; %m = op %o , %i ; store %m , %s ; %j = op %i , #m ; jump %h ( %j ) ; %x : ; %r = load %s ; ret %r ; }',
    'nested loops': 'fun @f ( %n : i32 ) { ; %e : ; jump %o ( #a ) ; %o ( %i : i32 ) : ; br %i , %h ( %i ) , %x ; %h ( %j : i32 ) : ; br %j , %b , %l ; %b : ; %k = op %j , %i ; jump %h ( %k ) ; %l : ; %q = op %i , %n ; jump %o ( %q ) ; %x : ; ret ; }',
    'self loop': 'fun @f ( %n : i32 ) { ; %e : ; %y = op %n , #a ; jump %b ; %b : ; %x = op %n , %y ; br %x , %b , %d ; %d : ; call @f ( %x ) ; ret ; }',
    'both targets': 'fun @f ( %n : i32 ) { ; %e : ; br %n , %b , %b ; %b : ; ret ; }',
    'written in another order': 'fun @f ( %n : i32 ) : i32 { ; %e : ; %x = op %n , #a ; jump %m ; %z : ; ret %y ; %m : ; %y = op %x , %n ; jump %z ; }',
    'unreachable': 'fun @f ( ) { ; %e : ; jump %z ; %u : ; jump %v ; %z : ; ret ; %v : ; ret ; %w : ; jump %z ; }',
    'unreachable with undefined names': 'fun @f ( ) { ; %e : ; ret ; %u : ; %x = load %nope ; jump %e ; }',
    'several functions': 'global @a = alloc i32 , #a ; fun @f ( ) : i32 { ; %e : ; %x = load @a ; ret %x ; } ; global %b = alloc * i32 , undef ; decl @d ( i32 ) ; fun @g ( %x : i32 ) { ; %e : ; %y = call @f ( ) ; call @d ( %y ) ; %z = load %b ; store %x , %z ; call @g ( %y ) ; jump %r ; %r : ; ret ; } ; fun @h ( ) { ; %r : ; call @g ( #a ) ; ret ; }',
    'switch over three': 'fun @f ( %a : i32 ) : i32 { ; %e : ; br %a , %p , %q ; %p : ; br %a , %r , %s ; %q : ; br %a , %s , %t ; %r : ; ret #a ; %s : ; ret #b ; %t : ; ret #c ; }',
    'arguments of both targets': 'fun @f ( %a : i32 , %b : * i32 ) : i32 { ; %e : ; %x = op %a , #k ; %y = load %b ; br %x , %p ( %y , %b ) , %q ( %b , %x , %a ) ; %p ( %1 : i32 , %2 : * i32 ) : ; ret %1 ; %q ( %3 : * i32 , %4 : i32 , %5 : i32 ) : ; %z = op %4 , %5 ; jump %p ( %z , %3 ) ; }',
    'getptr and calls': 'decl @d ( * i32 , i32 , [ i32 , #2 ] ) : * i32 ; fun @f ( %a : * [ i32 , #2 ] , %i : i32 , %j : i32 ) : * i32 { ; %e : ; %p = getelemptr %a , %i ; %q = getptr %p , %j ; %r = getptr %a , %j ; %v = load %r ; %s = call @d ( %q , %i , %v ) ; store %v , %r ; store { %k0 , #m } , %a ; ret %s ; }'.replace('{ %k0 , #m }', '{ #k , #m }'),
}


def located(at, errors):
    """does a report at this node belong to one of the expected places?"""
    return at is not None and any(at[:len(p)] == p for _, p in errors)


def fixed_lengths(t):
    """array lengths that were opaque in the token stream become 2"""
    if isinstance(t, list): return [fixed_lengths(x) for x in t]
    if not isinstance(t, tuple): return t
    if t[:1] == ('ArrayType',) and not isinstance(t[2], int): return ('ArrayType', fixed_lengths(t[1]), 2)
    return tuple(fixed_lengths(x) for x in t)


def verdict(d, f, name, items, rules, rev=False):
    """build the items and compare with the reference; rules: (accepted, refused, panic, program) rule names or None"""
    acc, ref, pan, prog = rules
    s = Sem(items)
    e, b, outs = f.build(items, rev)
    d.ran(e, outs)
    if pan: d.ob(pan, name, all(o.kind == 'ret' for o in outs), 'may panic: ' + ' / '.join(show_out(e, o) for o in outs if o.kind != 'ret')[:400], next((o.site for o in outs if o.kind != 'ret'), None))
    for o in outs:
        if o.kind != 'ret': continue
        errs = [x for x in o.st.eff if x.name == 'error']
        site = errs[0].site if errs else (o.st.eff[-1].site if o.st.eff else None)
        if s.errors:
            if ref:
                d.ob(ref, name, bool(errs), 'is accepted, although ' + s.errors[0][0], site)
                if errs:
                    ev = [x for x in o.st.eff if x.name in ('at', 'error')]
                    i = ev.index(errs[0])
                    at = f.path_of.get(ev[i - 1].args[0]) if i and ev[i - 1].name == 'at' else None
                    d.ob(ref, name, at is None or located(at, s.errors), 'the error is reported at %s, but %s' % (at, s.errors[0]), site)
        elif not s.grey:
            if acc:
                d.ob(acc, name, not errs, 'is refused: ' + (show(errs[0].args[1]) if errs else ''), site)
                w = [x for x in o.st.eff if x.name == 'warning']
                d.ob(acc, name, len(w) == len(s.warnings), '%d warnings, expected %d' % (len(w), len(s.warnings)), site)
            if prog and not errs:
                try:
                    got = f.read(e, b, o.st)
                    want = s.program()
                    d.ob(prog, name, got == want, 'builds %s' % diff(got, want), site)
                except Odd as x:
                    d.ob(prog, name, False, 'builds something unreadable: %s' % x, site)


def diff(a, b, at='program'):
    """the first place where two nested tuples differ"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y: return diff(x, y, at + '.%d' % i) if isinstance(x, tuple) and isinstance(y, tuple) else '%s instead of %s (in %s)' % (x, y, b)
    return ('%s instead of %s' % (a, b))[:600]
