"""Seeded programs for the printers: symbolic Program / FunctionData with a fixed shape and opaque contents."""
from chk import *


def fixlen(e, st, cont, keys):
    """container `cont` has exactly these keys, in this order"""
    b = e.strip(cont)
    t = App('len', b)
    e.unsigned.add(t)
    st.bnd[t] = (len(keys), len(keys))
    for i, k in enumerate(keys):
        st.facts[App('key', b, Int(i))] = k


class Prog(Global):
    def __init__(self, ir, e, st=None, base='p'):
        super().__init__(ir, e, st, base)
        self.fs, self.gs = {}, {}
        self.layouts = ([], [])
        self.globs = set()

    def globalval(self, name, ty, kind, inst=False, named=True):
        v = self.value(name, True, ty, kind)
        self.globs.add(v)
        if inst: self.layouts[1].append(v)
        self.gs[v] = (ty, kind)
        return v

    def func(self, name, params, ty, bbs=None, in_layout=True):
        """bbs None: declaration; else the list of block names (ordered)"""
        f = Sym(name)
        assume(self.e, self.st, has(self.funcs, f))
        distinct(self.e, self.st, f, self.fs)
        o = Fn(self, f, params, ty)
        self.fs[f] = o
        if in_layout: self.layouts[0].append(f)
        return o

    def finish(self):
        put(self.st, self.func_layout, List(self.layouts[0]))
        put(self.st, self.inst_layout, List(self.layouts[1]))
        for o in self.fs.values(): o.finish()
        return self.st

    def is_global(self):
        def h(e, st, args, C):
            return [Out(st, 'ret', Bool(e.canon(st, args[0]) in self.globs))]
        return {'koopa::ir::Value::is_global': h}


class Fn:
    def __init__(self, prog, f, params, ty):
        self.p, self.f, self.ir, self.e, self.st = prog, f, prog.ir, prog.e, prog.st
        ir = self.ir
        d = slot(prog.funcs, f)
        self.l = Local(ir, self.e, self.st, d)
        self.data, self.ty = d, ty
        self.params = list(params)
        put(self.st, Fld(d, ir.path('data::func_ty')[0]), ty)
        self.name = ir.at(d, 'data::func_name')
        self.bbs, self.loose, self.insts, self.vals, self.bparams, self.users = [], [], {}, {}, {}, {}
        lay = ir.at(d, 'data::func_layout')
        self.layout = lay
        self.blist = ir.at(lay, 'data::layout_bbs')
        self.parent_tab = None

    def value(self, name, ty, kind):
        v = self.l.value(name, 'local', ty, kind)
        self.vals[v] = (ty, kind)
        return v

    def block(self, name, params=(), placed=True):
        b = Sym(name)
        (self.bbs if placed else self.loose).append(b)
        self.bparams[b] = list(params)
        self.insts[b] = []
        self.users[b] = []
        return b

    def place(self, b, *insts):
        self.insts[b] += insts

    def finish(self):
        e, st, ir = self.e, self.st, self.ir
        put(st, Fld(self.data, ir.path('data::func_params')[0]), List(self.params))
        for b in self.bbs + self.loose:
            self.l.block(b.a[0], self.bparams[b])
            fixlen(e, st, Fld(slot(self.l.bbs, b), ir.path('data::bb_used_by')[0]), self.users[b])
            # the entry built by Local is an adt with a symbolic use list
            put(st, slot(self.l.bbs, b), ir.struct('koopa::ir::entities::BasicBlockData', {ir.path('data::bb_params')[0]: List(self.bparams[b]), ir.path('data::bb_used_by')[0]: Sym('users_' + b.a[0])}, Sym('bb_' + b.a[0])))
            fixlen(e, st, Sym('users_' + b.a[0]), self.users[b])
            if b in self.loose:
                assume(e, st, has(self.blist, b), False)
                continue
            node = slot(self.blist, b)
            assume(e, st, has(self.blist, b))
            fixlen(e, st, ir.at(node, 'data::insts'), self.insts[b])
            for i in self.insts[b]: assume(e, st, has(ir.at(node, 'data::insts'), i))
        fixlen(e, st, self.blist, self.bbs)
        fixlen(e, st, self.l.bbs, self.loose[:1] + self.bbs[::-1] + self.loose[1:])
        # parent block of every placed instruction
        L = 'koopa::ir::layout::Layout'
        tab = Fld(self.layout, ir.field_by_type(L, 'Rc', no=('KeyNodeList',)))
        self.parent_tab = tab
        for b in self.bbs:
            for i in self.insts[b]:
                assume(e, st, has(tab, i))
                put(st, slot(tab, i), b)


def names(kinds=True):
    """NameManager as an oracle: a name per entity, tagged with the prefix in force when it was first mentioned"""
    P = 'koopa::back::NameManager::'
    pre = mk('loc', 'prefix', 0)

    def cur(st): return st.store.get(pre, Sym('prefix0'))

    def mention(kind):
        def h(e, st, args, C):
            d = e.strip(e.canon(st, args[1]) if args[1].op != 'ref' else args[1])
            key = mk('named', kind, d)
            if key not in st.store:
                st.store[key] = cur(st)
            st.eff += (Eff(('name', (Str(kind), d, st.store[key]), C.site, False)),)
            return [Out(st, 'ret', App('name', Str(kind), d, st.store[key]))]
        return h

    def temp(e, st, args, C):
        st.n += 1
        return [Out(st, 'ret', App('name', Str('temp'), Int(st.n), cur(st)))]

    def setp(e, st, args, C):
        st.store[pre] = e.canon(st, args[1])
        return [Out(st, 'ret', UNIT)]

    def scope(kind):
        def h(e, st, args, C):
            st.eff += (Eff((kind, (), C.site, False)),)
            return [Out(st, 'ret', UNIT)]
        return h
    return {P + 'func_name': mention('func'), P + 'bb_name': mention('bb'), P + 'value_name': mention('value'), P + 'temp_value_name': temp, P + 'set_prefix': setp,
            P + 'enter_func_scope': scope('enter'), P + 'exit_func_scope': scope('exit')}


def flat(parts):
    """pieces of text: adjacent literals merged"""
    out = []

    def go(p):
        if p.op == 'fmt':
            for x in p.a: go(x)
        elif p.op == 'disp' and p.a[0].op in ('str', 'fmt', 'disp', 'char', 'int'): go(p.a[0])
        elif p.op == 'int': lit(str(p.a[0]))
        elif p.op == 'char': lit(chr(p.a[0]))
        elif p.op == 'str': lit(p.a[0])
        elif p.op == 'bytes': lit(p.a[0].decode())
        else: out.append(p)

    def lit(s):
        if not s: return
        if out and out[-1].op == 'str': out[-1] = Str(out[-1].a[0] + s)
        else: out.append(Str(s))
    for p in parts: go(p)
    return out


# ---------------------------------------------------------------- program descriptions
# operand: 'name' (a declared value) | ('int', n) | ('zero', ty) | ('undef', ty) | ('agg', ty, [operands])
class D:
    """description of a program; builds the seeded world and carries the entities for the expected text"""

    def __init__(self, ir, e, opaque=None):
        self.ir, self.e = ir, e
        e.max_rec = max(e.max_rec, 6)
        self.P = Prog(ir, e)
        self.cn = 0
        self.globals, self.funcs = [], []
        self.ty = {}        # entity -> type
        self.consts = {}    # value -> constant operand
        self.kinds = {}
        self.extra = opaque or {}

    def glob(self, name, init):
        """global @name = alloc T, init"""
        i, ty = self.gconst(init)
        v = self.P.globalval(name, self.ir.ptr(ty), self.ir.kind('GlobalAlloc', init=i), inst=True)
        self.ty[v] = self.ir.ptr(ty)
        self.globals.append((v, init))
        return v

    def const(self, c, mkval):
        ir = self.ir
        self.cn += 1
        n = 'c%d' % self.cn
        if c[0] == 'int': k, ty = ir.kind('Integer', value=c[1] if isinstance(c[1], T) else Int(c[1])), ir.I32
        elif c[0] == 'zero': k, ty = ir.kind('ZeroInit'), c[1]
        elif c[0] == 'undef': k, ty = ir.kind('Undef'), c[1]
        else: k, ty = ir.kind('Aggregate', elems=[self.const(x, mkval)[0] for x in c[2]]), c[1]
        v = mkval(n, ty, k)
        self.consts[v] = c
        self.ty[v] = ty
        return v, ty

    def gconst(self, c): return self.const(c, lambda n, ty, k: self.P.globalval(n, ty, k))

    def func(self, name, params, ret, blocks=None, in_layout=True):
        ir = self.ir
        fty = ir.func([t for _, t in params], ret)
        f = self.P.func(name, [], fty, in_layout=in_layout)
        o = F(self, f, name, params, ret, blocks is not None)
        o.placed = in_layout
        self.funcs.append(o)
        return o

    def build(self):
        P = self.P
        for o in self.funcs:
            o.build()
        st = P.finish()
        self.ent = {}
        for v in P.gs: self.ent[self.e.canon(st, slot(P.values, v))] = v
        for o in self.funcs:
            for v in o.vals: self.ent[self.e.canon(st, slot(o.o.l.values, v))] = v
            for b in o.o.bbs + o.o.loose: self.ent[self.e.canon(st, slot(o.o.l.bbs, b))] = b
            self.ent[self.e.canon(st, slot(P.funcs, o.o.f))] = o.o.f
            self.ent[slot(P.funcs, o.o.f)] = o.o.f
        self.e.opaque = {**TYPE_GET, **names(), **P.is_global(), **self.extra}
        return st

    def entity(self, t):
        """name term -> (kind, entity, prefix)"""
        return t.a[1].a[0], self.ent.get(t.a[2], t.a[2]), t.a[3]


class F:
    def __init__(self, d, o, name, params, ret, defined):
        self.d, self.o, self.name, self.ret, self.defined = d, o, name, ret, defined
        ir = d.ir
        self.params, self.blocks, self.vals = [], [], {}
        self.ptys = [t for _, t in params]
        if defined:
            for i, (n, t) in enumerate(params):
                v = o.value(n, t, ir.kind('FuncArgRef', index=Int(i)))
                self.vals[v] = 1
                d.ty[v] = t
                self.params.append(v)
        o.params = self.params
        self.loose = []

    def block(self, name, params=(), placed=True):
        ir = self.d.ir
        ps = []
        for i, (n, t) in enumerate(params):
            v = self.o.value(n, t, ir.kind('BlockArgRef', index=Int(i)))
            self.vals[v] = 1
            self.d.ty[v] = t
            ps.append(v)
        b = self.o.block(name, ps, placed)
        if placed: self.blocks.append((b, ps, []))
        return b

    def inst(self, b, name, ty, kind, ops):
        """ops: {field: operand | [operands]}; block and callee fields take handles; b None: an instruction in no block"""
        v = Sym(name)
        self.d.ty[v] = ty
        if b is None: self.loose.append((v, kind, dict(ops)))
        else: [x for x in self.blocks if x[0] is b][0][2].append((v, kind, dict(ops)))
        return v

    def val(self, x):
        if isinstance(x, tuple):
            v, _ = self.d.const(x, lambda n, ty, k: self.o.value(n, ty, k))
            self.vals[v] = 1
            return v
        if isinstance(x, list): return List([self.val(y) for y in x])
        return x

    def build(self):
        ir = self.d.ir
        for b, ps, insts in self.blocks + [(None, [], self.loose)]:
            for v, kind, ops in insts:
                t = {}
                for n, x in ops.items():
                    y = self.val(x) if x is not None else None
                    if FIELDS[kind] and n + '?' in FIELDS[kind]: y = ir.option(ir.kind_field_tid(kind, n), y)
                    t[n] = y
                    if n in ('true_bb', 'false_bb', 'target') and v not in self.o.users.get(y, ()): self.o.users[y].append(v)
                self.o.value(v, self.d.ty[v], ir.kind(kind, **t))
                self.vals[v] = 1
                if b is not None: self.o.place(b, v)


def lines(parts):
    """text pieces split into lines with blanks collapsed"""
    import re
    out, cur = [], []
    for p in flat(parts):
        if p.op == 'str':
            bits = re.split(r'\s*\n\s*', p.a[0])
            for i, x in enumerate(bits):
                if i:
                    out.append(cur)
                    cur = []
                x = re.sub(r'\s+', ' ', x)
                if x: cur.append(Str(x))
        else: cur.append(p)
    out.append(cur)
    res = []
    for l in out:
        l = list(l)
        if l and l[0].op == 'str': l[0] = Str(l[0].a[0].lstrip())
        if l and l[-1].op == 'str': l[-1] = Str(l[-1].a[0].rstrip())
        l = [x for x in l if not (x.op == 'str' and not x.a[0])]
        if l: res.append(tuple(l))
    return res


def generate(d, root, st):
    """outcomes of a printer on the described program, as (out, lines | None, failed, order violations)"""
    e = d.e
    outs = e.run(d.ir.fn(root), [Sym('g'), d.P.p], st)
    res = []
    for o in outs:
        w = []
        failed, after = None, False
        for x in o.st.eff:
            if x.name == 'out':
                if failed is not None: after = True
                w.append(x.args[1])
            if x.name == 'iofail' and failed is None: failed = x
        res.append((o, w, failed, after))
    return outs, res
