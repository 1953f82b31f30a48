"""Cases shared by the printer checks (B01, B02, B04, B05) and the expected texts."""
from builders import *
from prog import *

BINOPS = ['NotEq', 'Eq', 'Gt', 'Lt', 'Ge', 'Le', 'Add', 'Sub', 'Mul', 'Div', 'Mod', 'And', 'Or', 'Xor', 'Shl', 'Shr', 'Sar']
KOOPA_OP = dict(zip(BINOPS, 'ne eq gt lt ge le add sub mul div mod and or xor shl shr sar'.split()))
LLVM_OP = {'NotEq': 'icmp ne', 'Eq': 'icmp eq', 'Gt': 'icmp sgt', 'Lt': 'icmp slt', 'Ge': 'icmp sge', 'Le': 'icmp sle', 'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'sdiv',
           'Mod': 'srem', 'And': 'and', 'Or': 'or', 'Xor': 'xor', 'Shl': 'shl', 'Shr': 'lshr', 'Sar': 'ashr'}
CMP = {'NotEq', 'Eq', 'Gt', 'Lt', 'Ge', 'Le'}


def optext(ir):
    """text of every operator, as its Display implementation writes it"""
    r = {}
    for op in BINOPS:
        t = ir.variant('koopa::ir::values::BinaryOp', op)
        e = Eng(ir.u)
        outs = e.run(ir.fn('disp::binop'), [t, Sym('f')])
        txt = {tuple(flat([x.args[1] for x in o.st.eff if x.name == 'out'])) for o in outs if o.kind == 'ret' and not any(x.name == 'iofail' for x in o.st.eff)}
        if len(txt) == 1:
            p = txt.pop()
            if len(p) == 1 and p[0].op == 'str': r[t] = p[0]
    return r


def expand(t, table):
    """replace the display of known constants by their text"""
    if t.op == 'disp' and t.a[0] in table: return table[t.a[0]]
    if t.op in ('fmt', 'disp'): return mk(t.op, *[expand(x, table) for x in t.a])
    return t


def clean(d, parts, table):
    """name terms -> (kind, entity, prefix) atoms; constants expanded"""
    def go(t):
        if t.op == 'app' and t.a[0] == 'name' and t.a[1].a[0] != 'temp':
            k, x, p = d.entity(t)
            return App('N', x, p)
        if t.op == 'app' and t.a[0] == 'str_from':
            return App('str_from', go(t.a[1]), *t.a[2:])
        if t.op in ('fmt', 'disp'): return mk(t.op, *[go(x) for x in t.a])
        return t
    return lines([strip_disp(go(expand(p, table))) for p in parts])


def strip_disp(t):
    if t.op == 'disp' and t.a[0].op == 'app' and t.a[0].a[0] in ('N', 'name', 'str_from'): return t.a[0]
    if t.op == 'fmt': return mk('fmt', *[strip_disp(x) for x in t.a])
    return t


# ---------------------------------------------------------------- the cases
def operands(ir):
    """(label, operand, type): every sort of operand of type i32"""
    return [('an integer', ('int', 7)), ('a negative integer', ('int', -2147483648)), ('an unknown integer', ('int', Sym('k'))), ('undef', ('undef', ir.I32)), ('zeroinit', ('zero', ir.I32)), ('a parameter', 'x'),
            ('a block parameter', 'q'), ('an instruction', 'a')]


def cases(ir, mods, thorough=False):
    """yield (rule construct, builder function D -> None)"""
    I, U = ir.I32, ir.UNIT
    A = ir.arr
    agg = ('agg', A(I, 3), [('int', 1), ('undef', I), ('int', 2)])
    agg2 = ('agg', A(A(I, 2), 2), [('agg', A(I, 2), [('int', 1), ('int', 2)]), ('zero', A(I, 2))])
    LN = lens(ir.u, (0, 1, 2, 3), *mods)

    def body(mk_insts, params=None, ret=None, q=None):
        """one function: %entry jumps to %b with parameter q, where the instructions are"""
        def f(d):
            ps = params if params is not None else [('x', I), ('xp', ir.ptr(I)), ('xa', ir.ptr(A(I, 4)))]
            fn = d.func("f", ps, ret if ret is not None else I, blocks=[])
            e0 = fn.block('entry')
            fn.inst(e0, 'a', I, 'Binary', {'op': ir.variant('koopa::ir::values::BinaryOp', 'Add'), 'lhs': ('int', 1), 'rhs': ('int', 2)})
            b = fn.block('b', [('q', I)])
            fn.inst(e0, 'j0', U, 'Jump', {'target': b, 'args': [('int', 5)]})
            mk_insts(d, fn, b)
            return d
        return f

    def o(x): return Sym(x) if isinstance(x, str) else x
    ops = operands(ir)
    # binary: every operator with distinct operands, every operand sort on each side
    for op in BINOPS:
        t = ir.variant('koopa::ir::values::BinaryOp', op)
        yield 'binary ' + op, body(lambda d, fn, b, t=t: fn.inst(b, 'r', I, 'Binary', {'op': t, 'lhs': o('x'), 'rhs': o('q')}))
    for i, (l, x) in enumerate(ops):
        op = ir.variant('koopa::ir::values::BinaryOp', ['Sub', 'Lt'][i % 2])
        yield 'binary with %s on the left' % l, body(lambda d, fn, b, x=x: fn.inst(b, 'r', I, 'Binary', {'op': op, 'lhs': o(x), 'rhs': ('int', 3)}))
        yield 'binary with %s on the right' % l, body(lambda d, fn, b, x=x: fn.inst(b, 'r', I, 'Binary', {'op': op, 'lhs': ('int', 3), 'rhs': o(x)}))
    yield 'binary with the same operand twice', body(lambda d, fn, b: fn.inst(b, 'r', I, 'Binary', {'op': ir.variant('koopa::ir::values::BinaryOp', 'Sub'), 'lhs': o('x'), 'rhs': o('x')}))
    # alloc and load of every type shape
    for l, t in (('i32', I), ('array', A(I, 5)), ('nested array', A(A(I, 2), 3)), ('pointer', ir.ptr(I)), ('pointer to array', ir.ptr(A(I, 2))), ('array of pointers', A(ir.ptr(A(I, 7)), 2)),
                 ('pointer to pointer', ir.ptr(ir.ptr(I))), ('function', ir.func([], U)), ('function with parameters', ir.func([I, ir.ptr(I)], I)), ('array of functions', A(ir.func([A(I, 2)], U), 2)),
                 ('function returning a pointer', ir.func([ir.func([I], U), I, I], ir.ptr(I)))):
        yield 'alloc of ' + l, body(lambda d, fn, b, t=t: fn.inst(b, 'r', ir.ptr(t), 'Alloc', {}))
        yield 'load of ' + l, body(lambda d, fn, b, t=t: fn.inst(b, 'r', t, 'Load', {'src': o('p')}), [('x', I), ('p', ir.ptr(t))])
        yield 'function taking and returning ' + l, body(lambda d, fn, b, t=t: fn.inst(b, 'r', U, 'Return', {'value': o('p')}), [('x', I), ('p', t)], t)

        def calldecl(d, fn, b, t=t):
            g = d.func('g', [('u', t)], t)
            fn.inst(b, 'r', t, 'Call', {'callee': Sym('g'), 'args': [o('p')]})
        yield 'call passing and returning ' + l, body(calldecl, [('x', I), ('p', t)], U)
        if l not in ('function', 'function with parameters'):
            yield 'store of undef %s' % l, body(lambda d, fn, b, t=t: fn.inst(b, 'r', U, 'Store', {'value': ('undef', t), 'dest': o('p')}), [('x', I), ('p', ir.ptr(t))])
            yield 'getptr on a pointer to ' + l, body(lambda d, fn, b, t=t: fn.inst(b, 'r', ir.ptr(t), 'GetPtr', {'src': o('p'), 'index': o('x')}), [('x', I), ('p', ir.ptr(t))])
            yield 'getelemptr on an array of ' + l, body(lambda d, fn, b, t=t: fn.inst(b, 'r', ir.ptr(t), 'GetElemPtr', {'src': o('p'), 'index': o('x')}), [('x', I), ('p', ir.ptr(A(t, 3)))])

            def glob(d, fn, b, t=t):
                d.glob('gv', ('zero', t))
                d.glob('gw', ('undef', t))
                fn.inst(b, 'r', t, 'Load', {'src': Sym('gv')})
                fn.inst(b, 'r2', U, 'Store', {'value': o('r'), 'dest': Sym('gw')})
                fn.inst(b, 'r3', ir.ptr(t), 'GetPtr', {'src': Sym('gw'), 'index': ('int', 1)})
            yield 'global of ' + l, body(glob)
    # store, addressing: operand sorts
    for l, x in ops:
        yield 'store of ' + l, body(lambda d, fn, b, x=x: fn.inst(b, 'r', U, 'Store', {'value': o(x), 'dest': o('xp')}))
        yield 'getptr with index ' + l, body(lambda d, fn, b, x=x: fn.inst(b, 'r', ir.ptr(I), 'GetPtr', {'src': o('xp'), 'index': o(x)}))
        yield 'getelemptr with index ' + l, body(lambda d, fn, b, x=x: fn.inst(b, 'r', ir.ptr(I), 'GetElemPtr', {'src': o('xa'), 'index': o(x)}))
        yield 'return of ' + l, body(lambda d, fn, b, x=x: fn.inst(b, 'r', U, 'Return', {'value': o(x)}))

        def br(d, fn, b, x=x):
            t, e = fn.block('t'), fn.block('e')
            fn.inst(b, 'r', U, 'Branch', {'cond': o(x), 'true_bb': t, 'false_bb': e, 'true_args': [], 'false_args': []})
            fn.inst(t, 'r1', U, 'Return', {'value': ('int', 0)})
            fn.inst(e, 'r2', U, 'Jump', {'target': t, 'args': []})
        yield 'branch on ' + l, body(br)
        for n in (1, 2):
            def jmp(d, fn, b, x=x, n=n):
                t = fn.block('t', [('tp%d' % i, I) for i in range(n)])
                fn.inst(b, 'r', U, 'Jump', {'target': t, 'args': [o(x), o('q')][:n]})
                fn.inst(t, 'r1', U, 'Return', {'value': o('tp%d' % (n - 1))})
            yield 'jump passing ' + l, body(jmp)

        def call(d, fn, b, x=x):
            d.func('g', [('u', I), ('w', I)], I)
            fn.inst(b, 'r', I, 'Call', {'callee': Sym('g'), 'args': [o(x), o('q')]})
        yield 'call passing ' + l, body(call)
    for l, a in (('aggregate', agg), ('nested aggregate', agg2), ('zero array', ('zero', A(I, 3)))):
        yield 'store of ' + l, body(lambda d, fn, b, a=a: fn.inst(b, 'r', U, 'Store', {'value': a, 'dest': o('p')}), [('x', I), ('p', ir.ptr(a[1]))])
        yield 'return of ' + l, body(lambda d, fn, b, a=a: fn.inst(b, 'r', U, 'Return', {'value': a}), None, a[1])

        def jmpa(d, fn, b, a=a):
            t = fn.block('t', [('tp', a[1])])
            fn.inst(b, 'r', U, 'Jump', {'target': t, 'args': [a]})
            fn.inst(t, 'r1', U, 'Return', {'value': o('tp')})
        yield 'jump passing ' + l, body(jmpa, None, a[1])

        def calla(d, fn, b, a=a):
            d.func('g', [('u', a[1])], U)
            fn.inst(b, 'r', U, 'Call', {'callee': Sym('g'), 'args': [a]})
        yield 'call passing ' + l, body(calla)

        def globa(d, a=a):
            d.glob('gv', a)
            d.glob('gw', ('int', 9))
            return d
        yield 'global ' + l, globa
    for n in LN:
        if n == 0: continue
        yield 'global aggregate of %d' % n, lambda d, n=n: (d.glob('gv', ('agg', A(I, n), [('int', i) for i in range(n)])), d)[1]
        yield 'store of an aggregate of %d' % n, body(lambda d, fn, b, n=n: fn.inst(b, 'r', U, 'Store', {'value': ('agg', A(I, n), [('int', i) for i in range(n)]), 'dest': o('p')}), [('x', I), ('p', ir.ptr(A(I, n)))])
    # return without value, calls of every arity, defined before, after, declared, recursive
    yield 'return without value', body(lambda d, fn, b: fn.inst(b, 'r', U, 'Return', {'value': None}), None, U)
    for n in LN:
        args = [o('x'), ('int', 3), o('q'), o('a')]
        for ret in (I, U):
            for where in ('before', 'after', 'declared before', 'declared after'):
                def f(d, n=n, ret=ret, where=where):
                    gd = lambda: d.func('g', [('u%d' % i, I) for i in range(n)], ret, blocks=[] if 'declared' not in where else None)

                    def fill(g):
                        if g.defined:
                            gb = g.block('gb')
                            g.inst(gb, 'gr', U, 'Return', {'value': None if ret is U else ('int', 0)})
                    if 'before' in where: fill(gd())
                    body(lambda d, fn, b: fn.inst(b, 'r', ret, 'Call', {'callee': Sym('g'), 'args': [args[i % 4] for i in range(n)]}))(d)
                    if 'after' in where: fill(gd())
                    return d
                yield 'call with %d arguments, %s, callee %s' % (n, 'without result' if ret is U else 'with result', where), f

        def rec(d, n=n):
            fn = d.func('f', [('x%d' % i, I) for i in range(n)], I, blocks=[])
            b = fn.block('b')
            fn.inst(b, 'r', I, 'Call', {'callee': Sym('f'), 'args': [Sym('x%d' % (n - 1 - i)) for i in range(n)]})
            fn.inst(b, 'rr', U, 'Return', {'value': o('r')})
            return d
        yield 'recursive call with %d arguments' % n, rec
        for ret in (I, U):
            yield 'declaration with %d parameters%s' % (n, '' if ret is U else ' and result'), lambda d, n=n, ret=ret: (d.func('g', [('u%d' % i, [I, ir.ptr(I), A(I, 2)][i % 3]) for i in range(n)], ret), d)[1]

            def defn(d, n=n, ret=ret):
                g = d.func('g', [('u%d' % i, [I, ir.ptr(I), A(I, 2)][i % 3]) for i in range(n)], ret, blocks=[])
                b = g.block('gb')
                g.inst(b, 'gr', U, 'Return', {'value': None if ret is U else ('int', 0)})
                return d
            yield 'definition with %d parameters%s' % (n, '' if ret is U else ' and result'), defn
    # branches with arguments, phis with several predecessors
    for n in LN:
        for m in LN if n < 4 else (1,):
            if m > 3 and n > 1: continue

            def br(d, fn, b, n=n, m=m):
                t, e = fn.block('t', [('tp%d' % i, I) for i in range(n)]), fn.block('e', [('ep%d' % i, I) for i in range(m)])
                fn.inst(b, 'r', U, 'Branch', {'cond': o('x'), 'true_bb': t, 'false_bb': e, 'true_args': [[o('a'), ('int', 1), o('q')][i % 3] for i in range(n)], 'false_args': [[('int', 2), o('x'), ('undef', I)][i % 3] for i in range(m)]})
                fn.inst(t, 'r1', U, 'Return', {'value': ('int', 0)})
                fn.inst(e, 'r2', U, 'Jump', {'target': t, 'args': [[('int', 8), o('a')][i % 2] for i in range(n)]})
            yield 'branch with %d and %d arguments' % (n, m), body(br)

    def loop(d, fn, b):
        t, e = fn.block('t', [('tp', I), ('tr', I)]), fn.block('e')
        fn.inst(b, 'r', U, 'Branch', {'cond': o('x'), 'true_bb': e, 'false_bb': t, 'true_args': [], 'false_args': [o('q'), ('int', 4)]})
        fn.inst(t, 's', I, 'Binary', {'op': ir.variant('koopa::ir::values::BinaryOp', 'Mul'), 'lhs': o('tp'), 'rhs': o('tr')})
        fn.inst(t, 'r1', U, 'Branch', {'cond': o('s'), 'true_bb': t, 'false_bb': b, 'true_args': [o('s'), o('tp')], 'false_args': [o('tr')]})
        fn.inst(e, 'r2', U, 'Jump', {'target': t, 'args': [('int', 1), ('int', 2)]})
    yield 'loop with several predecessors', body(loop)

    def same(d, fn, b):
        t = fn.block('t')
        fn.inst(b, 'r', U, 'Branch', {'cond': o('x'), 'true_bb': t, 'false_bb': t, 'true_args': [], 'false_args': []})
        fn.inst(t, 'r1', U, 'Return', {'value': o('q')})
    yield 'branch whose targets are one block', body(same)


def orders(ir):
    """programs of several functions, globals, blocks and instructions, in layout orders that differ from other orders"""
    I, U = ir.I32, ir.UNIT
    BO = lambda n: ir.variant('koopa::ir::values::BinaryOp', n)

    def prog(ng, shape):
        """shape: list of functions: None (declaration) or list of numbers of instructions per block"""
        def f(d):
            for i in range(ng): d.glob('g%d' % i, [('int', i), ('zero', ir.arr(I, i + 1)), ('undef', I)][i % 3])
            for k, s in enumerate(shape):
                fn = d.func('f%d' % k, [('f%dp' % k, I)], U, blocks=None if s is None else [])
                if s is None: continue
                bs = [fn.block('f%db%d' % (k, j)) for j in range(len(s))]
                for j, n in enumerate(s):
                    for i in range(n):
                        fn.inst(bs[j], 'f%di%d_%d' % (k, j, i), I, 'Binary', {'op': BO(BINOPS[(i + j) % 17]), 'lhs': Sym('f%dp' % k), 'rhs': ('int', i)})
            return d
        return f
    for ng in (0, 1, 2, 3):
        yield '%d globals, no function' % ng, prog(ng, [])
        yield '%d globals, declaration' % ng, prog(ng, [None])
        yield '%d globals, definition' % ng, prog(ng, [[1]])
        yield '%d globals, three functions' % ng, prog(ng, [[1], None, [0, 2]])
    def loose(d):
        """registered but not placed: not part of the program"""
        d.glob('g0', ('int', 1))
        d.func('h', [('hp', I)], U, blocks=[], in_layout=False)
        fn = d.func('f', [('x', I)], I, blocks=[])
        b0 = fn.block('b0')
        fn.block('lb', placed=False)
        b1 = fn.block('b1')
        fn.inst(None, 'l0', I, 'Binary', {'op': BO('Add'), 'lhs': Sym('x'), 'rhs': ('int', 4)})
        fn.inst(b0, 'r0', U, 'Jump', {'target': b1, 'args': []})
        fn.inst(b1, 'r1', U, 'Return', {'value': ('int', 0)})
        fn.inst(None, 'l1', I, 'Load', {'src': Sym('g0')})
    yield 'registered entities that are not placed', loose
    for s in ([[0]], [[2]], [[3]], [[1, 1]], [[0, 0, 0]], [[2, 0, 1]], [[1], [1]], [[1], [2], [3]], [None, None], [None, [1], None], [[1, 2], [3, 1], [1]], [[1]] * 5, [[4] * 4]):
        yield 'functions with blocks of %s instructions' % s, prog(0, s)


# ---------------------------------------------------------------- expected texts
def N(x, p): return App('N', x, p)


def join(items, sep=', '):
    out = []
    for i, x in enumerate(items):
        if i: out.append(Str(sep))
        out += x
    return out


def S(s): return [Str(s)]


class Koopa:
    root = 'gen_koopa::generate_on'

    def __init__(self, ir): self.ir, self.ops = ir, optext(ir)

    def table(self): return self.ops

    def prefix(self, p): return p

    def name(self, x): return [N(x, Sym('prefix0'))]

    def const(self, d, c):
        if c[0] == 'int': return S(str(c[1])) if isinstance(c[1], int) else [mk('disp', c[1])]
        if c[0] == 'zero': return S('zeroinit')
        if c[0] == 'undef': return S('undef')
        return S('{') + join([self.const(d, x) for x in c[2]]) + S('}')

    def val(self, d, x): return self.const(d, x) if isinstance(x, tuple) else self.name(x)
    def vals(self, d, xs): return join([self.val(d, x) for x in xs])
    def ty(self, t): return [mk('disp', t)]
    def target(self, d, b, args): return self.name(b) + (S('(') + self.vals(d, args) + S(')') if args else [])

    def inst(self, d, fn, v, kind, ops):
        ir, q = self.ir, lambda n: self.val(d, ops[n])
        head = [] if d.ty[v] is ir.UNIT else self.name(v) + S(' = ')
        if kind == 'Alloc': t = S('alloc ') + self.ty(d.ty[v].a[2])
        elif kind == 'Load': t = S('load ') + q('src')
        elif kind == 'Store': t = S('store ') + q('value') + S(', ') + q('dest')
        elif kind == 'GetPtr': t = S('getptr ') + q('src') + S(', ') + q('index')
        elif kind == 'GetElemPtr': t = S('getelemptr ') + q('src') + S(', ') + q('index')
        elif kind == 'Binary': t = S(KOOPA_OP[BINOPS[ops['op'].a[1]] if False else opname(ir, ops['op'])] + ' ') + q('lhs') + S(', ') + q('rhs')
        elif kind == 'Branch': t = S('br ') + q('cond') + S(', ') + self.target(d, ops['true_bb'], ops['true_args']) + S(', ') + self.target(d, ops['false_bb'], ops['false_args'])
        elif kind == 'Jump': t = S('jump ') + self.target(d, ops['target'], ops['args'])
        elif kind == 'Call': t = S('call ') + self.name(ops['callee']) + S('(') + self.vals(d, ops['args']) + S(')')
        elif kind == 'Return': t = S('ret') + (S(' ') + q('value') if ops['value'] is not None else [])
        return head + t + S('\n')

    def text(self, d):
        ir, t = self.ir, []
        for v, c in d.globals: t += S('global ') + self.name(v) + S(' = alloc ') + self.ty(d.ty[v].a[2]) + S(', ') + self.const(d, c) + S('\n')
        for fn in [x for x in d.funcs if x.placed]:
            ret = [] if fn.ret is ir.UNIT else S(': ') + self.ty(fn.ret)
            if not fn.blocks:
                t += S('decl ') + self.name(fn.o.f) + S('(') + join([self.ty(x) for x in fn.ptys]) + S(')') + ret + S('\n')
                continue
            t += S('fun ') + self.name(fn.o.f) + S('(') + join([self.name(p) + S(': ') + self.ty(d.ty[p]) for p in fn.params]) + S(')') + ret + S(' {\n')
            for b, ps, insts in fn.blocks:
                t += self.name(b) + (S('(') + join([self.name(p) + S(': ') + self.ty(d.ty[p]) for p in ps]) + S(')') if ps else []) + S(':\n')
                for v, kind, ops in insts: t += self.inst(d, fn, v, kind, ops)
            t += S('}\n')
        return t


def opname(ir, t): return ir.variants('koopa::ir::values::BinaryOp')[t.a[1]]


class Llvm:
    root = 'gen_llvm::generate_on'

    def __init__(self, ir): self.ir, self.ops = ir, optext(ir)

    def table(self): return self.ops

    def prefix(self, p):
        if p.op == 'adt':
            s = [x.a[0][:1] for x in p.a[2:4] if x.op == 'str']
            if s == ['@', '@']: return Sym('global prefix')
            if s == ['%', '%']: return Sym('local prefix')
        return p

    def g(self, x): return [N(x, Sym('global prefix'))]
    def l(self, x): return [N(x, Sym('local prefix'))]
    def name(self, d, x): return self.g(x) if x in d.P.globs or x in d.P.fs else self.l(x)

    def ty(self, t):
        ir = self.ir
        n = ir.variants('koopa::ir::TypeKind')[t.a[1]]
        if n == 'Int32': return S('i32')
        if n == 'Unit': return S('void')
        if n == 'Array': return S('[') + S(str(t.a[3].a[0])) + S(' x ') + self.ty(t.a[2]) + S(']')
        if n == 'Pointer': return self.ty(t.a[2]) + S('*')
        return self.ty(t.a[3]) + S(' (') + join([self.ty(x) for x in t.a[2].a]) + S(')*')

    def const(self, d, c, typed):
        t = self.ty(c[1] if c[0] != 'int' else self.ir.I32) + S(' ') if typed else []
        if c[0] == 'int': return t + (S(str(c[1])) if isinstance(c[1], int) else [mk('disp', c[1])])
        if c[0] == 'zero': return t + S('zeroinitializer')
        if c[0] == 'undef': return t + S('undef')
        return t + S('[') + join([self.const(d, x, True) for x in c[2]]) + S(']')

    def val(self, d, x, typed=True):
        if isinstance(x, tuple): return self.const(d, x, typed)
        return (self.ty(d.ty[x]) + S(' ') if typed else []) + self.name(d, x)

    def inst(self, d, fn, v, kind, ops):
        ir, q = self.ir, lambda n, ty=True: self.val(d, ops[n], ty)
        T = lambda x: d.ty[x] if not isinstance(x, tuple) else x[1]
        head = [] if d.ty[v] is ir.UNIT else self.name(d, v) + S(' = ')
        tmp = [App('T', v)]
        if kind == 'Alloc': t = S('alloca ') + self.ty(d.ty[v].a[2])
        elif kind == 'Load': t = S('load ') + self.ty(d.ty[v]) + S(', ') + q('src')
        elif kind == 'Store': t = S('store ') + q('value') + S(', ') + q('dest')
        elif kind == 'GetPtr': t = S('getelementptr inbounds ') + self.ty(T(ops['src']).a[2]) + S(', ') + q('src') + S(', ') + q('index')
        elif kind == 'GetElemPtr': t = S('getelementptr inbounds ') + self.ty(T(ops['src']).a[2]) + S(', ') + q('src') + S(', i32 0, ') + q('index')
        elif kind == 'Binary':
            op = opname(ir, ops['op'])
            t = S(LLVM_OP[op] + ' i32 ') + q('lhs', False) + S(', ') + q('rhs', False)
            if op in CMP:
                t = tmp + S(' = ') + t + S('\n') + head + S('zext i1 ') + tmp + S(' to i32')
                head = []
        elif kind == 'Branch':
            t = tmp + S(' = icmp ne i32 ') + q('cond', False) + S(', 0\nbr i1 ') + tmp + S(', label ') + self.l(ops['true_bb']) + S(', label ') + self.l(ops['false_bb'])
        elif kind == 'Jump': t = S('br label ') + self.l(ops['target'])
        elif kind == 'Call': t = S('call ') + self.ty(d.ty[v]) + S(' ') + self.g(ops['callee']) + S('(') + join([self.val(d, x) for x in ops['args']]) + S(')')
        elif kind == 'Return': t = S('ret ') + (q('value') if ops['value'] is not None else S('void'))
        return head + t + S('\n')

    def text(self, d):
        t = []
        for v, c in d.globals: t += self.g(v) + S(' = global ') + self.const(d, c, True) + S('\n')
        for fn in [x for x in d.funcs if x.placed]:
            if not fn.blocks:
                t += S('declare ') + self.ty(fn.ret) + S(' ') + self.g(fn.o.f) + S('(') + join([self.ty(x) for x in fn.ptys]) + S(')\n')
                continue
            t += S('define ') + self.ty(fn.ret) + S(' ') + self.g(fn.o.f) + S('(') + join([self.ty(d.ty[p]) + S(' ') + self.l(p) for p in fn.params]) + S(') {\n')
            for b, ps, insts in fn.blocks:
                t += [App('str_from', N(b, Sym('local prefix')), Int(1))] + S(':\n')
                for i, p in enumerate(ps):
                    inc = []
                    for pb, _, pins in fn.blocks:
                        for v, kind, ops in pins:
                            edges = [(ops['target'], ops['args'])] if kind == 'Jump' else [(ops['true_bb'], ops['true_args']), (ops['false_bb'], ops['false_args'])] if kind == 'Branch' else []
                            for tb, args in edges:
                                if tb is b: inc.append(S('[') + self.val(d, args[i], False) + S(', ') + self.l(pb) + S(']'))
                    t += self.l(p) + S(' = phi ') + self.ty(d.ty[p]) + S(' ') + join(inc) + S('\n')
                for v, kind, ops in insts: t += self.inst(d, fn, v, kind, ops)
            t += S('}\n')
        return t


# ---------------------------------------------------------------- comparison
def reprefix(p, t):
    if t.op == 'app' and t.a[0] == 'N': return App('N', t.a[1], p.prefix(t.a[2]))
    if t.op == 'app' and t.a[0] == 'name': return App('name', *(t.a[1:3] + (p.prefix(t.a[3]),)))
    if t.op == 'app' and t.a[0] == 'str_from': return App('str_from', reprefix(p, t.a[1]), *t.a[2:])
    if t.op in ('fmt', 'disp'): return mk(t.op, *[reprefix(p, x) for x in t.a])
    return t


def incoming(line):
    """(head, sorted incoming entries) of a phi line"""
    for i, x in enumerate(line):
        if x.op == 'str' and ' = phi ' in x.a[0]:
            s = ''.join('\0%d\0' % j if y.op != 'str' else y.a[0] for j, y in enumerate(line[i:]))
            import re
            head, _, rest = s.partition(' [') if ' [' in s else (s, '', '')
            m = re.match(r'^(.*? = phi .*?) (\[\0?.*)$', s)
            # incoming entries start at the last "[" that follows the type: split at "], ["
            ty, ent = split_phi(s)
            conv = lambda z: re.sub('\0(\\d+)\0', lambda q: show(line[i + int(q.group(1))]), z)
            return tuple(line[:i]) + (Str(conv(ty)),) + tuple(Str(z) for z in sorted(conv(y) for y in ent))
    return line


def split_phi(s):
    """'... = phi TYPE [v, bb], [v, bb]' -> (head with type, entries)"""
    k = s.index(' = phi ') + 7
    dep, i = 0, k
    # the type ends at the first blank outside brackets that is followed by "["
    while i < len(s):
        ch = s[i]
        if ch in '[(': dep += 1
        elif ch in '])': dep -= 1
        elif ch == ' ' and dep == 0 and s[i + 1:i + 2] == '[': break
        i += 1
    head, rest = s[:i], s[i + 1:]
    ents, cur, dep = [], '', 0
    for ch in rest:
        if ch in '[(': dep += 1
        elif ch in '])': dep -= 1
        if ch == ',' and dep == 0:
            ents.append(cur.strip())
            cur = ''
        else: cur += ch
    if cur.strip(): ents.append(cur.strip())
    return head, ents


def unify(a, b, tmp):
    """expected line a, written line b"""
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if x is y: continue
        if x.op == 'app' and x.a[0] == 'T' and y.op == 'app' and y.a[0] == 'name' and y.a[1].a[0] == 'temp' and y.a[3] is Sym('local prefix'):
            if tmp.setdefault(x, y) is not y: return False
            if len(set(tmp.values())) != len(tmp): return False
            continue
        return False
    return True


def showl(l): return ''.join(x.a[0] if x.op == 'str' else '<%s>' % (show(x.a[1]) + ('' if 'prefix' in show(x.a[2]) and 'prefix0' not in show(x.a[2]) else '') if x.op == 'app' and x.a[0] == 'N' else show(x)) for x in l)


def compare(want, got):
    """None if equal, else a description of the first difference"""
    tmp = {}
    for i in range(max(len(want), len(got))):
        w = incoming(want[i]) if i < len(want) else None
        g = incoming(got[i]) if i < len(got) else None
        if w is None: return 'extra line "%s"' % showl(g)
        if g is None: return 'missing line "%s"' % showl(w)
        if not unify(w, g, tmp): return 'line %d is "%s", expected "%s"' % (i + 1, showl(g), showl(w))
    return None
