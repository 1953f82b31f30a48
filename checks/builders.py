"""Enumeration of builder calls shared by K04 and K05: entry point, seeded operands, and what the documentation says about the call."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *

CONST = ('Integer', 'ZeroInit', 'Undef', 'Aggregate')
NAMES = [('', 0), ('%', 0), ('@', 0), ('a', 0), ('ab', 0), ('x%', 0), ('a@b', 0), (' %a', 0), ('%a', 1), ('@a', 1), ('%0', 1), ('@main', 1), ('%%', 1), ('%long_name', 1)]


class Case:
    """one call: entry point, arguments, expected (None = must panic | (kind, {operand: term}, type, extra))"""
    def __init__(self, root, con, args, expect, detail=''):
        self.root, self.con, self.args, self.expect, self.detail = root, con, args, expect, detail


def types(ir):
    I, U = ir.I32, ir.UNIT
    A3 = ir.arr(I, 3)
    return {'i32': I, 'unit': U, '*i32': ir.ptr(I), '**i32': ir.ptr(ir.ptr(I)), '[i32,3]': A3, '[i32,4]': ir.arr(I, 4), '*[i32,3]': ir.ptr(A3),
            '*[i32,4]': ir.ptr(ir.arr(I, 4)), '[[i32,3],2]': ir.arr(A3, 2), '*[[i32,3],2]': ir.ptr(ir.arr(A3, 2)), '[*i32,3]': ir.arr(ir.ptr(I), 3),
            '(i32):i32': ir.func([I], I), '(i32)': ir.func([I], U), '*(i32):i32': ir.ptr(ir.func([I], I)), '*unit': ir.ptr(U), '*t': ir.ptr(Sym('t')), '[t,n]': ir.arr(Sym('t'), Sym('n')), '*[t,n]': ir.ptr(ir.arr(Sym('t'), Sym('n')))}


def ptree(t):
    """(constructor, children) of a type term"""
    return t


def tkind(ir, t):
    return ir.variants('koopa::ir::TypeKind')[t.a[1]] if t.op == 'adt' else None


def pointee(ir, t): return t.a[2] if tkind(ir, t) == 'Pointer' else None
def base(ir, t): return t.a[2] if t is not None and tkind(ir, t) == 'Array' else None


def run_case(u, ir, where, method, make, opaque=None):
    """where: local|replace|global; make(world, eng) -> (args, expect). Returns (engine, world, outs, expect, args)"""
    e = Eng(u, opaque=TYPE_GET if opaque is None else opaque)
    if where == 'global':
        w = Global(ir, e)
        args, expect = make(w)
        outs = e.run(ir.fn('global::' + method), [w.p] + args, w.st)
    else:
        w = Local(ir, e)
        v = Sym('v')
        args, expect = make(w)
        if where == 'replace':
            w.value(v, 'local', ty=ir.I32, kind=ir.kind('Integer'), used_by=Sym('own_users'))
        outs = e.run(ir.fn(where + '::' + method), [w.d, v] + args, w.st)
    return e, w, outs, expect, args


def value_cases(ir):
    """yields (contexts, method, construct, detail, make) where make(w) gives (args, expected)"""
    T = types(ir)
    ground = {k: v for k, v in T.items() if 't' not in k.replace('unit', '')}
    ALLV = ('local', 'replace', 'global')
    LOC = ('local', 'replace')

    def val(w, name, ty, kind=None, place=None):
        kind = kind if kind is not None else ir.kind('Integer', value=Sym(name + '_int'))
        if isinstance(w, Global): return w.value(name, ty=ty, kind=kind)
        return w.value(name, place or 'local', ty=ty, kind=kind)

    yield ALLV, 'integer', 'integer', 'any number', lambda w: ([Sym('num')], ('Integer', {'value': Sym('num')}, ir.I32))
    for k, t in T.items():
        ok = t is not ir.UNIT
        yield ALLV, 'zero_init', 'zero_init', k, lambda w, t=t, ok=ok: ([t], ('ZeroInit', {}, t) if ok else None)
        yield ALLV, 'undef', 'undef', k, lambda w, t=t, ok=ok: ([t], ('Undef', {}, t) if ok else None)
        yield LOC, 'alloc', 'alloc', k, lambda w, t=t, ok=ok: ([t], ('Alloc', {}, ir.ptr(t)) if ok else None)
        for place in ('local', 'global'):
            if place == 'local':
                def mk_ga(w, t=t, ok=ok):
                    x = val(w, 'x', t)
                    return [x], ('GlobalAlloc', {'init': x}, ir.ptr(t)) if ok else None
                yield ('global',), 'global_alloc', 'global_alloc', 'init of type ' + k, mk_ga

            def mk_load(w, t=t, place=place):
                x = val(w, 'x', t, place=place)
                p = pointee(ir, t)
                return [x], ('Load', {'src': x}, p) if p is not None else None
            yield LOC, 'load', 'load', '%s operand of type %s' % (place, k), mk_load

            def mk_ret(w, t=t, place=place, ok=ok):
                x = val(w, 'x', t, place=place)
                o = opt(ir, x)
                return [o], ('Return', {'value': o}, ir.UNIT) if ok else None
            yield LOC, 'ret', 'ret', '%s operand of type %s' % (place, k), mk_ret
    yield LOC, 'ret', 'ret', 'no operand', lambda w: ([opt(ir, None)], ('Return', {'value': opt(ir, None)}, ir.UNIT))
    # every operand kind may be used
    for kn in KINDS:
        def mk_k(w, kn=kn):
            x, y = val(w, 'x', ir.I32, kind=ir.kind(kn)), val(w, 'y', ir.I32, kind=ir.kind(kn), place='global')
            return [Sym('op'), x, y], ('Binary', {'op': Sym('op'), 'lhs': x, 'rhs': y}, ir.I32)
        yield LOC, 'binary', 'binary', 'operands of kind ' + kn, mk_k
    # two-operand instructions over all pairs of shapes
    for k1, t1 in T.items():
        for k2, t2 in T.items():
            sym = ('t' in k1.replace('unit', '')) and k1 != k2 or ('t' in k2.replace('unit', '')) and k1 != k2
            for places in (('local', 'global'), ('global', 'local')):
                def two(w, t1=t1, t2=t2, places=places):
                    return val(w, 'x', t1, place=places[0]), val(w, 'y', t2, place=places[1])
                d = '%s operand of type %s, %s operand of type %s' % (places[0], k1, places[1], k2)

                def mk_store(w, two=two, t1=t1, t2=t2):
                    x, y = two(w)
                    return [x, y], ('Store', {'value': x, 'dest': y}, ir.UNIT) if t2 is ir.ptr(t1) else None

                def mk_gp(w, two=two, t1=t1, t2=t2):
                    x, y = two(w)
                    return [x, y], ('GetPtr', {'src': x, 'index': y}, t1) if pointee(ir, t1) is not None and t2 is ir.I32 else None

                def mk_gep(w, two=two, t1=t1, t2=t2):
                    x, y = two(w)
                    b = base(ir, pointee(ir, t1))
                    return [x, y], ('GetElemPtr', {'src': x, 'index': y}, ir.ptr(b)) if b is not None and t2 is ir.I32 else None

                def mk_bin(w, two=two, t1=t1, t2=t2):
                    x, y = two(w)
                    return [Sym('op'), x, y], ('Binary', {'op': Sym('op'), 'lhs': x, 'rhs': y}, ir.I32) if t1 is ir.I32 and t2 is ir.I32 else None
                if not sym or t2 is ir.ptr(t1): yield LOC, 'store', 'store', d, mk_store
                if k1 == k2 or t2 is ir.I32 or t1 is T['*i32'] or t1 is T['*[i32,3]']:
                    yield LOC, 'get_ptr', 'get_ptr', d, mk_gp
                    if pointee(ir, t1) is not Sym('t'): yield LOC, 'get_elem_ptr', 'get_elem_ptr', d, mk_gep
                if t1 is ir.I32 or t2 is ir.I32 or k1 == k2: yield LOC, 'binary', 'binary', d, mk_bin
    # aggregates: every list length 0..3, a changed type or kind at every position
    big = [n for n in lens(ir.u, [9]) if n > 4]
    for n in [0, 1, 2, 3, 4] + big:
        for k, t in list(ground.items()):
            def mk_agg(w, n=n, t=t):
                xs = [val(w, 'e%d' % i, t, place=('local', 'global')[i % 2]) for i in range(n)]
                return [List(xs)], ('Aggregate', {'elems': List(xs)}, ir.arr(t, n)) if n and t is not ir.UNIT else None
            if n in (0, 1, 2) or k in ('i32', '[i32,3]'):
                yield ALLV, 'aggregate', 'aggregate', '%d elements of type %s' % (n, k), mk_agg
        for pos in range(n) if n < 5 else (0, n // 2, n - 1):
            for kn in KINDS:
                def mk_aggk(w, n=n, pos=pos, kn=kn):
                    xs = [val(w, 'e%d' % i, ir.I32, kind=ir.kind(kn) if i == pos else None) for i in range(n)]
                    return [List(xs)], ('Aggregate', {'elems': List(xs)}, ir.arr(ir.I32, n)) if kn in CONST else None
                if n <= 3 or n >= 5 and kn in ('Alloc', 'Undef'): yield ALLV, 'aggregate', 'aggregate', 'element %d of %d is of kind %s' % (pos, n, kn), mk_aggk
            for k2 in ('unit', '*i32', '[i32,3]', '[i32,4]', '*t'):
                if n < 2: continue
                b = ir.arr(ir.I32, 3) if k2 == '[i32,4]' else ir.I32
                def mk_aggt(w, n=n, pos=pos, t2=T[k2], b=b):
                    xs = [val(w, 'e%d' % i, t2 if i == pos else b) for i in range(n)]
                    return [List(xs)], None
                yield ALLV, 'aggregate', 'aggregate', 'element %d of %d has type %s instead of %s' % (pos, n, k2, show(b)), mk_aggt

        def mk_dup(w, n=n):
            x = val(w, 'x', ir.I32)
            return [List([x] * n)], ('Aggregate', {'elems': List([x] * n)}, ir.arr(ir.I32, n)) if n else None
        yield ALLV, 'aggregate', 'aggregate', 'one element %d times' % n, mk_dup
    # control flow
    params = {'()': [], '(i32)': ['i32'], '(*i32)': ['*i32'], '(i32, *i32)': ['i32', '*i32'], '([i32,3], i32)': ['[i32,3]', 'i32'], '(i32, i32, i32)': ['i32'] * 3}
    args = dict(params)
    args['([i32,4], i32)'] = ['[i32,4]', 'i32']
    args['(*i32, i32)'] = ['*i32', 'i32']
    args['(i32, i32, *i32)'] = ['i32', 'i32', '*i32']

    def blk(w, name, ps):
        return w.block(name, [val(w, '%s_p%d' % (name, i), T[k], kind=ir.kind('BlockArgRef')) for i, k in enumerate(ps)])

    def vals(w, name, l):
        return [val(w, '%s%d' % (name, i), T[k], place=('local', 'global')[i % 2]) for i, k in enumerate(l)]
    for L in big:
        for ak, a in (('%d i32' % L, ['i32'] * L), ('%d i32, i32 missing' % L, ['i32'] * (L - 1)), ('%d i32 and one more' % L, ['i32'] * (L + 1)),
                      ('%d i32, first wrong' % L, ['*i32'] + ['i32'] * (L - 1)), ('%d i32, last wrong' % L, ['i32'] * (L - 1) + ['*i32'])):
            def mk_jl(w, p=['i32'] * L, a=a):
                b = blk(w, 'bb', p)
                x = vals(w, 'a', a)
                return [b, List(x)], ('Jump', {'target': b, 'args': List(x)}, ir.UNIT) if p == a else None

            def mk_cl(w, p=['i32'] * L, a=a):
                f = w.func('fn', ir.func([T[k] for k in p], T['*i32']))
                x = vals(w, 'a', a)
                return [f, List(x)], ('Call', {'callee': f, 'args': List(x)}, T['*i32']) if p == a else None
            yield LOC, 'jump_with_args', 'jump_with_args', 'target with %d parameters, arguments %s' % (L, ak), mk_jl
            yield LOC, 'call', 'call', 'callee with %d parameters, arguments %s' % (L, ak), mk_cl
            for tr in (True, False):
                def mk_bl(w, p=['i32'] * L, a=a, tr=tr):
                    c = val(w, 'c', ir.I32)
                    b1, b2 = blk(w, 'bb1', p), blk(w, 'bb2', ['i32'])
                    x, y = vals(w, 'a', a), vals(w, 'b', ['i32'])
                    if not tr: b1, b2, x, y = b2, b1, y, x
                    return [c, b1, b2, List(x), List(y)], ('Branch', {'cond': c, 'true_bb': b1, 'false_bb': b2, 'true_args': List(x), 'false_args': List(y)}, ir.UNIT) if p == a else None
                yield LOC, 'branch_with_args', 'branch_with_args', '%s target with %d parameters, arguments %s' % ('true' if tr else 'false', L, ak), mk_bl
        def mk_jn(w, L=L):
            b = blk(w, 'bb', ['i32'] * L)
            return [b], None
        yield LOC, 'jump', 'jump', 'target with %d parameters' % L, mk_jn
    for pk, p in params.items():
        def mk_jump(w, p=p):
            b = blk(w, 'bb', p)
            return [b], ('Jump', {'target': b, 'args': List([])}, ir.UNIT) if not p else None
        yield LOC, 'jump', 'jump', 'target with parameters ' + pk, mk_jump
        for ak, a in args.items():
            def mk_jwa(w, p=p, a=a):
                b = blk(w, 'bb', p)
                x = vals(w, 'a', a)
                return [b, List(x)], ('Jump', {'target': b, 'args': List(x)}, ir.UNIT) if p == a else None
            yield LOC, 'jump_with_args', 'jump_with_args', 'target with parameters %s, arguments %s' % (pk, ak), mk_jwa
            for rk in ('i32', 'unit', '*i32', '*t'):
                def mk_call(w, p=p, a=a, rk=rk):
                    f = w.func('fn', ir.func([T[k] for k in p], T[rk]))
                    x = vals(w, 'a', a)
                    return [f, List(x)], ('Call', {'callee': f, 'args': List(x)}, T[rk]) if p == a else None
                if rk in ('unit', '*t') or p == a: yield LOC, 'call', 'call', 'callee type %s: %s, arguments %s' % (pk, rk, ak), mk_call
            for p2k in params if pk in ('()', '(i32)') else (pk,):
                for a2k in args if p == a or pk == p2k else (p2k,):
                    def mk_bwa(w, p=p, a=a, p2=params[p2k], a2=args[a2k]):
                        c = val(w, 'c', ir.I32)
                        b1, b2 = blk(w, 'bb1', p), blk(w, 'bb2', p2)
                        x, y = vals(w, 'a', a), vals(w, 'b', a2)
                        return [c, b1, b2, List(x), List(y)], ('Branch', {'cond': c, 'true_bb': b1, 'false_bb': b2, 'true_args': List(x), 'false_args': List(y)}, ir.UNIT) if p == a and p2 == a2 else None
                    yield LOC, 'branch_with_args', 'branch_with_args', 'true target %s with arguments %s, false target %s with arguments %s' % (pk, ak, p2k, a2k), mk_bwa
            if ak in ('()', '(i32)', pk):
                def mk_same(w, p=p, a=a):
                    c = val(w, 'c', ir.I32)
                    b = blk(w, 'bb', p)
                    x = vals(w, 'a', a)
                    return [c, b, b, List(x), List(x)], ('Branch', {'cond': c, 'true_bb': b, 'false_bb': b, 'true_args': List(x), 'false_args': List(x)}, ir.UNIT) if not p and not a else None
                yield LOC, 'branch_with_args', 'branch_with_args', 'same target %s twice with arguments %s' % (pk, ak), mk_same
        for p2k, p2 in params.items():
            def mk_br(w, p=p, p2=p2):
                c = val(w, 'c', ir.I32)
                b1, b2 = blk(w, 'bb1', p), blk(w, 'bb2', p2)
                return [c, b1, b2], ('Branch', {'cond': c, 'true_bb': b1, 'false_bb': b2, 'true_args': List([]), 'false_args': List([])}, ir.UNIT) if not p and not p2 else None
            yield LOC, 'branch', 'branch', 'targets with parameters %s and %s' % (pk, p2k), mk_br
    for k, t in T.items():
        def mk_brc(w, t=t):
            c = val(w, 'c', t)
            b1, b2 = blk(w, 'bb1', []), blk(w, 'bb2', [])
            return [c, b1, b2], ('Branch', {'cond': c, 'true_bb': b1, 'false_bb': b2, 'true_args': List([]), 'false_args': List([])}, ir.UNIT) if t is ir.I32 else None

        def mk_brca(w, t=t):
            c = val(w, 'c', t)
            b1, b2 = blk(w, 'bb1', ['i32']), blk(w, 'bb2', [])
            x = vals(w, 'a', ['i32'])
            return [c, b1, b2, List(x), List([])], ('Branch', {'cond': c, 'true_bb': b1, 'false_bb': b2, 'true_args': List(x), 'false_args': List([])}, ir.UNIT) if t is ir.I32 else None
        yield LOC, 'branch', 'branch', 'condition of type ' + k, mk_brc
        yield LOC, 'branch_with_args', 'branch_with_args', 'condition of type ' + k, mk_brca
        if tkind(ir, t) not in ('Function', None):
            def mk_cnf(w, t=t):
                return [w.func('fn', t), List([])], None
            yield LOC, 'call', 'call', 'callee of type ' + k, mk_cnf
    # operands that do not exist
    def miss(w, name='m'):
        return w.value(name, False) if isinstance(w, Global) else w.value(name, 'missing')
    yield LOC, 'load', 'load', 'operand does not exist', lambda w: ([miss(w)], None)
    yield LOC, 'store', 'store', 'value does not exist', lambda w: ([miss(w), val(w, 'x', ir.ptr(ir.I32))], None)
    yield LOC, 'store', 'store', 'destination does not exist', lambda w: ([val(w, 'x', ir.I32), miss(w)], None)
    yield LOC, 'get_ptr', 'get_ptr', 'source does not exist', lambda w: ([miss(w), val(w, 'x', ir.I32)], None)
    yield LOC, 'get_ptr', 'get_ptr', 'index does not exist', lambda w: ([val(w, 'x', ir.ptr(ir.I32)), miss(w)], None)
    yield LOC, 'get_elem_ptr', 'get_elem_ptr', 'source does not exist', lambda w: ([miss(w), val(w, 'x', ir.I32)], None)
    yield LOC, 'get_elem_ptr', 'get_elem_ptr', 'index does not exist', lambda w: ([val(w, 'x', T['*[i32,3]']), miss(w)], None)
    yield LOC, 'binary', 'binary', 'lhs does not exist', lambda w: ([Sym('op'), miss(w), val(w, 'x', ir.I32)], None)
    yield LOC, 'binary', 'binary', 'rhs does not exist', lambda w: ([Sym('op'), val(w, 'x', ir.I32), miss(w)], None)
    yield LOC, 'ret', 'ret', 'operand does not exist', lambda w: ([opt(ir, miss(w))], None)
    yield ALLV, 'aggregate', 'aggregate', 'element does not exist', lambda w: ([List([val(w, 'x', ir.I32), miss(w)])], None)
    yield ('global',), 'global_alloc', 'global_alloc', 'operand does not exist', lambda w: ([miss(w)], None)
    yield LOC, 'jump', 'jump', 'target does not exist', lambda w: ([w.block('nb', present=False)], None)
    yield LOC, 'jump_with_args', 'jump_with_args', 'target does not exist', lambda w: ([w.block('nb', present=False), List([])], None)
    yield LOC, 'jump_with_args', 'jump_with_args', 'argument does not exist', lambda w: ([blk(w, 'bb', ['i32']), List([miss(w)])], None)
    yield LOC, 'branch', 'branch', 'condition does not exist', lambda w: ([miss(w), blk(w, 'bb1', []), blk(w, 'bb2', [])], None)
    yield LOC, 'branch', 'branch', 'true target does not exist', lambda w: ([val(w, 'c', ir.I32), w.block('nb', present=False), blk(w, 'bb2', [])], None)
    yield LOC, 'branch', 'branch', 'false target does not exist', lambda w: ([val(w, 'c', ir.I32), blk(w, 'bb2', []), w.block('nb', present=False)], None)
    yield LOC, 'call', 'call', 'callee does not exist', lambda w: ([w.func('nf', None, False), List([])], None)
    yield LOC, 'call', 'call', 'argument does not exist', lambda w: ([w.func('fn', ir.func([ir.I32], ir.I32)), List([miss(w)])], None)


def opt(ir, v, k='Return', n='value'):
    return ir.option(ir.kind_field_tid(k, n), v)


def ostr(ir, s):
    """Option<String>"""
    l = [i for i, t in enumerate(ir.u.types) if t and t['k'] == 'adt' and t['name'].endswith('option::Option') and t.get('args') and (ir.u.types[t['args'][0]] or {}).get('name', '').endswith('string::String')]
    return ir.option(l[0], None if s is None else Str(s) if isinstance(s, str) else s)


def pair(ir, s, t): return Tuple(ostr(ir, s), t)


def block_cases(ir):
    """(root, detail, args, expected name, params [(name, type)] | None)"""
    T = types(ir)
    lists = [[], ['i32'], ['unit'], ['*i32', 'i32'], ['unit', 'i32'], ['i32', 'unit'], ['[i32,3]', '*t', 'i32'], ['i32', 'i32', 'unit'], ['i32', 'unit', 'i32']]
    for L in lens(ir.u, [9]): lists += [(['i32', '*i32'] * L)[:L], ['i32'] * L + ['unit']] if L > 3 else []
    names = [(None, 1)] + NAMES
    for n, ok in names:
        yield 'block::basic_block', 'name %r' % (n,), [ostr(ir, n)], (n, []) if ok else None
    for l in lists:
        for n, ok in (names if l in ([], ['i32']) else names[:1] + names[9:10] + names[4:5]):
            good = ok and 'unit' not in l
            yield 'block::basic_block_with_params', 'name %r, parameter types %s' % (n, l), [ostr(ir, n), List([T[k] for k in l])], (n, [(None, T[k]) for k in l]) if good else None
            for pn in ([('%%p%d' % i) if i != 1 else None for i in range(len(l))], [('@q%d' % i) if i != 0 else None for i in range(len(l))]):
              yield 'block::basic_block_with_param_names', 'name %r, parameters %s' % (n, list(zip(pn, l))), [ostr(ir, n), List([pair(ir, x, T[k]) for x, k in zip(pn, l)])], (n, [(x, T[k]) for x, k in zip(pn, l)]) if good else None
    for n, ok in NAMES:
        yield 'block::basic_block_with_param_names', 'parameter named %r' % (n,), [ostr(ir, None), List([pair(ir, n, ir.I32)])], (None, [(n, ir.I32)]) if ok else None


def func_cases(ir):
    T = types(ir)
    lists = [[], ['i32'], ['unit'], ['*i32', 'i32'], ['unit', 'i32'], ['i32', 'unit'], ['[i32,3]', '*t', 'i32'], ['i32', 'i32', 'unit'], ['i32', 'unit', 'i32']]
    for L in lens(ir.u, [9]): lists += [(['i32', '*i32'] * L)[:L], ['i32'] * L + ['unit']] if L > 3 else []
    for l in lists:
        for n, ok in (NAMES if l in ([], ['i32']) else NAMES[8:9] + NAMES[4:5]):
            for rk in ('i32', 'unit', '*t'):
                good = ok and 'unit' not in l
                d = 'name %r, parameter types %s, result %s' % (n, l, rk)
                ps = [(None, T[k]) for k in l]
                fty = ir.func([T[k] for k in l], T[rk])
                yield 'program::func_data_new', d, [Str(n), List([T[k] for k in l]), T[rk]], (n, ps, fty) if good else None
                yield 'program::func_data_decl', d, [Str(n), List([T[k] for k in l]), T[rk]], (n, [], fty) if good else None
                for pn in ([('%%p%d' % i) if i != 1 else None for i in range(len(l))], [('@q%d' % i) if i != 0 else None for i in range(len(l))]):
                  yield 'program::func_data_named', d, [Str(n), List([pair(ir, x, T[k]) for x, k in zip(pn, l)]), T[rk]], (n, [(x, T[k]) for x, k in zip(pn, l)], fty) if good else None
    for n, ok in NAMES:
        yield 'program::func_data_named', 'parameter named %r' % n, [Str('@f'), List([pair(ir, n, ir.I32)]), ir.UNIT], ('@f', [(n, ir.I32)], ir.func([ir.I32], ir.UNIT)) if ok else None
