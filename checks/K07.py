"""K07: types are interned; equality is structural, hashes agree, predicates, text and size follow the constructor."""
from builders import *

RULES = {'intern': 'asking for a type yields the pooled object of its kind, or pools a fresh object of that kind and yields the very same object',
         'construct': 'each constructor asks for the kind it is named after, with its arguments; a zero-length array is refused, others are not',
         'eq': 'comparing two types is comparing the identity of the interned objects (or their kinds); inequality is its negation',
         'kind-eq': 'two kinds are equal exactly when they have the same constructor and equal parts', 'hash': 'the hash of a type or kind is fed from its kind only, and from nothing else',
         'predicate': 'predicates and the kind accessor agree with the constructor', 'size': 'the size of a type is 4, 0, the pointer size, or the product of element size and length',
         'text': 'the textual form is the one of the grammar', 'floor': 'number of analysed entry points'}


def run():
    c = Check('K07', 'Abstract interpretation of the MIR of every entry point of koopa::ir::types. The pool is a symbolic map, object creation (Rc::new) yields a fresh identity, so the lookup obligation is: same kind => same object. '
              'The remaining entry points are analysed on every type constructor with opaque parts (and for sizes on nested shapes).', RULES,
              ['Rc identity is allocation identity; RefCell and thread_local are transparent', 'HashMap/Hasher follow their contract given coherent Eq and Hash'])
    u = univ()
    ir = IR(u)
    n = 0

    def rcnew(e, st, args, C):
        st.n += 1
        return [Out(st, 'ret', App('rc', Int(st.n), e.canon(st, args[0])))]

    def same(e, st, args, C): return [Out(st, 'ret', Eq(e.canon(st, args[0]), e.canon(st, args[1])))]
    ID = {'std::rc::Rc::<T>::new': rcnew, 'std::rc::Rc::<T, A>::ptr_eq': same}

    def get(root, args, kind, refuse=False, cond=None):
        nonlocal n
        n += 1
        e = Eng(u, opaque=ID)
        outs = e.run(ir.fn(root), args)
        c.ran(e, outs)
        seen = set()
        for o in outs:
            site = o.st.eff[-1].site if o.st.eff else o.site
            det = show_out(e, o)
            if o.kind != 'ret':
                ok = refuse and cond is not None and e.canon(o.st, Eq(cond, Int(0))) is TRUE or e.decide(o.st, Eq(cond, Int(0))) is True
                c.ob('construct', root, ok, 'refused: ' + det, o.site)
                seen.add('panic')
                continue
            k = e.canon(o.st, kind)
            if cond is not None:
                c.ob('construct', root, e.decide(o.st, Eq(cond, Int(0))) is False, 'a zero length is accepted: ' + det, site)
            v = e.canon(o.st, o.val)
            if v.op == 'app' and v.a[0] == 'slot':
                c.ob('intern', root + ' (pooled)', v.a[2] is k, 'yields the object of another kind: ' + det, site)
                c.ob('intern', root + ' (pooled)', e.decide(o.st, has(v.a[1], k)) is True, 'yields an entry not known to exist: ' + det, site)
                c.ob('intern', root + ' (pooled)', not o.st.eff, 'changes the pool although the kind is pooled: ' + det, site)
                seen.add('hit')
            elif v.op == 'app' and v.a[0] == 'rc':
                ins = [f for f in o.st.eff if f.name == 'insert']
                c.ob('intern', root + ' (new)', v.a[2] is k, 'the new object denotes %s: %s' % (show(v.a[2]), det), site)
                c.ob('intern', root + ' (new)', len(o.st.eff) == 1 and len(ins) == 1 and e.canon(o.st, ins[0].args[1]) is k and e.canon(o.st, ins[0].args[2]) is v,
                     'the new object is not pooled once under its kind: ' + det, site)
                if ins:
                    was = [x for x, w in o.st.conds if not w and x is has(ins[0].args[0], k)]
                    c.ob('intern', root + ' (new)', bool(was), 'a new object is created although the kind may be pooled: ' + det, site)
                seen.add('new')
            else:
                c.ob('intern', root, False, 'yields neither the pooled nor a fresh object: ' + det, site)
        want = {'hit', 'new'} | ({'panic'} if refuse else set())
        c.ob('intern', root, seen == want, 'outcomes: %s, expected %s' % (sorted(seen), sorted(want)), outs[0].site if outs else None)

    t, r, k, nn = Sym('t'), Sym('r'), Sym('k'), Sym('n')
    guarded(c, 'intern', 'types::get', lambda: get('types::get', [k], k))
    guarded(c, 'construct', 'types::get_i32', lambda: get('types::get_i32', [], ir.I32))
    guarded(c, 'construct', 'types::get_unit', lambda: get('types::get_unit', [], ir.UNIT))
    guarded(c, 'construct', 'types::get_pointer', lambda: get('types::get_pointer', [t], ir.ptr(t)))
    guarded(c, 'construct', 'types::get_array', lambda: get('types::get_array', [t, nn], ir.arr(t, nn), True, nn))
    for base in (ir.I32, ir.UNIT, ir.ptr(t), ir.arr(t, nn), ir.func([t], r)):
        guarded(c, 'construct', 'types::get_array', lambda: get('types::get_array', [base, nn], ir.arr(base, nn), True, nn))
        guarded(c, 'construct', 'types::get_pointer', lambda: get('types::get_pointer', [base], ir.ptr(base)))
    for l in lens(u, (0, 1, 2), 'koopa::ir::types'):
        ps = [Sym('p%d' % i) for i in range(l)]
        guarded(c, 'construct', 'types::get_function', lambda: get('types::get_function', [List(ps), r], ir.func(ps, r)))
        guarded(c, 'construct', 'types::get_function', lambda: get('types::get_function', [List(ps), ir.UNIT], ir.func(ps, ir.UNIT)))

    shapes = lambda s: [('i32', ir.I32, []), ('unit', ir.UNIT, []), ('array', ir.arr(Sym(s + 't'), Sym(s + 'n')), [Sym(s + 't'), Sym(s + 'n')]), ('pointer', ir.ptr(Sym(s + 't')), [Sym(s + 't')])] + \
        [('function/%d' % l, ir.func([Sym(s + 'p%d' % i) for i in range(l)], Sym(s + 'r')), [Sym(s + 'p%d' % i) for i in range(l)] + [Sym(s + 'r')]) for l in (0, 1, 2, 3)]

    # equality of types, and of kinds
    def verdict(root, a, b, conds, rule, con, want, opq=None, detail=''):
        nonlocal n
        n += 1
        e = Eng(u, opaque=opq or {})
        st = St.new()
        for at, v in conds:
            assume(e, st, at, v)
        outs = e.run(ir.fn(root), [a, b], st)
        c.ran(e, outs)
        for o in outs:
            c.ob(rule, con, o.kind == 'ret' and e.decide(o.st, e.canon(o.st, o.val)) is want and not o.st.eff, '%s: expected %s, got %s' % (detail, want, show_out(e, o)), o.site)

    def eqs():
        a, b = Sym('a'), Sym('b')
        for eqv in (True, False):
            for root, w in (('types::eq', eqv), ('types::ne', not eqv)):
                verdict(root, a, b, [(Eq(a, b), eqv)], 'eq', root, w, ID, 'objects %s' % ('identical' if eqv else 'distinct'))
        verdict('types::eq', a, a, [], 'eq', 'types::eq', True, ID, 'an object and itself')
        for x, (nx, kx, px) in enumerate(shapes('a')):
            for y, (ny, ky, py) in enumerate(shapes('b')):
                # interned objects of these kinds: identical parts are one object
                if x != y:
                    for root, w in (('types::kind_eq', False), ('types::kind_ne', True), ('types::eq', False), ('types::ne', True)):
                        verdict(root, kx, ky, [], 'kind-eq', root, w, ID if root in ('types::eq', 'types::ne') else None, '%s against %s' % (nx, ny))
                    continue
                allq = [(Eq(p, q), True) for p, q in zip(px, py)]
                for root, w in (('types::kind_eq', True), ('types::kind_ne', False)):
                    verdict(root, kx, ky, allq, 'kind-eq', root, w, None, '%s with equal parts' % nx)
                for i in range(len(px)):
                    cs = [(Eq(p, q), j != i) for j, (p, q) in enumerate(zip(px, py))]
                    for root, w in (('types::kind_eq', False), ('types::kind_ne', True)):
                        verdict(root, kx, ky, cs, 'kind-eq', root, w, None, '%s differing in part %d' % (nx, i))
    guarded(c, 'eq', 'types::eq', eqs)

    # hash: only of the kind, without reading the pool, addresses or atomics
    def hashes():
        nonlocal n
        for root in ('types::hash', 'types::kind_hash'):
            for nm, kx, ps in shapes('a') + [('unknown', Sym('a'), [])]:
                n += 1
                e = Eng(u, opaque=ID)
                outs = e.run(ir.fn(root), [kx, Sym('h')])
                c.ran(e, outs)
                for o in outs:
                    c.ob('hash', root, o.kind == 'ret', '%s: %s' % (nm, show_out(e, o)), o.site)
                    for f in o.st.eff:
                        bad = f.name not in ('hash', 'push', 'set') or any(has_app(x, ('rc', 'tls', 'atomic', 'static', 'addr', 'ptr')) for x in f.args)
                        c.ob('hash', root, not bad, '%s: hashing depends on %r' % (nm, f), f.site)
                    deps = set()
                    for f in o.st.eff:
                        for x in f.args: syms(x, deps)
                    c.ob('hash', root, deps <= {'a', 'h', 'at', 'an', 'ar'} | {'ap%d' % i for i in range(4)}, '%s: hash depends on %s' % (nm, deps), o.site)

    def has_app(x, names):
        if not hasattr(x, 'op'): return False
        if x.op == 'app' and x.a[0] in names: return True
        return any(has_app(y, names) for y in x.a)

    def syms(x, acc):
        if not hasattr(x, 'op'): return
        if x.op == 'sym': acc.add(x.a[0])
        for y in x.a: syms(y, acc)
    guarded(c, 'hash', 'types::hash', hashes)

    def preds():
        nonlocal n
        for nm, kx, ps in shapes('a'):
            for root, w in (('types::is_i32', Bool(nm == 'i32')), ('types::is_unit', Bool(nm == 'unit')), ('types::kind', kx), ('types::clone', kx)):
                n += 1
                e = Eng(u)
                outs = e.run(ir.fn(root), [kx])
                c.ran(e, outs)
                for o in outs:
                    c.ob('predicate', root, o.kind == 'ret' and e.canon(o.st, o.val) is w and not o.st.eff, '%s: expected %s, got %s' % (nm, show(w), show_out(e, o)), o.site)
    guarded(c, 'predicate', 'types::is_*', preds)

    def sizes():
        nonlocal n
        e = Eng(u)
        outs = e.run(ir.fn('types::size'), [ir.ptr(Sym('t'))])
        ps = {e.canon(o.st, o.val) for o in outs if o.kind == 'ret'}
        c.ob('size', 'pointer size', len(ps) == 1 and len(outs) == 1, 'several pointer sizes: %s' % [show(x) for x in ps], outs[0].site)
        P = ps.pop()
        c.ob('size', 'pointer size', P.op == 'app' and P.a[0] == 'atomic', 'the size of a pointer is %s, not the configured one' % show(P), outs[0].site)
        outs = e.run(ir.fn('types::set_ptr_size'), [Sym('n')])
        c.ran(e, outs)
        for o in outs:
            ok = o.kind == 'ret' and len(o.st.eff) == 1 and o.st.eff[0].name == 'atomic_store' and o.st.eff[0].args[0] is P.a[1] and e.canon(o.st, o.st.eff[0].args[1]) is Sym('n')
            c.ob('size', 'types::set_ptr_size', ok, 'sets something else: ' + show_out(e, o), o.site)

        def spec(t):
            if t is ir.I32: return Int(4)
            if t is ir.UNIT: return Int(0)
            d = dict(zip(('t', 'n'), t.a[2:]))
            if t.a[1] == ir.arr(Sym('x'), 1).a[1]:
                s = spec(d['t'])
                return e.binop('Mul', s, d['n'])
            return P
        A = ir.arr
        cases = [ir.I32, ir.UNIT, ir.ptr(ir.I32), ir.ptr(A(ir.I32, 7)), ir.func([ir.I32], ir.I32), ir.func([], ir.UNIT), A(ir.I32, 1), A(ir.I32, 5), A(ir.UNIT, 9), A(ir.ptr(Sym('t')), 3), A(A(ir.I32, 2), 3), A(A(ir.ptr(ir.I32), 4), 5),
                 A(A(A(ir.I32, 2), 3), 4), A(A(A(ir.ptr(Sym('t')), 2), 3), 4), A(ir.func([Sym('a')], Sym('b')), 6), A(ir.I32, Sym('n')), A(A(ir.I32, Sym('n')), 3)]
        for t in cases:
            n += 1
            e2 = Eng(u)
            e2.max_rec = 6
            outs = e2.run(ir.fn('types::size'), [t])
            c.ran(e2, outs)
            w = spec(t)
            rets = [o for o in outs if o.kind == 'ret']
            c.ob('size', 'types::size', bool(rets) and all(e2.canon(o.st, o.val) is w for o in rets), '%s: expected %s, got %s' % (show(t), show(w), [show_out(e2, o) for o in outs]), outs[0].site if outs else None)
            for o in outs:
                c.ob('size', 'types::size', not o.st.eff and (o.kind == 'ret' or 'overflow' in show(o.val)), '%s: %s' % (show(t), show_out(e2, o)), o.site)
    guarded(c, 'size', 'types::size', sizes)

    def texts():
        nonlocal n
        disp = lambda x: mk('disp', x)

        def flat(parts):
            out = []
            for p in parts:
                if p.op == 'fmt':
                    out += flat(p.a)
                elif p.op == 'disp' and p.a[0].op in ('str', 'int', 'char'):
                    x = p.a[0]
                    out.append(Str(chr(x.a[0]) if x.op == 'char' else str(x.a[0])))
                elif p.op == 'char':
                    out.append(Str(chr(p.a[0])))
                elif p.op == 'disp' and p.a[0].op == 'adt' and p.a[0] in KNOWN:
                    out += flat(KNOWN[p.a[0]])
                else:
                    out.append(p)
            res = []
            for p in out:
                if p.op == 'str' and p.a[0] == '': continue
                if res and p.op == 'str' and res[-1].op == 'str': res[-1] = Str(res[-1].a[0] + p.a[0])
                else: res.append(p)
            return res
        a = Sym('t')
        specs = [(ir.I32, [Str('i32')]), (ir.UNIT, [Str('unit')]), (ir.arr(a, Sym('n')), [Str('['), disp(a), Str(', '), disp(Sym('n')), Str(']')]), (ir.ptr(a), [Str('*'), disp(a)])]
        for l in lens(u, (0, 1, 2, 3), 'koopa::ir::types'):
            ps = [Sym('p%d' % i) for i in range(l)]
            inner = []
            for i, p in enumerate(ps):
                inner += ([Str(', ')] if i else []) + [disp(p)]
            for rt in (ir.UNIT, ir.I32, ir.ptr(a), ir.arr(a, Sym('n')), ir.func([], ir.UNIT)):
                specs.append((ir.func(ps, rt), [Str('(')] + inner + ([Str(')')] if rt is ir.UNIT else [Str('): '), disp(rt)])))
        KNOWN = dict(specs)
        for kx, w in specs:
            for root in ('types::kind_fmt', 'types::fmt'):
                n += 1
                e = Eng(u)
                outs = e.run(ir.fn(root), [kx, Sym('f')])
                c.ran(e, outs)
                good = 0
                for o in outs:
                    v = e.canon(o.st, o.val)
                    fails = [f for f in o.st.eff if f.name == 'iofail']
                    if fails:
                        c.ob('text', root, o.kind == 'ret' and v.op == 'adt' and v.a[1] == 1, 'a failing writer is ignored: ' + show_out(e, o), o.site)
                        continue
                    ok = o.kind == 'ret' and v.op == 'adt' and v.a[1] == 0
                    got = flat([f.args[1] for f in o.st.eff if f.name == 'out' and e.canon(o.st, f.args[0]) is Sym('f')])
                    good += 1
                    c.ob('text', root, ok and got == flat(w), '%s is written as %s, expected %s (%s)' % (show(kx), [show(x) for x in got], [show(x) for x in flat(w)], show_out(e, o) if not ok else ''), o.st.eff[0].site if o.st.eff else o.site)
                c.ob('text', root, good >= 1, '%s: no successful outcome' % show(kx))
    guarded(c, 'text', 'types::fmt', texts)
    c.floor('entry points and shapes', n, 200)
    return c


main(run)
