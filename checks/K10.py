"""K10: program tables register each function and global once, in creation order, and connect functions to the program."""
from builders import *
from K01 import build, stored

RULES = {'register': 'the new entity is inserted once, under its own handle, in each table of its sort and nowhere else', 'order': 'the program order is the old one followed by the new entity (functions, global allocations) or unchanged (other globals)',
         'type': 'the type recorded for checking calls is the type of the function', 'connect': 'the data flow graph of a registered function refers to the tables of the program it is registered in',
         'content': 'the registered function keeps its name, type, parameters, values, blocks and layout', 'query': 'lookups return the entry of the given handle, or panic if it is absent; listings return the tables themselves',
         'empty': 'a new program has no functions and no values', 'floor': 'number of entry points analysed'}


def run():
    c = Check('K10', 'Abstract interpretation of the MIR of every entry point that creates, registers or looks up functions and global values of a program, from symbolic tables and program orders of '
              'several lengths; net effects on the four tables and orders are compared with the registration contract.', RULES,
              ['Type::get is the identity on type kinds (K07)', 'Rc/Weak/RefCell are transparent', 'models of std (engine/models.py)'])
    u = univ()
    ir = IR(u)
    T = types(ir)
    n = 0

    def fget(e, o, d, *names):
        for x in names:
            d = e.canon(o.st, d)
            d = e.canon(o.st, (e._adt_field(d, x) if d.op == 'adt' else None) or Fld(d, x))
        return d
    FD = 'koopa::ir::FunctionData'
    DFG = 'koopa::ir::dfg::DataFlowGraph'
    f_dfg = ir.path('data::func_dfg')[0]
    p_glob = ir.field_by_type(DFG, 'ValueData', 'RefCell')
    p_fty = ir.field_by_type(DFG, 'ir::Function, koopa::ir::Type')

    def world(e, l=2):
        g = Global(ir, e)
        fs = [Sym('f%d' % i) for i in range(l)]
        vs = [Sym('v%d' % i) for i in range(l)]
        put(g.st, g.func_layout, List(fs))
        put(g.st, g.inst_layout, List(vs))
        return g, fs, vs

    def func(root, args, detail, want):
        """want: dict of accessor path name -> term (fields of the registered data)"""
        nonlocal n
        for l in (0, 1, 2, 9):
            n += 1
            e = Eng(u, opaque=TYPE_GET)
            g, fs, vs = world(e, l)
            outs = e.run(ir.fn(root), [g.p] + args, g.st)
            c.ran(e, outs)
            con = root
            c.ob('register', con, len(outs) == 1 and outs[0].kind == 'ret', '%s: %s' % (detail, '\n'.join(show_out(e, o) for o in outs[:3])), outs[0].site if outs else None)
            for o in outs:
                if o.kind != 'ret': continue
                f = e.canon(o.st, o.val)
                site = o.st.eff[-1].site if o.st.eff else o.site
                for tab, what in ((g.funcs, 'function table'), (g.func_tys, 'function type table')):
                    k = sum(1 for x in o.st.eff if x.args and x.args[0] is tab)
                    c.ob('register', '%s: %s' % (con, what), net(o.st.eff, tab) == {f: 'in'} and k == 1, '%s: effects on the %s: %s' % (detail, what, {show(a): b for a, b in net(o.st.eff, tab).items()}), site)
                c.ob('register', con + ': globals', not net(o.st.eff, g.values) and e.canon(o.st, g.inst_layout) is List(vs), '%s: the globals of the program change' % detail, site)
                lay = e.canon(o.st, g.func_layout)
                c.ob('order', con, lay is List(fs + [f]), '%s: program order %s -> %s' % (detail, [show(x) for x in fs], show(lay)), site)
                fd, ty = stored(o.st.eff, g.funcs).get(f), stored(o.st.eff, g.func_tys).get(f)
                c.ob('type', con, ty is not None and e.canon(o.st, ty) is e.canon(o.st, want['func_ty']), '%s: recorded type %s' % (detail, show(ty) if ty is not None else None), site)
                if fd is None: continue
                for acc, w in want.items():
                    got = fget(e, o, fd, *ir.path('data::' + acc))
                    c.ob('content', '%s: %s' % (con, acc), got is e.canon(o.st, w), '%s: %s is %s, expected %s' % (detail, acc, show(got), show(w)), site)
                gl, ft = e.strip(fget(e, o, fd, f_dfg, p_glob)), e.strip(fget(e, o, fd, f_dfg, p_fty))
                c.ob('connect', con + ': global values', gl is g.values, '%s: the function looks up global values in %s' % (detail, show(gl)), site)
                c.ob('connect', con + ': function types', ft is g.func_tys, '%s: the function looks up callee types in %s' % (detail, show(ft)), site)
                c.sample('%s %s -> order %s' % (con, detail, show(lay)))

    def raw():
        d = Sym('d')
        acc = {a: ir.at(d, 'data::' + a) for a in ('func_ty', 'func_name', 'func_params', 'func_layout')}
        dfg = Fld(d, f_dfg)
        acc['func_dfg+values'] = None
        want = {k: v for k, v in acc.items() if v is not None}
        func('program::new_func', [d], 'given function data', want)
        # values and blocks are kept
        e = Eng(u, opaque=TYPE_GET)
        g, fs, vs = world(e)
        for o in e.run(ir.fn('program::new_func'), [g.p, d], g.st):
            for x in stored(o.st.eff, g.funcs).values():
                for a in ('dfg_values', 'dfg_bbs'):
                    p = ir.path('data::' + a)[0]
                    got = fget(e, o, x, f_dfg, p)
                    c.ob('content', 'program::new_func: ' + a, got is Fld(dfg, p), 'becomes %s' % show(got), o.site)
    guarded(c, 'register', 'program::new_func', raw)
    for ps in ([], ['i32'], ['*i32', 'i32']):
        for rk in ('i32', 'unit'):
            ty = ir.func([T[k] for k in ps], T[rk])
            d = 'parameter types %s, result %s' % (ps, rk)
            want = {'func_ty': ty, 'func_name': Str('@f')}
            guarded(c, 'register', 'program::new_func_def', lambda: func('program::new_func_def', [Str('@f'), List([T[k] for k in ps]), T[rk]], d, want))
            guarded(c, 'register', 'program::new_func_decl', lambda: func('program::new_func_decl', [Str('@f'), List([T[k] for k in ps]), T[rk]], d, dict(want, func_params=List([]))))
            guarded(c, 'register', 'program::new_func_def_with_param_names', lambda: func('program::new_func_def_with_param_names', [Str('@f'), List([pair(ir, None, T[k]) for k in ps]), T[rk]], d, want))

    # ---- globals: every kind through raw, every builder method
    def glob(root, mk_args, detail, is_alloc):
        nonlocal n
        for l in (0, 1, 2, 9):
            n += 1
            e = Eng(u, opaque=TYPE_GET)
            g, fs, vs = world(e, l)
            outs = e.run(ir.fn(root), [g.p] + mk_args(g), g.st)
            c.ran(e, outs)
            c.ob('register', root, len(outs) == 1 and outs[0].kind == 'ret', '%s: %s' % (detail, '\n'.join(show_out(e, o) for o in outs[:3])), outs[0].site if outs else None)
            for o in outs:
                if o.kind != 'ret': continue
                v = e.canon(o.st, o.val)
                site = o.st.eff[-1].site if o.st.eff else o.site
                k = sum(1 for x in o.st.eff if x.args and x.args[0] is g.values)
                c.ob('register', '%s: value table' % root, net(o.st.eff, g.values) == {v: 'in'} and k == 1, '%s: %s' % (detail, {show(a): b for a, b in net(o.st.eff, g.values).items()}), site)
                c.ob('register', '%s: functions' % root, not net(o.st.eff, g.funcs) and not net(o.st.eff, g.func_tys) and e.canon(o.st, g.func_layout) is List(fs), '%s: the functions change' % detail, site)
                lay = e.canon(o.st, g.inst_layout)
                c.ob('order', root, lay is List(vs + ([v] if is_alloc else [])), '%s: program order of globals %s -> %s' % (detail, [show(x) for x in vs], show(lay)), site)
    for k in KINDS:
        def mk(g, k=k):
            xs = [g.value('g%d' % i) for i in range(5)]
            return [ir.vdata(Sym('ty'), build(ir, k, xs, [])[0])]
        if k not in ('Branch', 'Jump'):
            guarded(c, 'register', 'global::raw', lambda: glob('global::raw', mk, 'value of kind %s' % k, k == 'GlobalAlloc'))
    guarded(c, 'register', 'global::integer', lambda: glob('global::integer', lambda g: [Sym('n')], 'any number', False))
    guarded(c, 'register', 'global::zero_init', lambda: glob('global::zero_init', lambda g: [T['i32']], 'i32', False))
    guarded(c, 'register', 'global::undef', lambda: glob('global::undef', lambda g: [T['*i32']], '*i32', False))
    guarded(c, 'register', 'global::aggregate', lambda: glob('global::aggregate', lambda g: [List([g.value('a', ty=ir.I32, kind=ir.kind('Integer')), g.value('b', ty=ir.I32, kind=ir.kind('Integer'))])], 'two integers', False))
    for kn in KINDS:
        guarded(c, 'register', 'global::global_alloc', lambda: glob('global::global_alloc', lambda g: [g.value('a', ty=ir.I32, kind=ir.kind(kn))], 'initialised by %s' % kn, True))

    # ---- lookups
    def look(root, tab, par, what):
        nonlocal n
        for present in (True, False):
            n += 1
            e = Eng(u)
            g, fs, vs = world(e)
            x = Sym('x')
            m = getattr(g, tab)
            assume(e, g.st, has(m, x), present)
            outs = e.run(ir.fn(root), [g.p, x], g.st)
            c.ran(e, outs)
            if present:
                ok = len(outs) == 1 and outs[0].kind == 'ret' and e.canon(outs[0].st, outs[0].val) is slot(m, x)
            else:
                ok = bool(outs) and all(o.kind == 'panic' for o in outs)
            c.ob('query', root, ok, '%s %s: %s' % ('present' if present else 'absent', what, '\n'.join(show_out(e, o) for o in outs[:3])), outs[0].site if outs else None)
            c.ob('query', root, not any(o.st.eff for o in outs), 'the lookup changes something', outs[0].site if outs else None)
    for root, tab, what in (('program::func', 'funcs', 'function'), ('program::func_mut', 'funcs', 'function'), ('program::borrow_value', 'values', 'global value')):
        guarded(c, 'query', root, lambda: look(root, tab, None, what))

    def lists():
        nonlocal n
        for root, tab in (('program::func_layout', 'func_layout'), ('program::inst_layout', 'inst_layout'), ('program::funcs', 'funcs')):
            n += 1
            e = Eng(u)
            g, fs, vs = world(e)
            outs = e.run(ir.fn(root), [g.p], g.st)
            c.ran(e, outs)
            want = {'func_layout': List(fs), 'inst_layout': List(vs)}.get(tab, getattr(g, tab))
            c.ob('query', root, len(outs) == 1 and outs[0].kind == 'ret' and e.canon(outs[0].st, outs[0].val) is want, '\n'.join(show_out(e, o) for o in outs[:3]), outs[0].site if outs else None)
    guarded(c, 'query', 'listings', lists)

    def names():
        nonlocal n
        n += 1
        e = Eng(u)
        g, fs, vs = world(e)
        a, b = g.value('a'), g.value('b')
        outs = e.run(ir.fn('program::set_value_name'), [g.p, a, ostr(ir, '@n')], g.st)
        c.ran(e, outs)
        for o in outs:
            if o.kind != 'ret': c.ob('content', 'program::set_value_name', False, show_out(e, o), o.site); continue
            nm = [fget(e, o, slot(g.values, x), ir.path('data::name')[0]) for x in (a, b)]
            was = Fld(Sym('data_b'), ir.path('data::name')[0])
            c.ob('content', 'program::set_value_name', nm[0] is e.canon(o.st, ostr(ir, '@n')) and nm[1] is was, 'names become %s' % [show(x) for x in nm], o.site)
    guarded(c, 'content', 'program::set_value_name', names)

    def fresh():
        nonlocal n
        n += 1
        e = Eng(u)
        outs = e.run(ir.fn('program::new'), [])
        c.ran(e, outs)
        for o in outs:
            v = e.canon(o.st, o.val)
            ok = o.kind == 'ret' and v.op == 'adt' and all(x in (List([]), App('emptymap')) for x in v.a[2:])
            c.ob('empty', 'program::new', ok, show_out(e, o), o.site)
        c.ob('empty', 'program::new', len(outs) == 1, '%d outcomes' % len(outs))
    guarded(c, 'empty', 'program::new', fresh)
    c.floor('entry point situations analysed', n, 180)
    return c


if __name__ == '__main__':
    main(run)
