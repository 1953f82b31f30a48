"""K05: what a builder creates: kind, operands by role, type, name, users; parameters numbered in order."""
from builders import *

RULES = {'kind': 'the stored data has the kind of the method called', 'role': 'each operand is stored in the field its accessor reads',
         'type': 'the stored type is the one the instruction defines', 'name': 'new values are unnamed, parameters carry the given names',
         'users': 'a new value has no users; a replaced value keeps its own', 'once': 'exactly one value is stored under the returned handle',
         'params': 'parameters are numbered 0.. in the given order with the given types', 'floor': 'number of cases analysed'}


def inserted(e, o, table):
    return [x for x in o.st.eff if x.name == 'insert' and x.args[0] is table]


def norm(e, st, t):
    return e.canon(st, t)


def run():
    c = Check('K05', 'Abstract interpretation of the MIR of every builder method for each legal combination of operand shapes (the enumeration of K04); the value data inserted '
              'on the accepting path is read field by field through the public accessors and compared with the operand and type table of the instruction.', RULES,
              ['Type::get is the identity on type kinds (K07)', 'models of std (engine/models.py)'])
    u = univ()
    ir = IR(u)
    NAME, UB = ir.path('data::name')[0], ir.path('data::used_by')[0]
    n = 0
    for ctxs, method, con0, detail, make in value_cases(ir):
        for ctx in ctxs:
            con = '%s %s' % (ctx, con0)
            def one():
                nonlocal n
                e = Eng(u)
                _, w0 = None, (Global if ctx == 'global' else Local)(ir, e)
                if make(w0)[1] is None: return
                n += 1
                e, w, outs, expect, args = run_case(u, ir, ctx, method, make)
                c.ran(e, outs)
                kn, ops, ty = expect
                rets = [o for o in outs if o.kind == 'ret']
                c.ob('once', con, len(rets) == 1 == len(outs), '%s: %d outcomes' % (detail, len(outs)))
                for o in rets:
                    v = e.canon(o.st, o.val)
                    ins = inserted(e, o, w.values)
                    site = ins[-1].site if ins else o.site
                    if ctx == 'replace': c.ob('once', con, v is Sym('v'), '%s: returns %s instead of the replaced handle' % (detail, show(v)), site)
                    if len(ins) != 1 or ins[0].args[1] is not v:
                        c.ob('once', con, False, '%s: inserted %s, returned %s' % (detail, ins, show(v)), site)
                        continue
                    d = ins[0].args[2]
                    if d.op != 'adt':
                        c.ob('kind', con, False, '%s: stored data %s' % (detail, show(d)), site)
                        continue
                    k = e.canon(o.st, ir.vget(d, 'kind'))
                    gk = ir.variants('koopa::ir::ValueKind')[k.a[1]] if k.op == 'adt' else None
                    c.ob('kind', con, gk == kn, '%s: kind %s, expected %s' % (detail, gk or show(k), kn), site)
                    if gk == kn:
                        for f, want in ops.items():
                            got = e.canon(o.st, ir.kind_get(k, kn, f))
                            c.ob('role', '%s: %s' % (con, f), got is e.canon(o.st, want), '%s: %s is %s, expected %s' % (detail, f, show(got), show(want)), site)
                    t = e.canon(o.st, ir.vget(d, 'ty'))
                    c.ob('type', con, t is e.canon(o.st, ty), '%s: type %s, expected %s' % (detail, show(t), show(ty)), site)
                    nm = e.canon(o.st, ir.vget(d, 'name'))
                    c.ob('name', con, nm.op == 'adt' and nm.a[1] == 0, '%s: name %s' % (detail, show(nm)), site)
                    ub = e.canon(o.st, ir.vget(d, 'used_by'))
                    want = Sym('own_users') if ctx == 'replace' else App('emptyset')
                    c.sample('%s %s -> %s' % (con, detail, show(d)))
                    c.ob('users', con, ub is want or (ctx != 'replace' and show(ub) in ('[]', 'emptyset()')), '%s: users %s' % (detail, show(ub)), site)
            guarded(c, 'once', con, one)

    def params(c, con, detail, e, o, data, table, plist, kind, want, site):
        """data: inserted value data by handle; later in-place changes live in the slot of the table"""
        pl = e.canon(o.st, plist)
        if pl.op != 'list':
            c.ob('params', con, False, '%s: parameter list %s' % (detail, show(pl)), site)
            return
        c.ob('params', con, len(pl.a) == len(want), '%s: %d parameters, expected %d' % (detail, len(pl.a), len(want)), site)
        c.ob('params', con, len(set(pl.a)) == len(pl.a), '%s: parameters share a handle: %s' % (detail, show(pl)), site)
        c.ob('params', con, set(data) == set(pl.a), '%s: values inserted: %s' % (detail, [show(x) for x in data]), site)
        for i, (v, (nm, ty)) in enumerate(zip(pl.a, want)):
            d = o.st.store.get(mk('obj', slot(e.strip(table), v))) or data.get(v)
            if d is None or d.op != 'adt':
                c.ob('params', con, False, '%s: parameter %d has no data' % (detail, i), site)
                continue
            k = e.canon(o.st, ir.vget(d, 'kind'))
            gk = ir.variants('koopa::ir::ValueKind')[k.a[1]] if k.op == 'adt' else None
            c.ob('params', con, gk == kind and e.canon(o.st, ir.kind_get(k, kind, 'index')) is Int(i), '%s: parameter %d is %s' % (detail, i, show(k)), site)
            t = e.canon(o.st, ir.vget(d, 'ty'))
            c.ob('params', con, t is e.canon(o.st, ty), '%s: parameter %d has type %s, expected %s' % (detail, i, show(t), show(ty)), site)
            got = e.canon(o.st, ir.vget(d, 'name'))
            c.ob('name', con, got is e.canon(o.st, ostr(ir, nm)), '%s: parameter %d has name %s, expected %s' % (detail, i, show(got), nm), site)
            c.ob('users', con, show(e.canon(o.st, ir.vget(d, 'used_by'))) == 'emptyset()', '%s: parameter %d starts with users' % (detail, i), site)

    for root, detail, args, expect in block_cases(ir):
        if expect is None: continue
        def blk():
            nonlocal n
            n += 1
            e = Eng(u, opaque=TYPE_GET)
            w = Local(ir, e)
            outs = e.run(ir.fn(root), [w.d] + args, w.st)
            c.ran(e, outs)
            c.ob('once', root, len(outs) == 1 and outs[0].kind == 'ret', '%s: %s' % (detail, '\n'.join(show_out(e, o) for o in outs[:3])))
            for o in outs:
                if o.kind != 'ret': continue
                b = e.canon(o.st, o.val)
                ins = inserted(e, o, w.bbs)
                site = ins[-1].site if ins else o.site
                ok = len(ins) == 1 and ins[0].args[1] is b and ins[0].args[2].op == 'adt'
                c.ob('once', root, ok, '%s: inserted %s, returned %s' % (detail, ins, show(b)), site)
                if not ok: continue
                d = ins[0].args[2]
                get = lambda acc: e.canon(o.st, e._adt_field(d, ir.path(acc)[0]))
                c.ob('name', root, get('data::bb_name') is e.canon(o.st, ostr(ir, expect[0])), '%s: block name %s' % (detail, show(get('data::bb_name'))), site)
                c.ob('users', root, show(get('data::bb_used_by')) == 'emptyset()', '%s: users %s' % (detail, show(get('data::bb_used_by'))), site)
                params(c, root, detail, e, o, {x.args[1]: x.args[2] for x in inserted(e, o, w.values)}, w.values, get('data::bb_params'), 'BlockArgRef', expect[1], site)
        guarded(c, 'once', root, blk)
    for root, detail, args, expect in func_cases(ir):
        if expect is None: continue
        def fn():
            nonlocal n
            n += 1
            e = Eng(u, opaque=TYPE_GET)
            outs = e.run(ir.fn(root), args)
            c.ran(e, outs)
            c.ob('once', root, len(outs) == 1 and outs[0].kind == 'ret', '%s: %s' % (detail, '\n'.join(show_out(e, o) for o in outs[:3])))
            for o in outs:
                if o.kind != 'ret': continue
                d = o.val
                site = o.st.eff[-1].site if o.st.eff else o.site
                get = lambda acc: e.canon(o.st, e._adt_field(d, ir.path(acc)[0]))
                c.ob('name', root, get('data::func_name') is Str(expect[0]), '%s: function name %s' % (detail, show(get('data::func_name'))), site)
                c.ob('type', root, get('data::func_ty') is e.canon(o.st, expect[2]), '%s: type %s, expected %s' % (detail, show(get('data::func_ty')), show(expect[2])), site)
                g = e._adt_field(d, ir.path('data::func_dfg')[0])
                table = e._adt_field(g, ir.path('data::dfg_values')[0])
                data, t = {}, table
                while t.op == 'app' and t.a[0] == 'mut:insert':
                    data.setdefault(t.a[2], t.a[3])
                    t = t.a[1]
                c.ob('once', root, t is App('emptymap'), '%s: value table %s' % (detail, show(table)), site)
                params(c, root, detail, e, o, data, table, get('data::func_params'), 'FuncArgRef', expect[1], site)
        guarded(c, 'once', root, fn)

    c.floor('legal builder calls analysed', n, 700)
    return c


if __name__ == '__main__':
    main(run)
