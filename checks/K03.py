"""K03: removal is refused while in use, and removes the entity from every table."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from chk import *
from K01 import build

RULES = {'refuse': 'removing an entity with users (or one that does not exist) panics on every path',
         'delete': 'removing an unused entity succeeds, returns its data and deletes exactly it (and the parameters of a block) from the tables',
         'unlink': 'the removed value is dropped from the users of each of its operands',
         'order': 'the entry disappears from the program-level order, the others keep their order',
         'unknown': 'removing an unknown function returns None and changes nothing'}


def net(effs, table, key=None):
    """net removals/insertions on a map: {key: 'in'|'out'}"""
    r = {}
    for x in effs:
        if x.args and x.args[0] is table:
            if x.name in ('insert', 'push'): r[x.args[1]] = 'in'
            elif x.name in ('remove', 'remove_entry', 'take'): r[x.args[1]] = 'out'
            else: r[Sym('!' + x.name)] = 'other'
    return r


def run():
    c = Check('K03', 'Abstract interpretation of the MIR of every removal operation (values of a function, global values, basic blocks, functions), once per '
              'kind of value and per situation (missing, in use, unused; block parameters in use; position in the program order); outcomes, and net effects on '
              'the tables, orders and use lists are compared with the rules.', RULES,
              ['models of std collections (engine/models.py)', 'the state after a refused (panicking) removal is not judged'])
    u = univ()
    ir = IR(u)
    n = 0
    names = [('l0', 'local'), ('g0', 'global'), ('l1', 'local'), ('l2', 'local'), ('g1', 'global'), ('l3', 'local')]

    def only_panics(outs): return bool(outs) and all(o.kind == 'panic' for o in outs)

    def used(e, st, name):
        s = Sym(name)
        assume(e, st, Eq(App('len', s), Int(0)), False)
        return s

    def show_all(e, outs): return '\n'.join(show_out(e, o) for o in outs[:4])

    # ---- values of a function
    for k in KINDS:
        for sit in ('unused', 'used', 'used1', 'unknown users'):
            con = 'remove_value (function), %s, %s' % (k, sit)
            def loc():
                e = Eng(u)
                w = Local(ir, e)
                vs = [w.value(a, b) for a, b in names]
                bs = [w.block('b%d' % i) for i in range(3)]
                v = Sym('v')
                kind, vo, bo = build(ir, k, vs, bs)
                ub = {'unused': App('emptyset'), 'used1': App('mut:insert', App('emptyset'), vs[0]), 'unknown users': Sym('ub')}.get(sit)
                if ub is None: ub = used(e, w.st, 'ub')
                w.value(v, 'local', kind=kind, used_by=ub)
                outs = e.run(ir.fn('dfg::remove_value'), [w.d, v], w.st)
                c.ran(e, outs)
                if sit.startswith('used'):
                    c.ob('refuse', con, only_panics(outs), 'not refused: ' + show_all(e, outs))
                    return
                rets = [o for o in outs if o.kind == 'ret']
                if sit == 'unused': c.ob('delete', con, len(outs) == 1 and len(rets) == 1, show_all(e, outs))
                else:
                    c.ob('delete', con, len(rets) >= 1, show_all(e, outs))
                    for o in rets:
                        c.ob('refuse', con, e.decide(o.st, Eq(App('len', ub), Int(0))) is True, 'returns although the use list was not found empty: ' + show_out(e, o))
                for o in rets:
                    t = net(o.st.eff, w.values)
                    c.ob('delete', con, t == {v: 'out'}, 'effect on the value table: %s' % {show(a): b for a, b in t.items()})
                    c.ob('delete', con, not net(o.st.eff, w.bbs) and not net(o.st.eff, w.globals), 'touches other tables: %s' % (o.st.eff,))
                    d = e.canon(o.st, o.val)
                    c.ob('delete', con, d.op == 'adt' and ir.vget(d, 'kind') is e.canon(o.st, kind) and ir.vget(d, 'ty') is Sym('ty_v'), 'returns %s' % show(d))
                    for x in set(vo):
                        c.ob('unlink', con, membership(o.st.eff, w.users(x), v) == 'out', 'still recorded as a user of operand %s' % show(x))
                    for x in set(bo):
                        c.ob('unlink', con, membership(o.st.eff, w.bb_users(x), v) == 'out', 'still recorded as a user of block %s' % show(x))
            guarded(c, 'delete', con, loc)
            n += 1
    for where in ('missing', 'global'):
        con = 'remove_value (function), %s value' % where
        def mis():
            e = Eng(u)
            w = Local(ir, e)
            w.value('v', where)
            outs = e.run(ir.fn('dfg::remove_value'), [w.d, Sym('v')], w.st)
            c.ran(e, outs)
            c.ob('refuse', con, only_panics(outs), show_all(e, outs))
        guarded(c, 'refuse', con, mis)
        n += 1

    # ---- global values
    for k in KINDS:
        if k in ('Branch', 'Jump'): continue
        for sit in ('unused', 'used', 'unknown users'):
            for pos in range(3) if k == 'GlobalAlloc' else (0,):
                con = 'remove_value (program), %s, %s' % (k, sit)
                def glo():
                    e = Eng(u)
                    g = Global(ir, e)
                    vs = [g.value('g%d' % i) for i in range(5)]
                    kind, vo, bo = build(ir, k, vs, [])
                    ub = {'unused': App('emptyset'), 'unknown users': Sym('ub')}.get(sit)
                    if ub is None: ub = used(e, g.st, 'ub')
                    v = g.value('v', kind=kind, used_by=ub)
                    order = [Sym('g8'), Sym('g9')]
                    for x in order: distinct(e, g.st, x, g.known)
                    lay = order[:pos] + [v] + order[pos:] if k == 'GlobalAlloc' else order
                    put(g.st, g.inst_layout, List(lay))
                    outs = e.run(ir.fn('program::remove_value'), [g.p, v], g.st)
                    c.ran(e, outs)
                    if sit == 'used':
                        c.ob('refuse', con, only_panics(outs), 'not refused: ' + show_all(e, outs))
                        return
                    rets = [o for o in outs if o.kind == 'ret']
                    c.ob('delete', con, len(rets) >= 1 and (sit != 'unused' or len(outs) == 1), show_all(e, outs))
                    for o in rets:
                        if sit != 'unused':
                            c.ob('refuse', con, e.decide(o.st, Eq(App('len', ub), Int(0))) is True, 'returns although the use list was not found empty: ' + show_out(e, o))
                        t = net(o.st.eff, g.values)
                        c.ob('delete', con, t == {v: 'out'}, 'effect on the value table: %s' % {show(a): b for a, b in t.items()})
                        d = e.canon(o.st, o.val)
                        c.ob('delete', con, d.op == 'adt' and ir.vget(d, 'kind') is e.canon(o.st, kind), 'returns %s' % show(d))
                        for x in set(vo):
                            c.ob('unlink', con, membership(o.st.eff, g.users(x), v) == 'out', 'still recorded as a user of %s' % show(x))
                        l = e.canon(o.st, g.inst_layout)
                        c.ob('order', con, l is List(order), 'program order of globals becomes %s, was %s' % (show(l), [show(x) for x in lay]))
                guarded(c, 'delete', con, glo)
                n += 1
    def gmis():
        e = Eng(u)
        g = Global(ir, e)
        g.value('v', present=False)
        outs = e.run(ir.fn('program::remove_value'), [g.p, Sym('v')], g.st)
        c.ran(e, outs)
        c.ob('refuse', 'remove_value (program), missing value', only_panics(outs), show_all(e, outs))
    guarded(c, 'refuse', 'remove_value (program), missing value', gmis)

    # ---- blocks
    for np in lens(u, [0, 1, 2, 3, 9]):
        pos = range(np) if np < 6 else (0, np // 2, np - 1)
        for sit in ['unused', 'used'] + ['parameter %d used' % i for i in pos] + ['parameter %d missing' % i for i in pos]:
            con = 'remove_bb, %d parameters, %s' % (np, sit)
            def blk():
                e = Eng(u)
                w = Local(ir, e)
                l0 = w.value('l0', 'local')
                ps = []
                for i in range(np):
                    ub = used(e, w.st, 'ub%d' % i) if sit == 'parameter %d used' % i else App('emptyset')
                    ps.append(w.value('p%d' % i, 'missing' if sit == 'parameter %d missing' % i else 'local', kind=ir.kind('BlockArgRef', index=Int(i)), used_by=ub))
                b = w.block('b', ps, used_by=used(e, w.st, 'bub') if sit == 'used' else App('emptyset'))
                w.block('b1')
                outs = e.run(ir.fn('dfg::remove_bb'), [w.d, b], w.st)
                c.ran(e, outs)
                if sit != 'unused':
                    c.ob('refuse', con, only_panics(outs), 'not refused: ' + show_all(e, outs))
                    return
                c.ob('delete', con, len(outs) == 1 and outs[0].kind == 'ret', show_all(e, outs))
                for o in outs:
                    if o.kind != 'ret': continue
                    t, tv = net(o.st.eff, w.bbs), net(o.st.eff, w.values)
                    c.ob('delete', con, t == {b: 'out'}, 'effect on the block table: %s' % {show(a): x for a, x in t.items()})
                    c.ob('delete', con, tv == {p: 'out' for p in ps}, 'effect on the value table: %s' % {show(a): x for a, x in tv.items()})
                    c.ob('delete', con, not net(o.st.eff, w.globals), 'touches the global table')
            guarded(c, 'delete', con, blk)
            n += 1
    def bmis():
        e = Eng(u)
        w = Local(ir, e)
        w.block('b', present=False)
        outs = e.run(ir.fn('dfg::remove_bb'), [w.d, Sym('b')], w.st)
        c.ran(e, outs)
        c.ob('refuse', 'remove_bb, missing block', only_panics(outs), show_all(e, outs))
    guarded(c, 'refuse', 'remove_bb, missing block', bmis)

    # ---- functions
    for pos in (0, 1, 2, None):
        con = 'remove_func, %s' % ('unknown function' if pos is None else 'position %d' % pos)
        def fun():
            e = Eng(u)
            g = Global(ir, e)
            fs = [Sym('f8'), Sym('f9')]
            f = Sym('f')
            distinct(e, g.st, f, fs)
            distinct(e, g.st, fs[0], fs)
            for x in fs + [f]:
                for m in (g.funcs, g.func_tys):
                    assume(e, g.st, has(m, x), x is not f or pos is not None)
            if pos is not None: put(g.st, slot(g.funcs, f), Sym('fdata'))
            lay = fs if pos is None else fs[:pos] + [f] + fs[pos:]
            put(g.st, g.func_layout, List(lay))
            outs = e.run(ir.fn('program::remove_func'), [g.p, f], g.st)
            c.ran(e, outs)
            rets = [o for o in outs if o.kind == 'ret']
            rule = 'unknown' if pos is None else 'delete'
            c.ob(rule, con, len(outs) == 1 and len(rets) == 1, show_all(e, outs), outs[0].site if outs else None)
            for o in rets:
                v = e.canon(o.st, o.val)
                l = e.canon(o.st, g.func_layout)
                if pos is None:
                    c.ob('unknown', con, v.op == 'adt' and len(v.a) == 2, 'returns %s' % show(v))
                    ch = {show(a): b for m in (g.funcs, g.func_tys) for a, b in net(o.st.eff, m).items() if a is not f}
                    c.ob('unknown', con, l is List(fs) and not ch, 'order %s, changes %s' % (show(l), ch))
                else:
                    c.ob('delete', con, v.op == 'adt' and len(v.a) == 3 and v.a[2] is Sym('fdata'), 'returns %s' % show(v))
                    c.ob('order', con, l is List(fs), 'program order of functions becomes %s, was %s' % (show(l), [show(x) for x in lay]))
                    for m, what in ((g.funcs, 'function table'), (g.func_tys, 'function type table')):
                        t = net(o.st.eff, m)
                        c.ob('delete', con, t == {f: 'out'}, 'effect on the %s: %s' % (what, {show(a): b for a, b in t.items()}))
        guarded(c, 'delete', con, fun)
        n += 1
    c.floor('situations analysed', n, 140)
    return c


if __name__ == '__main__':
    main(run)
