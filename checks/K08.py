"""K08: the parent block recorded for an instruction follows the instruction lists of the layout."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *

RULES = {'insert': 'putting an instruction into a block list records that block as its parent; refusing a duplicate records nothing',
         'remove': 'taking an instruction out of a list ends its being in that block, and no other entry changes',
         'clear': 'clearing a list, removing a block or clearing the blocks ends it for every instruction inside, and no other entry changes',
         'new': 'a block is created with an empty list that records this block as the parent in the table of its layout',
         'query': 'parent_bb reads the recorded parent, None when there is none',
         'fixed': 'no operation changes which block or table a list belongs to'}


class Names:
    """the layout types and fields, found by type"""

    def __init__(self, ir):
        u = ir.u
        def adt(tid):
            t = u.types[tid]
            while t['k'] in ('ref', 'ptr'): t = u.types[t['e']]
            return t
        f = ir.fn('data::insts')
        lst = adt(f['locals'][0])
        self.inode, self.imap = (u.types[a]['name'] for a in lst['args'][1:3])
        lst = adt(ir.fn('data::layout_bbs')['locals'][0])
        self.bnode, self.bmap = (u.types[a]['name'] for a in lst['args'][1:3])
        self.imap_bb = ir.field_by_type(self.imap, 'koopa::ir::BasicBlock', no=('HashMap', 'Weak', 'Rc'))
        self.imap_tab = ir.field_by_type(self.imap, 'Weak')
        self.imap_map = ir.field_by_type(self.imap, 'HashMap', no=('Weak', 'Rc'))
        self.bmap_tab = ir.field_by_type(self.bmap, 'Weak')
        self.bmap_map = ir.field_by_type(self.bmap, 'HashMap', no=('Weak', 'Rc'))
        self.bnode_insts = ir.field_by_type(self.bnode, 'KeyNodeList')
        self.lay_bbs = ir.field_by_type('koopa::ir::layout::Layout', 'KeyNodeList')
        self.lay_tab = ir.field_by_type('koopa::ir::layout::Layout', 'Rc', no=('KeyNodeList',))

    def op(self, u, ty, op):
        l = [f for f in u.fns.values() if f['path'].startswith('<%s as key_node_list::map::Map<' % ty) and f['path'].endswith('>::' + op)]
        if not l: raise KeyError('%s::%s not analysed' % (ty, op))
        return l


def run():
    c = Check('K08', 'Abstract interpretation of the MIR of every operation by which key_node_list stores, removes and clears entries of the two layout maps '
              '(instructions of a block, blocks of a function), from an arbitrary content of the parent table, plus Layout::parent_bb and Layout construction. '
              'Each operation is shown to keep the invariant "i -> b is in the table if i is in the list of b", so it holds after any history.', RULES,
              ['key_node_list only changes lists through its Map (pinned third-party crate)', 'models of std collections (engine/models.py)'])
    u = univ()
    ir = IR(u)
    N = Names(ir)
    n = 0
    m, tab = Sym('m'), None

    def eng():
        return Eng(u), St.new()

    def fixed(e, con, outs):
        for o in outs:
            for x in o.st.eff:
                if x.name == 'set' and x.args[0].op == 'fld' and x.args[0].a[1] in (N.imap_bb, N.imap_tab, N.bmap_tab):
                    c.ob('fixed', con, False, repr(x), x.site)
        c.ob('fixed', con, True)

    tab = Fld(m, N.imap_tab)
    imap = Fld(m, N.imap_map)
    mybb = Fld(m, N.imap_bb)
    other = Sym('other_bb')

    def seed(e, st, k, parent):
        """k's entry in the parent table: None | 'mine' | 'other'"""
        assume(e, st, App('alive', tab))
        distinct(e, st, mybb, [other])
        assume(e, st, has(tab, k), parent is not None)
        if parent: put(st, slot(tab, k), mybb if parent == 'mine' else other)

    # ---- instruction list: insert
    for f in N.op(u, N.imap, 'insert'):
        for present in (False, True):
            for parent in (None, 'mine', 'other'):
                if present and parent is None: continue
                con = 'instruction list insert, %s' % ('already in the list' if present else 'not in the list')
                def ins():
                    e, st = eng()
                    k = Sym('k')
                    seed(e, st, k, parent)
                    assume(e, st, has(imap, k), present)
                    outs = e.run(f, [m, k, UNIT], st)
                    c.ran(e, outs)
                    fixed(e, con, outs)
                    c.ob('insert', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
                    for o in outs:
                        if o.kind != 'ret': continue
                        v = e.canon(o.st, o.val)
                        ok = u.variant(v.a[0], v.a[1])['n'] == ('Err' if present else 'Ok')
                        c.ob('insert', con, ok, 'returns %s' % show(v))
                        t, l = net(o.st.eff, tab), net(o.st.eff, imap)
                        if present:
                            c.ob('insert', con, not t and not l, 'changes %s' % (o.st.eff,))
                        else:
                            vals = [x.args[2] for x in o.st.eff if x.name == 'insert' and x.args[0] is tab and len(x.args) > 2]
                            if not t and e.canon(o.st, slot(tab, k)) is mybb and e.decide(o.st, has(tab, k)): t, vals = {k: 'in'}, [mybb]
                            c.ob('insert', con, l == {k: 'in'} and t == {k: 'in'} and vals == [mybb], 'list %s, parent table %s -> %s' % (
                                {show(a): b for a, b in l.items()}, {show(a): b for a, b in t.items()}, [show(x) for x in vals]), o.st.eff[0].site if o.st.eff else o.site)
                guarded(c, 'insert', con, ins)
                n += 1
    # ---- instruction list: remove
    for f in N.op(u, N.imap, 'remove_entry'):
        for present, parent in ((True, 'mine'), (True, 'other'), (False, None), (False, 'other')):
            con = 'instruction list remove, %s, recorded parent: %s' % ('in the list' if present else 'not in the list', parent)
            def rem():
                e, st = eng()
                k = Sym('k')
                seed(e, st, k, parent)
                assume(e, st, has(imap, k), present)
                if present: put(st, slot(imap, k), Sym('node'))
                outs = e.run(f, [m, k], st)
                c.ran(e, outs)
                fixed(e, con, outs)
                c.ob('remove', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
                for o in outs:
                    if o.kind != 'ret': continue
                    t, l = net(o.st.eff, tab), net(o.st.eff, imap)
                    want = {k: 'out'} if parent == 'mine' else {}
                    if parent is None: t = {a: b for a, b in t.items() if (a, b) != (k, 'out')}
                    if not present: l = {a: b for a, b in l.items() if (a, b) != (k, 'out')}
                    v = e.canon(o.st, o.val)
                    c.ob('remove', con, u.variant(v.a[0], v.a[1])['n'] == ('Some' if present else 'None'), 'returns %s' % show(v))
                    c.ob('remove', con, t == want, 'parent table: %s, expected %s' % ({show(a): b for a, b in t.items()}, {show(a): b for a, b in want.items()}),
                         o.st.eff[0].site if o.st.eff else o.site)
                    c.ob('remove', con, l == ({k: 'out'} if present else {}), 'list: %s' % {show(a): b for a, b in l.items()})
            guarded(c, 'remove', con, rem)
            n += 1
    # ---- instruction list: clear
    for f in N.op(u, N.imap, 'clear'):
        for parents in ((), ('mine',), ('mine', 'mine'), ('mine', 'other', 'mine'), ('other',)):
            con = 'instruction list clear'
            def clr():
                e, st = eng()
                ks = [Sym('k%d' % i) for i in range(len(parents))]
                foreign = Sym('foreign')
                assume(e, st, App('alive', tab))
                distinct(e, st, foreign, ks)
                for k, p in zip(ks, parents): seed(e, st, k, p)
                seed(e, st, foreign, 'other')
                keyed(e, st, imap, ks)
                assume(e, st, has(imap, foreign), False)
                keyed(e, st, tab, ks + [foreign])
                outs = e.run(f, [m], st)
                c.ran(e, outs)
                fixed(e, con, outs)
                c.ob('clear', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
                for o in outs:
                    if o.kind != 'ret': continue
                    t = net(o.st.eff, tab)
                    want = {k: 'out' for k, p in zip(ks, parents) if p == 'mine'}
                    c.ob('clear', con, t == want, 'with recorded parents %s: parent table %s, expected %s' % (list(parents), {show(a): b for a, b in t.items()},
                         {show(a): b for a, b in want.items()}), o.st.eff[0].site if o.st.eff else (f['path']))
                    c.ob('clear', con, any(x.name == 'clear' and x.args[0] is imap for x in o.st.eff) or net(o.st.eff, imap) == {k: 'out' for k in ks},
                         'the list itself is not cleared: %s' % (o.st.eff,))
            guarded(c, 'clear', con, clr)
            n += 1
    # ---- block list
    tab2, bmap = Fld(m, N.bmap_tab), Fld(m, N.bmap_map)
    for f in N.op(u, N.bmap, 'insert'):
        for present in (False, True):
            con = 'block list insert, %s' % ('present' if present else 'absent')
            def bins():
                e, st = eng()
                b = Sym('b')
                assume(e, st, App('alive', tab2))
                assume(e, st, has(bmap, b), present)
                outs = e.run(f, [m, b, UNIT], st)
                c.ran(e, outs)
                fixed(e, con, outs)
                c.ob('new', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
                for o in outs:
                    if o.kind != 'ret': continue
                    t, l = net(o.st.eff, tab2), net(o.st.eff, bmap)
                    c.ob('new', con, not t, 'parent table changes: %s' % t)
                    v = e.canon(o.st, o.val)
                    c.ob('new', con, u.variant(v.a[0], v.a[1])['n'] == ('Err' if present else 'Ok'), 'returns %s' % show(v))
                    if present:
                        c.ob('new', con, not l, 'changes %s' % (o.st.eff,))
                        continue
                    node = [x.args[2] for x in o.st.eff if x.name == 'insert' and x.args[0] is bmap]
                    if len(node) == 1 and node[0].op == 'adt':
                        def field(t, ty, nm):
                            return t.a[2 + [a for a, _ in u.types[t.a[0]]['vs'][0]['fs']].index(nm)]
                        lst = field(node[0], N.bnode, N.bnode_insts)
                        im = [x for x in lst.a[2:] if isinstance(x, T) and x.op == 'adt' and not isinstance(x.a[0], str) and u.types[x.a[0]].get('name') == N.imap]
                        ok = len(im) == 1 and field(im[0], N.imap, N.imap_bb) is b and e.strip(field(im[0], N.imap, N.imap_tab)) is tab2 and \
                            field(im[0], N.imap, N.imap_map) is App('emptymap')
                        c.ob('new', con, ok and l == {b: 'in'}, 'stored node: %s' % show(node[0]), o.st.eff[0].site)
                    else:
                        c.ob('new', con, False, 'stored: %s' % (o.st.eff,))
            guarded(c, 'new', con, bins)
            n += 1
    for op in ('remove_entry', 'clear'):
        for f in N.op(u, N.bmap, op):
            for shape in ((), (0,), (1,), (2,), (1, 2), (2, 1)) if op == 'clear' else ((0,), (1,), (2,), (3,), ('other',), None):
                con = 'block list %s' % op
                def brem():
                    e, st = eng()
                    assume(e, st, App('alive', tab2))
                    bs = [Sym('b%d' % i) for i in range(len(shape))] if shape is not None else [Sym('b0')]
                    keep = Sym('keepbb')
                    distinct(e, st, keep, bs)
                    if op == 'clear': keyed(e, st, bmap, bs)
                    elif shape is None: assume(e, st, has(bmap, bs[0]), False)
                    else: assume(e, st, has(bmap, bs[0]))
                    want, allk = {}, []
                    for b, sh in zip(bs, shape or ()):
                        lst = Fld(slot(bmap, b), N.bnode_insts)
                        ks = [Sym('%s_i%d' % (show(b), i)) for i in range(1 if sh == 'other' else sh)]
                        keyed(e, st, lst, ks)
                        for k in ks:
                            distinct(e, st, k, allk)
                            allk.append(k)
                            assume(e, st, has(tab2, k))
                            put(st, slot(tab2, k), keep if sh == 'other' else b)
                            if sh != 'other': want[k] = 'out'
                    foreign = Sym('foreign')
                    distinct(e, st, foreign, allk)
                    put(st, slot(tab2, foreign), keep)
                    keyed(e, st, tab2, allk + [foreign])
                    for i, b in enumerate(bs): distinct(e, st, b, bs[:i])
                    outs = e.run(f, [m] + ([bs[0]] if op != 'clear' else []), st)
                    c.ran(e, outs)
                    fixed(e, con, outs)
                    c.ob('clear', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
                    for o in outs:
                        if o.kind != 'ret': continue
                        t = net(o.st.eff, tab2)
                        c.ob('clear', con, t == want, 'instructions per block %s: parent table %s, expected %s' % (shape, {show(a): b for a, b in t.items()},
                             {show(a): b for a, b in want.items()}), o.st.eff[0].site if o.st.eff else f['path'])
                guarded(c, 'clear', con, brem)
                n += 1
    # ---- Layout
    def par():
        for there in (True, False):
            e, st = eng()
            l, i = Sym('l'), Sym('i')
            t = Fld(l, N.lay_tab)
            assume(e, st, has(t, i), there)
            if there: put(st, slot(t, i), Sym('pb'))
            outs = e.run(ir.fn('layout::parent_bb'), [l, i], st)
            c.ran(e, outs)
            ok = len(outs) == 1 and outs[0].kind == 'ret'
            v = e.canon(outs[0].st, outs[0].val) if ok else None
            c.ob('query', 'parent_bb', ok and v.op == 'adt' and list(v.a[2:]) == ([Sym('pb')] if there else []) and not outs[0].st.eff, '\n'.join(show_out(e, o) for o in outs))
    guarded(c, 'query', 'parent_bb', par)
    def mknew():
        e, st = eng()
        outs = e.run(ir.fn('layout::new'), [], st)
        c.ran(e, outs)
        c.ob('new', 'Layout', len(outs) == 1 and outs[0].kind == 'ret', '')
        o = outs[0]
        v = o.val
        fs = [a for a, _ in u.types[v.a[0]]['vs'][0]['fs']]
        rc = v.a[2 + fs.index(N.lay_tab)]
        lst = v.a[2 + fs.index(N.lay_bbs)]
        bm = [x for x in lst.a[2:] if isinstance(x, T) and x.op == 'adt' and not isinstance(x.a[0], str) and u.types[x.a[0]].get('name') == N.bmap]
        ok = len(bm) == 1
        if ok:
            bf = [a for a, _ in u.types[bm[0].a[0]]['vs'][0]['fs']]
            w = bm[0].a[2 + bf.index(N.bmap_tab)]
            ok = e.to_place(w) == e.to_place(rc) and e.canon(o.st, rc) is App('emptymap') and bm[0].a[2 + bf.index(N.bmap_map)] is App('emptymap')
        c.ob('new', 'Layout', ok, 'block list and layout do not share one empty parent table: %s' % show(v))
    guarded(c, 'new', 'Layout', mknew)
    c.floor('operations analysed', n, 25)
    return c


if __name__ == '__main__':
    main(run)
