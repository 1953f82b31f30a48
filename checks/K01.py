"""K01: used_by sets stay exact under every operation that stores, replaces, updates or removes value data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *

# which fields of a kind are operands (value operands / block operands), by accessor
OPERANDS = {'Aggregate': ['elems*'], 'GlobalAlloc': ['init'], 'Load': ['src'], 'Store': ['value', 'dest'], 'GetPtr': ['src', 'index'],
            'GetElemPtr': ['src', 'index'], 'Binary': ['lhs', 'rhs'], 'Branch': ['cond', 'true_args*', 'false_args*'], 'Jump': ['args*'],
            'Call': ['args*'], 'Return': ['value?']}
BLOCKS = {'Branch': ['true_bb', 'false_bb'], 'Jump': ['target']}


LISTLEN = 2


def build(ir, k, vals, bbs):
    """ValueKind k with operands drawn in turn from vals/bbs; returns (kind, value operands, block operands)"""
    vi, bi, vo, bo, ops = 0, 0, [], [], {}
    for f in FIELDS[k]:
        n = f.strip('*?')
        if f in OPERANDS.get(k, []):
            if f.endswith('*'):
                l = [vals[(vi + j) % len(vals)] for j in range(LISTLEN)]
                vi += LISTLEN
                vo += l
                ops[n] = l
            else:
                x = vals[vi % len(vals)]
                vi += 1
                vo.append(x)
                ops[n] = ir.option(ir.kind_field_tid(k, n), x) if f.endswith('?') else x
        elif f in BLOCKS.get(k, []):
            x = bbs[bi % len(bbs)]
            bi += 1
            bo.append(x)
            ops[n] = x
    return ir.kind(k, **ops), vo, bo


class E2(Eng):
    """engine in which the closure given to update_value stores a chosen value data"""
    newdata = None
    closure = None

    def call_value(self, st, fv, args, site, dtid=None):
        if fv is self.closure:
            self.write(st, *self.to_place(models.lastptr(self, st, args[0])), self.newdata, effect=False)
            return [Out(st, 'ret', UNIT)]
        return super().call_value(st, fv, args, site, dtid)


RULES = {'link': 'after the operation the value is recorded as a user of exactly its current operands (values and blocks)',
         'store': 'the value data is stored under its handle with its own users kept',
         'foreign': 'no other use list is touched',
         'total': 'the operation completes when every operand exists'}


def verify(c, ir, w, o, con, detail, value, old, new, users_of, bb_users_of):
    effs = o.st.eff
    (ov, ob), (nv, nb) = old, new
    known = set()
    for u in sorted(set(ov) | set(nv), key=show):
        pl = users_of(u)
        known.add(pl)
        m = membership(effs, pl, value)
        want = 'in' if u in nv else 'out'
        ok = m == want or (m is None and u in nv and u in ov)
        c.ob('link', con, ok, '%s: value is %s the users of operand %s, expected %s' % (detail, {'in': 'added to', 'out': 'removed from', None: 'not changed in', 'other': 'clobbered in'}[m], show(u), want),
             o.st.eff[-1].site if o.st.eff else o.site)
    for b in sorted(set(ob) | set(nb), key=show):
        pl = bb_users_of(b)
        known.add(pl)
        m = membership(effs, pl, value)
        want = 'in' if b in nb else 'out'
        ok = m == want or (m is None and b in nb and b in ob)
        c.ob('link', con, ok, '%s: value is %s the users of block %s, expected %s' % (detail, m, show(b), want), o.st.eff[-1].site if o.st.eff else o.site)
    names = {ir.path('data::used_by')[0], ir.path('data::bb_used_by')[0]}
    for x in effs:
        if x.args and x.args[0].op == 'fld' and x.args[0].a[1] in names:
            ok = x.args[0] in known and len(x.args) > 1 and x.args[1] is value
            c.ob('foreign', con, ok, '%s: touches %r' % (detail, x), x.site)


def stored(effs, table):
    """final content of the table by key: list of (key, data|None)"""
    r = {}
    for x in effs:
        if x.args and x.args[0] is table:
            if x.name == 'insert': r[x.args[1]] = x.args[2]
            elif x.name in ('remove', 'remove_entry'): r[x.args[1]] = None
            else: r[None] = x
    return r


def run():
    c = Check('K01', 'Abstract interpretation of the MIR behind every public operation that stores value data (local and global builders, replace_value_with, '
              'update_value, remove_value), for each kind of value being stored and each kind being replaced, with opaque operands living in the local and in the '
              'global table; the net effect on every used_by set and on the value table is compared with the operand table of the kinds.', RULES,
              ['models of std collections (engine/models.py)', 'HashMap/HashSet semantics of std', 'the enumeration of operands itself is decided by K02'])
    u = univ()
    ir = IR(u)
    names = [('l0', 'local'), ('g0', 'global'), ('l1', 'local'), ('l2', 'local'), ('g1', 'global'), ('l3', 'local')]
    UB = ir.path('data::used_by')[0]

    def world(eng):
        w = Local(ir, eng)
        vs = [w.value(n, where) for n, where in names]
        bs = [w.block('b%d' % i) for i in range(3)]
        return w, vs, bs

    def data(ir, kind, ub):
        return ir.vdata(Sym('newty'), kind, ub, base=Sym('nd'))

    n = 0
    # --- creation in a function
    for k in KINDS:
        con = 'create local %s' % k
        def new():
            e = E2(u)
            w, vs, bs = world(e)
            kind, vo, bo = build(ir, k, vs, bs)
            nd = e.heap(w.st, data(ir, kind, Sym('stale_users')))
            outs = e.run(ir.fn('local::raw'), [w.d, Sym('unused'), e.read(w.st, nd.a[0], nd.a[1])], w.st)
            c.ran(e, outs)
            c.ob('total', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
            for o in outs:
                if o.kind != 'ret': continue
                v = e.canon(o.st, o.val)
                verify(c, ir, w, o, con, 'new value', v, ([], []), (vo, bo), w.users, w.bb_users)
                tab = stored(o.st.eff, w.values)
                d = tab.get(v)
                ok = set(tab) == {v} and d is not None and ir.vget(d, 'kind') is kind and ir.vget(d, 'ty') is Sym('newty')
                c.ob('store', con, ok, 'stored: %s' % {show(a) if a else a: show(b) if isinstance(b, T) else b for a, b in tab.items()})
                if ok:
                    ub = ir.vget(d, 'used_by')
                    c.ob('store', con + ': users of a new value', Sym('stale_users') is not ub and 'stale_users' not in show(ub),
                         'a value built from given data starts with the users of that data: %s' % show(ub))
                c.sample('%s: %s' % (con, '; '.join(repr(x) for x in o.st.eff[:6])))
        guarded(c, 'total', con, new)
        n += 1
    # --- replace and update: every old kind x every new kind
    global LISTLEN
    cases = [(how, ko, kn, sh) for how in ('replace', 'update') for ko in KINDS for kn in KINDS for sh in ('overlap', 'same operand')]
    cases += [(how, k1, k2, 'long %d' % L) for L in lens(u, [9]) for how in ('replace', 'update') for k1, k2 in (('Call', 'Jump'), ('Jump', 'Branch'), ('Branch', 'Aggregate'), ('Aggregate', 'Call'))]
    if True:
        if True:
            for how, ko, kn, sh in cases:
                root = 'replace::raw' if how == 'replace' else 'dfg::update_value'
                con = '%s %s by %s' % (how, ko, kn)
                LISTLEN = int(sh[5:]) if sh.startswith('long') else 2
                def rep():
                    e = E2(u)
                    w, vs, bs = world(e)
                    v = Sym('v')
                    if sh == 'same operand':
                        ovs, nvs, obs, nbs = vs[:1], vs[:1], bs[:1], bs[:1]
                    elif sh.startswith('long'):
                        more = [w.value('m%d' % i, 'global' if i % 3 else 'local') for i in range(2 * LISTLEN + 2)]
                        ovs, nvs, obs, nbs = more, more[7:] + more[:7], bs, bs[1:] + bs[:1]
                    else:
                        ovs, nvs, obs, nbs = vs, vs[1:] + vs[:1], bs, bs[1:] + bs[:1]
                    okind, ovo, obo = build(ir, ko, ovs, obs)
                    nkind, nvo, nbo = build(ir, kn, nvs, nbs)
                    w.value(v, 'local', ty=Sym('oldty'), kind=okind, used_by=Sym('own_users'))
                    nd = data(ir, nkind, Sym('other_users'))
                    if how == 'update':
                        e.closure, e.newdata = Sym('f'), nd
                        args = [w.d, v, Sym('f')]
                    else:
                        args = [w.d, v, nd]
                    outs = e.run(ir.fn(root), args, w.st)
                    c.ran(e, outs)
                    c.ob('total', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
                    for o in outs:
                        if o.kind != 'ret': continue
                        verify(c, ir, w, o, con, 'old operands %s, new operands %s' % ([show(x) for x in ovo + obo], [show(x) for x in nvo + nbo]),
                               v, (ovo, obo), (nvo, nbo), w.users, w.bb_users)
                        # the table entry may be replaced (insert) or updated in place
                        tab = stored(o.st.eff, w.values)
                        d = tab.get(v)
                        if not tab: d = e.canon(o.st, slot(w.values, v))
                        ok = set(tab) <= {v} and d is not None and d.op == 'adt' and e.canon(o.st, ir.vget(d, 'kind')) is nkind and ir.vget(d, 'ty') is Sym('newty')
                        c.ob('store', con, ok, 'table entry after: %s' % (show(d) if d is not None else None))
                        if ok:
                            ub = ir.vget(d, 'used_by')
                            c.ob('store', '%s: own users' % how, ub is Sym('own_users'), '%s: the users of the value itself become %s' % (con, show(ub)), o.st.eff[-1].site)
                guarded(c, 'total', con, rep)
                n += 1
    LISTLEN = 2
    # --- removal from a function and from a program, creation in a program
    for k in KINDS:
        con = 'remove local %s' % k
        def rem():
            e = E2(u)
            w, vs, bs = world(e)
            v = Sym('v')
            kind, vo, bo = build(ir, k, vs, bs)
            w.value(v, 'local', kind=kind, used_by=App('emptyset'))
            outs = e.run(ir.fn('dfg::remove_value'), [w.d, v], w.st)
            c.ran(e, outs)
            c.ob('total', con, len(outs) == 1 and outs[0].kind == 'ret', '\n'.join(show_out(e, o) for o in outs[:4]))
            for o in outs:
                if o.kind == 'ret': verify(c, ir, w, o, con, 'removed value', v, (vo, bo), ([], []), w.users, w.bb_users)
        guarded(c, 'total', con, rem)
        n += 1
        if k in ('Branch', 'Jump'): continue
        for op in ('create', 'remove'):
            con = '%s global %s' % (op, k)
            def glob():
                e = E2(u)
                g = Global(ir, e)
                vs = [g.value('g%d' % i) for i in range(5)]
                kind, vo, bo = build(ir, k, vs, [])
                if op == 'create':
                    outs = e.run(ir.fn('global::raw'), [g.p, data(ir, kind, Sym('stale_users'))], g.st)
                else:
                    g.value('v', kind=kind, used_by=App('emptyset'))
                    outs = e.run(ir.fn('program::remove_value'), [g.p, Sym('v')], g.st)
                c.ran(e, outs)
                rets = [o for o in outs if o.kind == 'ret']
                c.ob('total', con, len(rets) >= 1 and (op == 'remove' or len(outs) == len(rets)), '\n'.join(show_out(e, o) for o in outs[:4]))
                for o in rets:
                    v = e.canon(o.st, o.val) if op == 'create' else Sym('v')
                    verify(c, ir, g, o, con, op, v, ([], []) if op == 'create' else (vo, []), (vo, []) if op == 'create' else ([], []), g.users, None)
                    if op == 'create':
                        tab = stored(o.st.eff, g.values)
                        d = tab.get(v)
                        ok = set(tab) == {v} and d is not None and ir.vget(d, 'kind') is kind
                        c.ob('store', con, ok, 'stored: %s' % {show(a): show(b) for a, b in tab.items()})
                        if ok: c.ob('store', con + ': users of a new value', 'stale_users' not in show(ir.vget(d, 'used_by')), 'starts with users %s' % show(ir.vget(d, 'used_by')))
            guarded(c, 'total', con, glob)
            n += 1
    c.floor('operations analysed', n, 17 + 2 * 17 * 17 + 17 + 30)
    return c


if __name__ == '__main__':
    main(run)
