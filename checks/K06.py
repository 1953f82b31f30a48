"""K06: handles come from atomic process-wide counters; global and local value handles live in disjoint ranges that is_global tells apart."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *

RULES = {'counter': 'the id of every created handle is the result of one atomic read-modify-write of a process-wide static that advances it',
         'monotone': 'nothing else writes a counter', 'range': 'ids are non-zero and the counters of one handle type can not meet',
         'global': 'is_global is true on the whole range of global ids and false on that of local ids', 'eq': 'handles compare and hash by their id',
         'only': 'every construction of a handle in the library is one of the analysed creations', 'floor': 'number of creations analysed'}
SORTS = {'Value': 'koopa::ir::entities::Value', 'BasicBlock': 'koopa::ir::entities::BasicBlock', 'Function': 'koopa::ir::entities::Function'}


def statics_in(x, out):
    if isinstance(x, dict):
        if 'static' in x: out.add(x['static'])
        for v in x.values(): statics_in(v, out)
    elif isinstance(x, list):
        for v in x: statics_in(v, out)
    return out


def aggregates(x, out):
    """adt type ids built by aggregate rvalues"""
    if isinstance(x, list):
        if len(x) >= 3 and x[0] == 'agg': out.append(x)
        for v in x: aggregates(v, out)
    elif isinstance(x, dict):
        for v in x.values(): aggregates(v, out)
    return out


def num(v):
    while isinstance(v, dict):
        if 'i' in v: return v['i']
        if 'fs' in v and len(v['fs']) == 1: v = v['fs'][0]
        else: return None


def run():
    c = Check('K06', 'Abstract interpretation of the MIR of every entity creation: the returned handle is traced back to the atomic operation that produced its id; '
              'the counters, their initial values (evaluated static initialisers) and all other uses of them are enumerated; is_global is evaluated over the symbolic id ranges.',
              RULES, ['fewer than 2^30-1 global values and 2^32-2^30 local values are created (the counters do not wrap)', 'semantics of std::sync::atomic read-modify-write'])
    u = univ()
    ir = IR(u)
    tids = {s: ir.tid(n) for s, n in SORTS.items()}
    kind = ir.kind('Integer')
    creations = []

    def go(sort, what, root, mkargs, n, visited):
        def one():
            e = Eng(u, opaque=TYPE_GET)
            st, args, get = mkargs(e)
            outs = e.run(ir.fn(root), args, st)
            c.ran(e, outs)
            visited.update(e.visited_fns)
            rets = [o for o in outs if o.kind == 'ret']
            c.ob('counter', what, len(rets) >= 1, 'no path creates the handle')
            for o in rets:
                hs = get(e, o)
                c.ob('counter', what, len(hs) == n, '%d handles found, expected %d' % (len(hs), n))
                seen = set()
                for h in hs:
                    h = e.canon(o.st, h)
                    idt = h.a[2] if h.op == 'adt' and len(h.a) == 3 else h
                    k, parts = lin_parts(idt)
                    at = list(parts)[0] if len(parts) == 1 else None
                    ok = at is not None and parts[at] == 1 and at.op == 'app' and at.a[0] == 'atomic_fetch_add' and at.a[1].op == 'static' and at.a[2].op == 'int' and at.a[2].a[0] >= 1
                    c.ob('counter', what, ok, 'id is %s' % show(idt), o.st.eff[0].site if o.st.eff else o.site)
                    if ok:
                        c.ob('counter', what, idt not in seen, 'two handles share one id %s' % show(idt), o.st.eff[0].site)
                        seen.add(idt)
                        creations.append((sort, what, at.a[1].a[0], at.a[2].a[0], k))
                        c.sample('%s: %s' % (what, show(idt)))
        guarded(c, 'counter', what, one)

    visited = set()
    ret = lambda e, o: [o.val]

    def loc(e): w = Local(ir, e); return w.st, w
    def local_raw(e):
        w = Local(ir, e)
        return w.st, [w.d, Sym('unused'), ir.vdata(ir.I32, kind)], ret
    def local_int(e):
        w = Local(ir, e)
        return w.st, [w.d, Sym('unused'), Sym('n')], ret
    def glob_raw(e):
        g = Global(ir, e)
        return g.st, [g.p, ir.vdata(ir.I32, kind)], ret
    def glob_int(e):
        g = Global(ir, e)
        return g.st, [g.p, Sym('n')], ret
    def glob_alloc(e):
        g = Global(ir, e)
        return g.st, [g.p, g.value('x', ty=ir.I32)], ret
    def blk(e):
        w = Local(ir, e)
        return w.st, [w.d, Sym('name_none')], ret
    from builders import ostr
    def blk0(e):
        w = Local(ir, e)
        return w.st, [w.d, ostr(ir, None)], ret
    def blkp(e):
        w = Local(ir, e)
        return w.st, [w.d, ostr(ir, None), List([ir.I32, ir.I32, ir.I32])], lambda e, o: [x.args[1] for x in o.st.eff if x.name == 'insert' and x.args[0] is w.values]
    def blkpb(e):
        w = Local(ir, e)
        return w.st, [w.d, ostr(ir, None), List([ir.I32])], ret
    def fd(e):
        def get(e, o):
            pl = e.canon(o.st, e._adt_field(o.val, ir.path('data::func_params')[0]))
            return list(pl.a) if pl.op == 'list' else [pl]
        return None, [Str('@f'), List([ir.I32, ir.I32]), ir.UNIT], get
    def fdn(e):
        a, b, g = fd(e)
        return a, [Str('@f'), List([Tuple(ostr(ir, None), ir.I32), Tuple(ostr(ir, '%x'), ir.I32)]), ir.UNIT], g
    def nf(e):
        g = Global(ir, e)
        return g.st, [g.p, Sym('fd')], ret
    def nfd(e):
        g = Global(ir, e)
        return g.st, [g.p, Str('@f'), List([ir.I32]), ir.UNIT], ret
    for sort, what, root, mkargs, n in [('local', 'local value (raw)', 'local::raw', local_raw, 1), ('local', 'local value (integer)', 'local::integer', local_int, 1),
            ('global', 'global value (raw)', 'global::raw', glob_raw, 1), ('global', 'global value (integer)', 'global::integer', glob_int, 1),
            ('global', 'global allocation', 'global::global_alloc', glob_alloc, 1), ('bb', 'basic block', 'block::basic_block', blk0, 1),
            ('bb', 'basic block with parameters', 'block::basic_block_with_params', blkpb, 1), ('local', 'block parameters', 'block::basic_block_with_params', blkp, 3),
            ('local', 'function parameters', 'program::func_data_new', fd, 2), ('local', 'named function parameters', 'program::func_data_named', fdn, 2),
            ('func', 'function', 'program::new_func', nf, 1), ('func', 'function definition', 'program::new_func_def', nfd, 1), ('func', 'function declaration', 'program::new_func_decl', nfd, 1)]:
        go(sort, what, root, mkargs, n, visited)
    c.floor('created handles traced', len(creations), 17)

    init = {}
    for s in u.statics.values():
        init[s['name']] = num(s['val'])
    # one counter position per sort
    cnt = {}
    for sort, what, stat, step, off in creations:
        cnt.setdefault(sort, set()).add((stat, off))
        i = init.get(stat)
        c.ob('range', what, i is not None and i + off >= 1, 'first id of %s is %s%+d' % (stat, i, off))
    for sort, l in sorted(cnt.items()):
        c.ob('range', 'ids of sort ' + sort, len({o for _, o in l}) == 1 or len(l) == 1, 'drawn from %s' % sorted(l))
    firsts = {s: min((init.get(st) or 0) + o for st, o in l) for s, l in cnt.items()}
    if 'global' in cnt and 'local' in cnt:
        G, L = firsts['global'], firsts['local']
        c.ob('range', 'global and local values', not ({s for s, _ in cnt['global']} & {s for s, _ in cnt['local']}), 'share a counter')
        c.ob('range', 'global and local values', G < L, 'global ids from %d, local ids from %d' % (G, L))
        c.ob('range', 'global and local values', L - G >= 2 ** 20, 'room for %d global values' % (L - G))
        c.ob('range', 'local values', 2 ** 32 - L >= 2 ** 20, 'room for %d local values' % (2 ** 32 - L))
        for sort, lo, hi, want in (('global', G, L - 1, TRUE), ('local', L, 2 ** 32 - 1, FALSE)):
            def isg():
                e = Eng(u)
                st = St.new()
                outs0 = e.run(ir.fn('program::is_global'), [Sym('h')], st.copy() if hasattr(st, 'copy') else None)
                x = Sym('id')
                st = St.new()
                assume(e, st, Lt(x, Int(lo)), False)
                assume(e, st, Lt(Int(hi), x), False)
                outs = e.run(ir.fn('program::is_global'), [Adt(tids['Value'], 0, x)], st)
                c.ran(e, outs)
                for o in outs:
                    v = e.canon(o.st, o.val)
                    d = e.decide(o.st, v)
                    c.ob('global', 'is_global on %s handles' % sort, o.kind == 'ret' and (d is (want is TRUE) or d == (want is TRUE)), 'for ids %d..%d: %s\n%s' % (lo, hi, show(v), show_out(e, o)), o.site)
                # and at the borders
                for b in (lo, lo + 1, hi - 1, hi):
                    e = Eng(u)
                    for o in e.run(ir.fn('program::is_global'), [Adt(tids['Value'], 0, Int(b))]):
                        c.ob('global', 'is_global on %s handles' % sort, o.kind == 'ret' and e.canon(o.st, o.val) is want, 'id %d gives %s' % (b, show(o.val)))
            guarded(c, 'global', 'is_global on %s handles' % sort, isg)
    # every other use of the counters
    counters = {s for l in cnt.values() for s, _ in l}
    users = 0
    for k, f in u.fns.items():
        st = statics_in(f.get('blocks'), set()) & counters
        if not st: continue
        users += 1
        def one():
            e = Eng(u)
            outs = e.run(f, [Sym('a%d' % i) for i in range(f['argc'])])
            c.ran(e, outs)
            for o in outs:
                for x in o.st.eff:
                    if x.args and any(a.op == 'static' and a.a[0] in counters for a in x.args if isinstance(a, T)):
                        ok = x.name == 'atomic_fetch_add' and x.args[1].op == 'int' and x.args[1].a[0] >= 1
                        c.ob('monotone', f['name'], ok, 'counter operation %r' % (x,), x.site)
        guarded(c, 'monotone', f['name'], one)
    c.floor('functions using a counter', users, len(counters))
    # every construction of a handle
    built = 0
    for k, f in u.fns.items():
        if f.get('derived') or not f.get('crate') == 'koopa': continue
        for a in aggregates(f.get('blocks'), []):
            if a[1] == "adt" and a[2] in tids.values():
                built += 1
                c.ob('only', f['name'], f['name'] in visited or f['key'] in visited, 'builds a handle outside the analysed creations')
    c.floor('functions constructing handles', built, 4)
    # equality
    for s, root in (('Value', 'value'), ('BasicBlock', 'bb'), ('Function', 'func')):
        def eq():
            for a, b, want in ((Int(5), Int(5), True), (Int(5), Int(6), False), (Sym('i'), Sym('i'), True)):
                e = Eng(u)
                outs = e.run(ir.fn('handles::%s_eq' % root), [Adt(tids[s], 0, a), Adt(tids[s], 0, b)])
                c.ran(e, outs)
                c.ob('eq', s, all(o.kind == 'ret' and e.canon(o.st, o.val) is Bool(want) for o in outs), 'ids %s and %s compare %s' % (show(a), show(b), [show(o.val) for o in outs]))
            e = Eng(u)
            st = St.new()
            assume(e, st, Eq(Sym('i'), Sym('j')), False)
            for o in e.run(ir.fn('handles::%s_eq' % root), [Adt(tids[s], 0, Sym('i')), Adt(tids[s], 0, Sym('j'))], st):
                c.ob('eq', s, o.kind == 'ret' and e.decide(o.st, e.canon(o.st, o.val)) is False, 'different ids compare %s' % show(o.val))
            e = Eng(u)
            outs = e.run(ir.fn('handles::%s_hash' % root), [Adt(tids[s], 0, Sym('i')), Sym('hasher')])
            c.ran(e, outs)
            for o in outs:
                bad = [x for x in o.st.eff if any('_' in show(a) and show(a).startswith('fresh') for a in x.args)]
                c.ob('eq', s + ' hash', o.kind == 'ret' and not bad, 'hash depends on %s' % bad)
        guarded(c, 'eq', s, eq)
    return c


if __name__ == '__main__':
    main(run)
