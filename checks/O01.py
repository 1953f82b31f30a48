"""O01: every registered pass runs exactly once, in order, on everything it is for."""
import itertools
from builders import *
from building import deep_int

RULES = {'order': 'the passes run once each, in the order of registration; running again runs all of them again', 'module': 'a module pass is given the whole program itself, once',
         'function': 'a function pass is applied once to every function the program has at that time, each together with its own data in the program',
         'manager': 'making a manager and registering passes completes', 'only': 'running the passes does nothing to the program beyond what the passes do', 'floor': 'number of situations'}
MOD, FUN = 'koopa::opt::ModulePass::run_on', 'koopa::opt::FunctionPass::run_on'
PASS = 'koopa::opt::Pass'


def run():
    c = Check('O01', 'Abstract interpretation of the MIR of the pass manager on every sequence of opaque module and function passes up to length 4 (and lengths around every constant in the module), registered one by one or given as a '
              'list, on programs of 0 to 3 functions (definitions and declarations) in both table orders, where module passes may add or remove functions. The sequence of calls made through the pass traits, with the places their arguments refer to, is compared with the contract.', RULES,
              ['std containers behave as documented', 'passes are represented by: doing nothing, adding a function, removing one'])
    u = univ()
    ir = IR(u)

    def count(e, st, args, C):
        """the counters behind the handles, from the initial value of the static"""
        p = e.canon(st, args[0])
        if p.op == 'ref' and not p.a[1]: p = p.a[0]
        cell = mk('atomicv', p)
        v = st.store.get(cell)
        if v is None: v = Int(deep_int(u.statics[p.a[0]]['val']))
        st.store[cell] = add(v, e.canon(st, args[1]))
        return [Out(st, 'ret', v)]
    COUNTERS = dict(TYPE_GET)
    COUNTERS.update({'std::sync::atomic::Atomic::<%s>::fetch_add' % t: count for t in ('u32', 'usize', 'u64')})

    def base(e, st, t):
        """the opaque pass behind a reference or box"""
        for _ in range(8):
            t = e.strip(e.canon(st, t))
            if t.op == 'ref': t = e.read(st, t.a[0], t.a[1])
            elif t.op == 'sym': return t
        return t

    def only(e, root, args, st, rule, con):
        outs = e.run(ir.fn(root), args, st)
        c.ran(e, outs)
        ok = len(outs) == 1 and outs[0].kind == 'ret'
        c.ob(rule, con + ': completes', ok, '%s: %s' % (root, ' / '.join(show_out(e, o) for o in outs)[:300]), outs[0].site if outs else None)
        if not ok: raise Imprecise('%s has %d outcomes' % (root, len(outs)))
        return outs[0]

    def world(nf, rev, hooks=None):
        ops = dict(COUNTERS)
        ops.update(hooks or {})
        e = Eng(u, opaque=ops)
        e.rev_maps, e.unique_maps = rev, True
        st = St.new()
        o = only(e, 'program::new', [], st, 'manager', 'Program::new')
        st = o.st
        p = e.heap(st, e.canon(st, o.val))
        fs = []
        for i in range(nf):
            o = only(e, 'program::new_func_def' if i % 2 == 0 else 'program::new_func_decl', [p, Str('@f%d' % i), List([]), ir.UNIT], st, 'manager', 'new_func')
            st = o.st
            fs.append(e.canon(st, o.val))
        return e, st, p, fs

    def place(e, st, t):
        r = models.lastptr(e, st, t)
        return Str('%s %s' % (show(r.a[0]), r.a[1]) if r.op == 'ref' else show(r))

    def one(kinds, nf, rev, how, times=1):
        con = 'passes %s on %d functions' % (kinds or 'none', nf)
        det = '%s%s%s' % (how, ', other table order' if rev else '', ', run %d times' % times if times > 1 else '')
        ps = [Sym('pass%d' % i) for i in range(len(kinds))]
        kind = {p: k for p, k in zip(ps, kinds)}
        added = [0]

        nsub = [0]

        def sub(e=None):
            """an engine for calls made by a pass, or made to look at the result, whose frames and maps differ from those of the run"""
            nsub[0] += 1
            e = Eng(u, opaque=COUNTERS)
            e.rev_maps, e.unique_maps = rev, True
            e.fid = nsub[0] * 1000000
            return e

        def module(e, st, args, C):
            b = base(e, st, args[0])
            st.eff += (Eff(('pass', (b, Str('module'), place(e, st, args[1])), C.site, False)),)
            k = kind.get(b)
            if k == 'A':
                added[0] += 1
                outs = sub(e).run(ir.fn('program::new_func_decl'), [args[1], Str('@new%d' % added[0]), List([]), ir.UNIT], st)
                for o in outs: o.st.eff += (Eff(('added', (b, e.canon(o.st, o.val)), C.site, False)),)
                return [Out(o.st, 'ret', UNIT) for o in outs]
            if k == 'R':
                live = alive(st)
                if live:
                    outs = sub(e).run(ir.fn('program::remove_func'), [args[1], live[0]], st)
                    for o in outs: o.st.eff += (Eff(('gone', (b, live[0]), C.site, False)),)
                    return [Out(o.st, 'ret', UNIT) for o in outs]
            return [Out(st, 'ret', UNIT)]

        def function(e, st, args, C):
            b = base(e, st, args[0])
            st.eff += (Eff(('pass', (b, Str('function'), e.canon(st, args[1]), place(e, st, args[2]), name_of(e, st, args[2])), C.site, False)),)
            return [Out(st, 'ret', UNIT)]

        NAME = ir.path('data::func_name')

        def name_of(e, st, t):
            t = e.canon(st, t)
            t = e.canon(st, e.read(st, t.a[0], t.a[1])) if t.op == 'ref' else t
            for x in NAME:
                t = e.canon(st, (e._adt_field(t, x) if t.op == 'adt' else None) or Fld(t, x))
            return t

        e, st, p, fs = world(nf, rev, {MOD: module, FUN: function})

        def alive(st):
            r = known(e, st, p)
            return r

        def known(e, st, p):
            t = e.canon(st, e.read(st, p.a[0], p.a[1]))
            for x in ir.path('program::funcs'): t = e.canon(st, (e._adt_field(t, x) if t.op == 'adt' else None) or Fld(t, x))
            ks = models.known_entries(e, st, t)
            if ks is None: raise Imprecise("the function table is not known: " + show(t)[:1500])
            return [k for k, _ in ks]
        # the manager
        terms = [ir.variant(PASS, 'Function' if k == 'F' else 'Module', x) for k, x in zip(kinds, ps)]
        if how == 'from':
            o = only(e, 'opt::from', [List(terms)], st, 'manager', con)
            st = o.st
            m = e.heap(st, e.canon(st, o.val))
        else:
            split = len(terms) // 2 if how == 'mixed' else 0
            o = only(e, 'opt::from', [List(terms[:split])], st, 'manager', con) if split else only(e, 'opt::default' if how == 'default' else 'opt::new', [], st, 'manager', con)
            st = o.st
            m = e.heap(st, e.canon(st, o.val))
            for t in terms[split:]: st = only(e, 'opt::register', [m, t], st, 'manager', con).st
        # what must happen
        for t in range(times):
            st.eff = ()
            before = e.canon(st, e.read(st, p.a[0], p.a[1]))
            live = known(e, st, p)
            o = only(e, 'opt::run', [m, p], st, 'order', con)
            st = o.st
            calls = [x for x in st.eff if x.name == 'pass']
            after = known(e, st, p)
            # calls grouped by pass, in order
            seq = []
            for x in calls:
                if not seq or seq[-1][0] is not x.args[0] or x.args[1] is Str('module'): seq.append((x.args[0], []))
                seq[-1][1].append(x)
            exp, cur = [], set(live)
            for b in ps:
                exp.append((b, set(cur) if kind[b] == 'F' else None))
                for x in st.eff:
                    if x.name in ('added', 'gone') and x.args[0] is b: (cur.add if x.name == 'added' else cur.discard)(x.args[1])
            got = [(b, [y.args[2] for y in xs]) for b, xs in seq]
            expn = [(b, fs_) for b, fs_ in exp if fs_ is None or fs_]
            site = calls[0].site if calls else o.site
            c.ob('order', con, [b for b, _ in got] == [b for b, _ in expn], '%s: runs %s, expected %s' % (det, [show(b) for b, _ in got], [show(b) for b, _ in expn]), site)
            for (b, xs), (b2, fs_) in zip(seq, expn):
                if b is not b2: break
                if fs_ is None:
                    ok = len(xs) == 1 and xs[0].args[1] is Str('module') and xs[0].args[2] is place(e, st, p)
                    c.ob('module', con, ok, '%s: module pass %s runs as %s' % (det, show(b), [repr(x) for x in xs]), xs[0].site)
                else:
                    hs = [x.args[2] for x in xs]
                    ok = all(x.args[1] is Str('function') for x in xs) and len(hs) == len(set(hs)) and set(hs) == fs_
                    c.ob('function', con, ok, '%s: function pass %s is applied to %s, expected each of %s once' % (det, show(b), sorted(map(show, hs)), sorted(map(show, fs_))), xs[0].site)
            # the data handed over is the data of that function in the program
            for x in calls:
                if x.args[1] is not Str('function') or x.args[2] not in after: continue
                r = sub().run(ir.fn('program::func_mut'), [p, x.args[2]], st.copy())
                ok = len(r) == 1 and r[0].kind == 'ret' and place(e, r[0].st, r[0].val) is x.args[3] and name_of(e, r[0].st, r[0].val) is x.args[4]
                c.ob('function', con + ': data', ok, '%s: function pass %s is given %s (of %s) for %s' % (det, show(x.args[0]), x.args[3].a[0], show(x.args[4]), show(x.args[2])), x.site)
            if not set(kinds) & {'A', 'R'}:
                c.ob('only', con, e.canon(st, e.read(st, p.a[0], p.a[1])) is before, '%s: the program changes although the passes change nothing' % det, o.site)
            c.sample('%s (%s): %s' % (con, det, '; '.join('%s%s' % (show(b), '' if f is None else ' on ' + ','.join(sorted(map(show, f)))) for b, f in expn)))
            n[0] += 1

    n = [0]
    jobs = []
    for L in range(5):
        for ks in itertools.product('MF', repeat=L):
            for nf in (0, 1, 2, 3):
                for how in ('new', 'from'):
                    jobs.append((''.join(ks), nf, False, how, 1))
    for ks in ('F', 'MF', 'FF', 'FMF'):
        for nf in (2, 3):
            for how in ('new', 'from', 'mixed', 'default'): jobs += [(ks, nf, True, how, 1), (ks, nf, False, how, 2), (ks, nf, True, how, 3)]
    for L in (2, 3, 4):
        for ks in itertools.product('AFR', repeat=L):
            if set(ks) & set('AR'):
                for nf in (0, 1, 2): jobs.append((''.join(ks), nf, False, 'mixed', 1))
    for L in lens(u, [], 'koopa::opt'):
        if L > 4:
            for ks in ('M' * L, 'F' * L, ('MF' * L)[:L]): jobs += [(ks, nf, False, how, 1) for nf in (1, 3) for how in ('new', 'from')]
    for L in lens(u, [], 'koopa::opt'):
        if L > 3: jobs += [(ks, L, False, 'new', 1) for ks in ('F', 'MF', 'FMF')]

    def job(d, j):
        nonlocal c
        keep, c = c, d
        try: guarded(d, 'order', 'passes %s on %d functions' % (j[0] or 'none', j[1]), lambda: one(*j))
        finally: c = keep
    parallel(c, jobs, job)
    c.floor('situations', len(jobs), 200)
    return c


if __name__ == '__main__':
    main(run)
