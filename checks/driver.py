"""Driver::generate_program and the constructors of Driver."""
from parse import *


def driver(c, ir, name=''):
    """generate_program on a parser and builder whose results and error counts are unknown"""
    u = ir.u
    PN, BO, PR = F + 'parser::Parser::<T>::parse_next', F + 'builder::Builder::build_on', F + 'builder::Builder::program'
    f = Parse(ir)
    STAGE = mk('loc', 'stage', 0)

    def errs(st): return App('errors', st.store.get(STAGE, Int(0)))

    def step(e, st, more=0):
        """time passes: the counter may have grown, by at least `more`"""
        a = errs(st)
        lo = st.bnd.get(a, (0, None))[0] or 0
        if e.decide(st, Eq(a, Int(0))) is False: lo = max(lo, 1)
        st.store[STAGE] = add(st.store.get(STAGE, Int(0)), Int(1))
        b = errs(st)
        e.unsigned.add(b)
        st.bnd[b] = (lo + more, None)

    def run(script):
        def parse(e, st, args, C):
            n = st.store.get(POS, Int(0)).a[0]
            st.store[POS] = Int(n + 1)
            k = script[n] if n < len(script) else 'End'
            step(e, st, k in ('Normal', 'Fatal', 'Error'))
            e.effect(st, 'parsed', (Int(n),), C.site)
            if k in ('Normal', 'Fatal'): return [Out(st, 'ret', Adt(C.dtid, 1, f.error(e, k)))]
            return [Out(st, 'ret', Adt(C.dtid, 0, f.ast(k, n)))]

        def build(e, st, args, C):
            step(e, st)
            a = models.lastptr(e, st, args[1])
            root, path = e.to_place(a)
            e.effect(st, 'built', (e.canon(st, e._adt_field(e.canon(st, e.read(st, root, path)), 'span')),), C.site)
            return [Out(st, 'ret', UNIT)]

        def nerr(e, st, args, C): return [Out(st, 'ret', errs(st))]

        def prog(e, st, args, C):
            e.effect(st, 'program', (), C.site)
            return [Out(st, 'ret', App('program'))]

        def log(e, st, args, C):
            step(e, st, 1)
            return [Out(st, 'ret', f.error(e, 'Normal'))]
        nop = lambda e, st, a, C: [Out(st, 'ret', UNIT)]
        e = Eng(u, opaque={PN: parse, BO: build, PR: prog, SPAN + 'error_num': nerr, SPAN + 'warning_num': lambda e, st, a, C: [Out(st, 'ret', Sym('warnings'))], SPAN + 'log_global': nop,
                           SPAN + 'log_warning': nop, SPAN + 'log_raw_warning': nop, **{SPAN + x: log for x in ('log_raw_error', 'log_raw_fatal_error', 'log_error', 'log_fatal_error')}})
        e.cells = (POS, STAGE)
        st = St.new()
        e.unsigned |= {errs(st), Sym('warnings')}
        return e, e.run(ir.fn('front::generate_program'), [Sym('driver')], st)

    import itertools
    for l in range(4):
        for body in itertools.product(('GlobalDef', 'FunDef', 'FunDecl', 'Error') if l < 3 else ('FunDef', 'Error'), repeat=l):
            for last in ('End', 'Normal', 'Fatal'):
                e, outs = run(list(body) + [last])
                c.ran(e, outs)
                label = 'items %s' % ', '.join(body + (last,))
                oks = 0
                for o in outs:
                    site = o.st.eff[-1].site if o.st.eff else o.site
                    v = e.canon(o.st, o.val) if o.kind == 'ret' else None
                    if v is None or v.op != 'adt':
                        c.ob('driver', label + name, False, 'no result: ' + show_out(e, o), o.site or site)
                        continue
                    ok = v.a[1] == 0
                    none = e.decide(o.st, Eq(errs(o.st), Int(0)))
                    if ok:
                        oks += 1
                        built = [x.args[0] for x in o.st.eff if x.name == 'built']
                        want = [Sym('span%d' % i) for i, k in enumerate(body)]
                        keep = [Sym('span%d' % i) for i, k in enumerate(body) if k != 'Error']
                        c.ob('driver', label + name, last == 'End' and none is True and 'Error' not in body, 'a program is returned although errors were counted: ' + show_out(e, o), site)
                        c.ob('driver', label + name, built == want and e.canon(o.st, v.a[2]) is App('program'), 'returned, but built %s' % ' '.join(map(show, built)), site)
                if last == 'End' and 'Error' not in body: c.ob('driver', label + name, oks > 0, 'no program is ever returned', outs[0].site if outs else None)

    # construction: counters are reset for the source before the parser reads its first token
    FT = ir.variants(F + 'span::FileType')
    for root, arg, want in (('driver_new', [Sym('ft'), Sym('reader')], None), ('from_path', [Sym('path')], 'File'), ('from_stdin', [Sym('stdin')], 'Stdin'), ('from_string', [Sym('s')], 'Buffer'), ('from_str', [Sym('s')], 'Buffer')):
        def ctor():
            def reset(e, st, args, C):
                e.effect(st, 'reset', (e.canon(st, args[0]),), C.site)
                return [Out(st, 'ret', UNIT)]

            def first(e, st, args, C):
                e.effect(st, 'first', (), C.site)
                s = st.copy()
                return [Out(st, 'ret', Adt(C.dtid, 0, App('parser'))), Out(s, 'ret', Adt(C.dtid, 1, f.error(e, 'Normal')))]
            e = Eng(u, opaque={SPAN + 'reset': reset, F + 'parser::Parser::<T>::new': first})
            outs = e.run(ir.fn('front::' + root), arg, St.new())
            c.ran(e, outs)
            made = 0
            for o in outs:
                ev = [x for x in o.st.eff if x.name in ('reset', 'first')]
                failed = any(k.op == 'app' and k.a[0] == 'failed' and v for k, v in o.st.conds)
                if not ev and failed and root == 'from_path': continue
                made += 1
                good = o.kind == 'ret' and [x.name for x in ev] == ['reset', 'first']
                if good:
                    a = ev[0].args[0]
                    good = a is Sym('ft') if want is None else a.op == 'adt' and FT[a.a[1]] == want and (want != 'File' or 'path' in show(a))
                c.ob('start', root + name, good, 'is not reset for its source before reading: ' + show_out(e, o), ev[0].site if ev else o.site)
            c.ob('start', root + name, made > 0, 'never makes a driver')
        guarded(c, 'start', root, ctor)
