"""C02: the raw program mirrors the program it was built from."""
from rawlib import *

RULES = {'mirror': 'the raw program has exactly the objects of the program, in order, with their names, types, kinds, operands, arguments and users; an entity is one raw object wherever it is referred to',
         'owned': 'every object, item list and text that is reachable from the raw program is kept by the builder', 'twice': 'building again, or building another program, with the same builder gives a right raw program and leaves the first one right',
         'panic': 'building a raw program never panics', 'floor': 'number of programs'}




def raw(f, R, st, e, builder, p):
    """outcomes of building the raw program of p"""
    return e.run(R.fns['koopa_build_raw_program'], [builder, p], st)


def begin(d, f, items, rev=False):
    e, b, outs = f.build(items, rev)
    if len(outs) != 1 or outs[0].kind != 'ret': raise Imprecise('the program can not be built: %d outcomes' % len(outs))
    return e, b, outs[0].st


def newbuilder(R, e, st):
    outs = e.run(R.fns['koopa_new_raw_program_builder'], [], st)
    if len(outs) != 1 or outs[0].kind != 'ret': raise Imprecise('koopa_new_raw_program_builder: ' + ' / '.join(show_out(e, o)[:100] for o in outs))
    return outs[0].val, outs[0].st


def compare(d, R, e, o, rd, builder, rule, n, val=None):
    try:
        c = Compare(R, e, o.st, rd)
        c.program(o.val if val is None else val)
        d.ob(rule, n, True)
        try:
            c.finish(builder)
            d.ob('owned' if rule == 'mirror' else rule, n, True)
        except Mismatch as x: d.ob('owned' if 'kept by' in str(x) and rule == 'mirror' else rule, n, False, str(x), o.site)
    except Mismatch as x: d.ob(rule, n, False, str(x), o.site)
    except Odd as x: raise Imprecise(str(x))


def one(d, f, R, t, rev=False, loose=False):
    items, ok = reference(toks(t))
    n = t.replace(DECLS, '..').replace(PARAMS, '..').replace(' ;', '') + (' with unplaced entities' if loose else '') + (' (other order of hash tables)' if rev else '')
    e, b, st = begin(d, f, items, rev)
    rd = Reader(f, e, b, st)
    R.setup(e)
    if loose: unplaced(f, e, rd)
    builder, st = newbuilder(R, e, rd.st)
    outs = raw(f, R, st, e, builder, rd.p)
    d.ran(e, outs)
    for o in outs:
        d.ob('panic', n, o.kind == 'ret', 'panics: %s' % show(o.val)[:200], o.site)
        if o.kind != 'ret': continue
        compare(d, R, e, o, rd, builder, 'mirror', n)


def unplaced(f, e, rd):
    """instructions, blocks and constants that are in no layout, using what is"""
    fs = rd.items(rd.call('program::func_layout', rd.p))
    for x in fs:
        d = rd.call('program::func_mut', rd.p, x)
        ps = rd.items(rd.call('data::func_params', d))
        lay = rd.call('data::func_layout', d)
        bbs = rd.items(rd.call('keys::bbs', lay))
        if not bbs: continue
        for v in [v for v in ps + rd.items(rd.call('keys::insts', lay, bbs[0])) if rd.ty(rd.call('data::ty', rd.call('dfg::value', d, v))) == INT]:
            a = rd.call('local::binary', d, v, f.ir.variant('koopa::ir::values::BinaryOp', 'Sub'), v, v)
            rd.call('local::binary', d, v, f.ir.variant('koopa::ir::values::BinaryOp', 'Xor'), v, a)
        for g in rd.items(rd.call('program::inst_layout', rd.p)): rd.call('local::load', d, g, g)
        b = rd.call('block::basic_block', d, f.ir.option(e.pointee(f.ir.fn('data::bb_name')['locals'][0]), None))
        rd.call('local::jump', d, b, b)
        if len(bbs) > 1 and not rd.items(rd.call('data::bb_params', rd.call('dfg::bb', d, bbs[1]))): rd.call('local::jump', d, b, bbs[1])


def two(d, f, R, ta, tb):
    """both programs with one builder, then the first once more"""
    n = 'one builder: %s / %s' % (ta.replace(' ;', ''), tb.replace(' ;', ''))
    e, b, st = begin(d, f, reference(toks(ta))[0])
    rd = Reader(f, e, b, st)
    R.setup(e)
    b2 = None
    o, = e.run(f.ir.fn('front::builder_new'), [], rd.st)
    b2, st = e.heap(o.st, e.canon(o.st, o.val)), o.st
    for k, it in enumerate(reference(toks(tb))[0]):
        o, = e.run(f.ir.fn('front::build_on'), [b2, e.heap(st, f.node(it, (k,)))], st)
        st = o.st
    rd2 = Reader(f, e, b2, st)
    builder, st = newbuilder(R, e, rd2.st)
    vals = []
    for p in (rd, rd2, rd, rd2):
        outs = raw(f, R, st, e, builder, p.p)
        d.ran(e, outs)
        for o in outs: d.ob('panic', n, o.kind == 'ret', 'panics: %s' % show(o.val)[:200], o.site)
        outs = [o for o in outs if o.kind == 'ret']
        if len(outs) != 1: return
        o = outs[0]
        st = o.st
        vals.append((p, o.val))
    for p, v in vals: compare(d, R, e, o, p, builder, 'twice', n, v)


def run():
    c = Check('C02', 'Abstract interpretation of the MIR of koopa_new_raw_program_builder and koopa_build_raw_program on programs that cover every construct (every statement, initialiser, operand sort, control-flow graph and name class of the language, and entities in no layout), '
              'with raw structures, texts and item lists as objects with an identity. The raw program is walked together with the program, object by object, the program being read through its public accessors. Literals are opaque.', RULES,
              ['std containers, boxes and CString behave as documented', 'names contain no NUL (the lexer accepts none)', 'the program is not changed between two builds with one builder'])
    u = univ('libkoopa')
    f = RawBuild(IR(u))
    R = RawRun(f)
    jobs = []
    for t in dict.fromkeys([*typed(), *named(), *mixed(3 if c.tier == 'thorough' else 2, False), *CFGS.values()]):
        items, ok = reference(toks(t))
        s = Sem(items)
        if not s.errors and not s.grey: jobs.append(('one', t))
    for t in CFGS.values():
        if not Sem(reference(toks(t))[0]).grey: jobs += [('rev', t), ('loose', t)]
    gs = [t for t in CFGS.values() if not Sem(reference(toks(t))[0]).grey]
    jobs += [('two', a, b) for a, b in zip(gs, gs[1:] + gs[:1])] + [('two', gs[0], gs[0])]
    jobs += [('lens', t) for t in LENGTHS]
    jobs += [('op', k) for k in range(len(BINOPS))]
    big = [('big', w, t) for n in (40, 258) for w, t in BIG(n) if w != 'blocks' and (c.tier == 'thorough' or n == 40 or w not in ('users', 'globals'))]
    jobs = spread(jobs, big[::-1])

    def go(d, j):
        def g():
            if j[0] == 'two': return two(d, f, R, j[1], j[2])
            if j[0] == 'op':
                f.shift = j[1]
                one(d, f, R, CFGS['diamond'] if j[1] else CFGS['several functions'])
                one(d, f, R, 'fun @f ( %a : i32 , %b : i32 ) : i32 { ; %e : ; %x = op %a , %b ; ret %x ; }')
                f.shift = 0
                return
            f.ranges = LENS if j[0] == 'lens' else {}
            one(d, f, R, j[-1], j[0] == 'rev', j[0] == 'loose')
        guarded(d, 'mirror', ' '.join(map(str, j))[:200], g)
    parallel(c, jobs, go)
    c.floor('programs', len(jobs), 340)
    for j in [j for j in jobs if j[0] == 'one'][:3]: c.sample(j[1])
    return c


if __name__ == '__main__': main(run)
