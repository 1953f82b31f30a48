"""K04: every builder panics before inserting anything on documented illegal operands, and accepts all others."""
from builders import *

RULES = {'refuse': 'a documented illegal combination panics on every path', 'clean': 'nothing is inserted before the panic',
         'accept': 'every other combination completes', 'floor': 'number of cases analysed'}


def quiet(effs):
    return [x for x in effs if not x.name.startswith('atomic')]


def judge(c, con, detail, e, outs, legal, clean=True):
    c.ran(e, outs)
    bad = [o for o in outs if (o.kind == 'ret') != legal]
    c.ob('accept' if legal else 'refuse', con, bool(outs) and not bad, '%s: %s\n%s' % (detail, 'expected to be accepted' if legal else 'expected to be refused',
         '\n'.join(show_out(e, o) for o in bad[:3])), bad[0].site if bad else None)
    if not legal and clean:
        for o in outs:
            if o.kind == 'panic':
                q = quiet(o.st.eff)
                c.ob('clean', con, not q, '%s: inserted before the panic: %s' % (detail, q[:3]), q[0].site if q else None)


def run():
    c = Check('K04', 'Abstract interpretation of the MIR of every builder method (local, replacing and global), of block and function constructors and of naming, for each '
              'enumerated combination of operand types, kinds, places and list lengths; the outcome (panic or insertion) is compared with the documented legality.', RULES,
              ['type shapes to depth 3 with opaque leaves stand for all types: the checks compare constructors to depth 2 and equality', 'list lengths 0..4',
               'Type::get is the identity on type kinds (K07)', 'models of std (engine/models.py)'])
    u = univ()
    ir = IR(u)
    n = 0
    for ctxs, method, con, detail, make in value_cases(ir):
        for ctx in ctxs:
            n += 1
            def one():
                e, w, outs, expect, args = run_case(u, ir, ctx, method, make)
                judge(c, '%s %s' % (ctx, con), detail, e, outs, expect is not None)
            guarded(c, 'accept', '%s %s' % (ctx, con), one)
    for root, detail, args, expect in block_cases(ir):
        n += 1
        def blk():
            e = Eng(u, opaque=TYPE_GET)
            w = Local(ir, e)
            outs = e.run(ir.fn(root), [w.d] + args, w.st)
            judge(c, root, detail, e, outs, expect is not None)
        guarded(c, 'accept', root, blk)
    for root, detail, args, expect in func_cases(ir):
        n += 1
        def fn():
            e = Eng(u, opaque=TYPE_GET)
            outs = e.run(ir.fn(root), args)
            judge(c, root, detail, e, outs, expect is not None, clean=False)
        guarded(c, 'accept', root, fn)
    for name, ok in [(None, 1)] + NAMES:
        n += 2
        def lname():
            e = Eng(u, opaque=TYPE_GET)
            w = Local(ir, e)
            x = w.value('x', 'local')
            judge(c, 'dfg::set_value_name', 'name %r' % (name,), e, e.run(ir.fn('dfg::set_value_name'), [w.d, x, ostr(ir, name)], w.st), bool(ok))
        guarded(c, 'accept', 'dfg::set_value_name', lname)
        def gname():
            e = Eng(u, opaque=TYPE_GET)
            w = Global(ir, e)
            x = w.value('x')
            judge(c, 'program::set_value_name', 'name %r' % (name,), e, e.run(ir.fn('program::set_value_name'), [w.p, x, ostr(ir, name)], w.st), bool(ok))
        guarded(c, 'accept', 'program::set_value_name', gname)
    c.floor('builder calls analysed', n, 4500)
    return c


if __name__ == '__main__':
    main(run)
