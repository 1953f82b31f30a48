"""B04: a printer reports every failed write as that error, at once, and writes to its own writer only."""
from printers import *
RULES = {'err': 'a failed write ends the call with Err of that very error', 'stop': 'nothing is written after a failed write', 'writer': 'every piece is written to the writer of the generator',
         'ok': 'Ok is returned only when no write failed', 'floor': 'numbers of analysed programs and write failures'}


def run():
    c = Check('B04', 'Abstract interpretation of the MIR of both printers on the seeded programs of B01/B02/B05, where every single write may fail: each failing path must return that error unchanged, write nothing more and not panic.', RULES,
              ['a write that fails writes nothing that matters', 'models of std::fmt and io::Write (engine/models.py)'])
    u = univ()
    ir = IR(u)
    n = nf = 0
    gw = {}
    for K, tag, mods in ((Koopa(ir), 'Koopa', ('koopa::back::koopa', 'koopa::back::generator')), (Llvm(ir), 'LLVM', ('koopa::back::llvm', 'koopa::back::generator'))):
        cs = [x for x in cases(ir, mods)]
        for con, mkd in cs + list(orders(ir)):
            con = '%s: %s' % (tag, con)

            def one():
                nonlocal nf
                e = Eng(u)
                d = D(ir, e)
                mkd(d)
                outs, res = generate(d, K.root, d.build())
                c.ran(e, outs)
                fails = 0
                for o, w, failed, after in res:
                    v = e.canon(o.st, o.val) if o.kind == 'ret' else None
                    var = u.variant(v.a[0], v.a[1])['n'] if v is not None and v.op == 'adt' else None
                    for x in o.st.eff:
                        if x.name != 'out': continue
                        gw.setdefault(tag, x.args[0])
                        c.ob('writer', con, x.args[0] is gw[tag] and x.args[0].op == 'fld' and x.args[0].a[0] is Sym('g'), 'text goes to %s' % show(x.args[0]), x.site)
                    if failed is None:
                        c.ob('ok', con, var == 'Ok', show_out(e, o, 3), o.site)
                        continue
                    fails += 1
                    c.ob('err', con, var == 'Err' and v.a[2] is failed.args[1], 'after a failed write: %s' % show_out(e, o, 3), failed.site)
                    c.ob('stop', con, not after and not any(x.name == 'iofail' and x is not failed for x in o.st.eff), 'writing goes on after a failed write', failed.site)
                nf += fails
                c.sample('%s: %d failing paths' % (con, fails))
            guarded(c, 'err', con, one)
            n += 1
    c.floor('programs', n, 400)
    c.floor('failing writes', nf, 5000)
    return c


if __name__ == '__main__': main(run)
