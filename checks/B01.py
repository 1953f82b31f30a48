"""B01: the text printed for every Koopa instruction, header and constant is complete and in role order."""
from printers import *
RULES = {'text': 'the text written for the program is, piece by piece, the one of the grammar with its own operands', 'ok': 'printing succeeds when the writer accepts everything', 'floor': 'number of analysed programs'}


def run():
    c = Check('B01', 'Abstract interpretation of the MIR of the Koopa printer on seeded programs with opaque names and types: every instruction kind with every sort of operand, list lengths 0..3 and those around every constant in the printer, '
              'headers, declarations, globals and constants. The concatenation of the written pieces is compared with the text of the grammar, name by name.', RULES,
              ['names come from the NameManager (B03)', 'type text is K07', 'models of std::fmt and io::Write (engine/models.py)'])
    u = univ()
    ir = IR(u)
    K = Koopa(ir)
    n = check_texts(c, u, ir, K, cases(ir, ('koopa::back::koopa', 'koopa::back::generator')))
    c.floor('programs', n, 200)
    return c


def check_texts(c, u, ir, K, cs):
    n = 0
    for con, mkd in cs:
        def one():
            e = Eng(u)
            d = D(ir, e)
            mkd(d)
            st = d.build()
            outs, res = generate(d, K.root, st)
            c.ran(e, outs)
            want = [tuple(reprefix(K, x) for x in l) for l in lines(K.text(d))]
            ok = 0
            for o, w, failed, after in res:
                if failed is not None: continue
                v = e.canon(o.st, o.val)
                good = o.kind == 'ret' and v.op == 'adt' and u.variant(v.a[0], v.a[1])['n'] == 'Ok'
                c.ob('ok', con, good, show_out(e, o, 4), o.site)
                if not good: continue
                ok += 1
                got = [tuple(reprefix(K, x) for x in l) for l in clean(d, w, K.table())]
                diff = compare(want, got)
                site = None
                if diff: site = ([x.site for x in o.st.eff if x.name == 'out' and 'rustlib' not in (x.site or '')] or [o.site])[-1]
                c.ob('text', con, diff is None, diff or '', site)
            c.ob('ok', con, ok >= 1, 'no successful outcome')
            c.sample('%s: %d lines' % (con, len(want)))
        guarded(c, 'text', con, one)
        n += 1
    return n


if __name__ == '__main__': main(run)
