"""B05: the printers write every placed entity of the program once, in layout order."""
from printers import *
from B01 import check_texts
RULES = {'text': 'every placed global, function, block and instruction is written once, in layout order, and nothing else is', 'ok': 'printing succeeds when the writer accepts everything', 'floor': 'number of analysed programs'}


def run():
    c = Check('B05', 'Abstract interpretation of the MIR of both printers on seeded programs of 0..3 globals, 0..5 functions (declared, defined, registered without being placed), 0..4 blocks and 0..4 instructions per block, '
              'with the tables holding the entities in another order than the layout.', RULES, ['names come from the NameManager (B03)', 'models of std::fmt and io::Write (engine/models.py)'])
    u = univ()
    ir = IR(u)
    n = 0
    for K, tag in ((Koopa(ir), 'Koopa'), (Llvm(ir), 'LLVM')):
        n += check_texts(c, u, ir, K, [('%s: %s' % (tag, con), f) for con, f in orders(ir)])
    c.floor('programs', n, 50)
    return c


if __name__ == '__main__': main(run)
