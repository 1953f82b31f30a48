"""B02: every Koopa instruction is written as the LLVM instruction of the lowering, with its own operands and types."""
from printers import *
from B01 import check_texts
RULES = {'text': 'the text written for the program is, piece by piece, the one of the lowering table with its own operands and types', 'ok': 'printing succeeds when the writer accepts everything', 'floor': 'number of analysed programs'}


def run():
    c = Check('B02', 'Abstract interpretation of the MIR of the LLVM printer on seeded programs with opaque names: every instruction kind with every sort of operand, types of every constructor, list lengths 0..3 and those around every constant in the printer, '
              'block parameters as phi nodes over every predecessor, callees before and after the caller. The concatenation of the written pieces is compared with the lowering table, name by name (entity and sigil).', RULES,
              ['names come from the NameManager (B03)', 'models of std::fmt and io::Write (engine/models.py)', 'order of the incoming edges of a phi is free'])
    u = univ()
    ir = IR(u)
    cs = list(cases(ir, ('koopa::back::llvm', 'koopa::back::generator')))
    n = check_texts(c, u, ir, Llvm(ir), cs)
    c.floor('programs', n, 200)
    return c


if __name__ == '__main__': main(run)
