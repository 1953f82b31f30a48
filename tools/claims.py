AI = 'static analysis: abstract interpretation of rustc MIR (symbolic access paths, effect summaries)'
CLAIMS = {
 'B01': (AI, 'Every instruction kind with every sort of operand, every type constructor, headers, declarations and constants; list lengths 0..3 and around every constant of the printer. Longer lists follow by uniformity of the loops, not by proof. Names are opaque (B03).'),
 'B02': (AI, 'As B01, against the lowering table; the semantics of LLVM itself is outside.'),
 'B03': (AI, 'Inductive: every NameManager operation from an arbitrary state; scope discipline of the printers on the seeded programs. One known finding on the shared LLVM namespace. Slicing of malformed explicit names is outside.'),
 'B04': (AI, 'Every single write of every seeded program of B01/B02/B05 may fail; each failing path must return that error and stop.'),
 'B05': (AI, 'Seeded programs of up to 3 globals, 5 functions, 4 blocks, 4 instructions per block; larger programs follow by uniformity of the loops, not by proof.'),
 'K07': (AI, 'Interning is decided for an arbitrary kind and pool; the table facts are decided on every type constructor with opaque parts, parameter lists of length 0..3 and nested shapes for sizes. Rc identity, HashMap and thread_local are trusted.'),
 'K10': (AI, 'Every registering, deregistering and lookup entry point of Program is analysed from symbolic tables and program orders of length 0, 1, 2, 9; sound up to the models of std containers.'),
 'K06': (AI, 'Every creation entry point and handle predicate is analysed with symbolic counters; uniqueness follows from atomic read-modify-write counters per sort and disjoint id ranges. Wrap-around after 2^32 handles is outside the claim.'),
 'K09': (AI, 'value_eq and data_eq are analysed on every pair of kinds with operands equal, identical or differing in one place, list lengths 0..3 and nesting depth 2; deeper nesting follows by the structural recursion.'),
 'K04': (AI, 'Every builder call is analysed for every pair of type shapes up to depth 3 with opaque leaves, every operand kind, list lengths 0..4 and missing entities; longer lists and deeper types are covered by uniformity of the code paths, not by proof.'),
 'K05': (AI, 'As K04, on the accepted calls; the stored data is compared field by field with the table of the instruction.'),
 'K01': (AI, 'Every builder, replace, raw and update entry point is analysed for every value kind; the net insert/remove effects on use lists must equal the operand list. Sound up to the models of std containers.'),
 'K02': (AI, 'Every variant of ValueKind is analysed for every list length 0..3, option shape and for lists of unknown length; sound up to the models of std containers.'),
 'K03': (AI, 'Every removal entry point is analysed for every value kind; the net effects on registries and use lists must equal the specified ones. State after a refused removal is not judged.'),
 'K08': (AI, 'Every public mutation of the layout lists is analysed from seeded symbolic layouts; the net effects on the parent table must equal those on the lists. Sound up to the models of std containers and of the key-node-list crate.'),
 'F01': (AI, 'Spellings are computed by constant propagation over the Display impls; the lexer is analysed on each spelling with an arbitrary follower and on arbitrary words (byte sets). Sound up to the models of std, phf and Read.'),
 'F02': (AI, 'The parser is analysed on about 9,500 token sequences: every template of the grammar with each token replaced, removed or preceded by every token class, against a reference grammar; the driver on every sequence of up to 2 (3) items with unknown results and counts. Longer token sequences follow by uniformity of the parser loops, not by proof. Errors of the builder itself are F04/F05.'),
 'F03': (AI, 'Both feature configurations are compiled and analysed: every logging function against one table; lexer on arbitrary bytes, parser on about 9,500 token sequences and driver on unknown results must agree in outcome, items, messages and counts.'),
 'C01': ('static analysis: syntax tree of the C header against types, attributes and layouts of the compiled library; compile-time layout witnesses', 'All declarations of the header and all exported functions; the non-Windows configuration of the header, 64-bit layouts (types are also compared by kind, which carries over to other word sizes).'),
 'C02': (AI, 'Raw programs of about 330 seeded programs (every construct, operand sort, control-flow graph, name class; opaque literals, every operator), walked through their pointers with object identity against the public accessors. Longer lists follow by uniformity of the loops. Names hold no NUL (the lexer refuses it).'),
 'C03': (AI, 'About 400 well-formed raw programs built directly from a reference, with several orders of blocks and functions, and about 70 with one slice, name or signature made wrong. Structures that break the documented requirements otherwise (null where not allowed, arguments used outside their function) are not judged.'),
 'C04': (AI, 'Every exported function returning a code, on every combination of failing and succeeding fallible calls; raw programs with each kind of defect. Reading errors while parsing are reported as InvalidKoopaProgram (accepted).'),
 'C05': ('static analysis: abstract interpretation of rustc MIR with allocation and drop effects; backward data flow of freed pointers', 'Every exported function on every path; the raw builder and reader by a data-flow scan of everything reachable. File descriptors taken by the *_raw functions are not judged.'),
 'C06': (AI, 'Every path of the functions that dump to a buffer, for an arbitrary text, buffer and length.'),
 'F08': (AI, 'Every printed construct of B01 and the seeded programs of B05, with names standing for arbitrary distinct symbols and integers arbitrary; the token sequence is obtained by analysing the lexer on every constant word the printer writes, and the parser is analysed on that sequence.'),
 'O01': (AI, 'Every sequence of module and function passes up to length 4 and around every constant, on 0 to 3 functions; passes are opaque except for adding or removing a function.'),
 'F09': (AI, 'Next_token is analysed on arbitrary bytes that may end or fail anywhere; loops are analysed for the first and a generic later iteration, positions for a table of leading texts. Sound up to the models of std and Read.'),
 'F04': (AI, 'The builder is analysed on 403 syntax trees that partition names: every sort of definition with every class of name, every pair of equal names, every sort of use of unknown and foreign names, uses at a distance over 12 control-flow graphs. Whether a use not dominated by its definition is found is not judged (R04); blocks that cannot be reached are skipped with a warning and their names are not checked. Larger programs follow by uniformity of the loops, not by proof.'),
 'F05': (AI, 'Every statement, initialiser and terminator with an operand of every type shape and literal form in every place (1,281 programs), plus every tree the parser returns for about 8,600 token sequences outside or at the border of the grammar. Deeper types and longer programs follow by uniformity, not by proof.'),
 'F06': (AI, 'Every grammar template and every sequence of the grammar one token away from one against a reference grammar; every well-typed program of F04 and F05 against a reference builder, read back through the public accessors. Literals and operators are opaque. Larger programs follow by uniformity of the loops, not by proof.'),
 'F07': (AI, 'Every place of the grammar that takes a number, with the number known only by range; the ranges partition the 64-bit integers. The lexer is analysed on digit strings of up to 40 arbitrary digits and on boundary spellings. Assumes 64-bit usize.'),
}
NOT = {
 'R01': 'Equality of a printed and re-parsed program quantifies over whole programs and the composition of two recursive traversals with run-time name tables; the per-construct halves are decided by F08, F06, B01 and B03, the composition needs execution or proof.',
 'R02': 'Needs the semantics of LLVM IR and of every Koopa program at run time; the instruction mapping itself is B02.',
 'R03': 'Stack depth and termination depend on the run-time length of the text and on recursion through the input; no sound bound can be read off the source.',
 'R04': 'Dominance is a property of the control-flow graph of the run-time program; the library has no dominance check whose presence could be decided from the source.',
}
