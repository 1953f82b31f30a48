import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))
IR='koopa/src/ir/'; FR='koopa/src/front/'; BK='koopa/src/back/'; LK='libkoopa/src/'
p('K01','Use lists stay exact under every edit of the IR',
 'After any sequence of creating, replacing, updating and removing values through the public API, the users recorded for a value (and for a basic block) are exactly the values whose current operands refer to it. Replacing or updating a value keeps the users of that value itself.',
 ['histories','programs'],'every history of new/replace/update/remove operations over every program, for all 17 kinds of value',
 'The unit tests build two or three small functions; the guarantee quantifies over every edit history and instruction kind.',
 [IR+'dfg.rs',IR+'entities.rs'],[('link/unlink loops around every store of value data',IR+'dfg.rs'),('operand iterators',IR+'entities.rs')],
 [('used_by','set of users of a value or block',IR+'entities.rs')],['ValueData::used_by','BasicBlockData::used_by'])
p('K02','Operand enumeration lists every operand of every instruction',
 'Enumerating the values used by an instruction yields every value operand it holds, each position once, in operand order, and then ends; enumerating the basic blocks it uses yields exactly its branch or jump targets. Constants without elements, argument references and allocations use nothing.',
 ['programs','inputs'],'all value kinds, any number of arguments or elements, every position',
 'Tests only exercise binary instructions; a missed operand in one kind or at one position shows only in programs that have it.',
 [IR+'entities.rs',IR+'values.rs'],[('ValueUses/BasicBlockUses iterators',IR+'entities.rs')],None,['ValueKind::value_uses','ValueKind::bb_uses'])
p('K03','Removal is refused while in use and leaves no dangling entry',
 'Removing a value or basic block that still has users panics, and removing one that exists and is unused deletes it (with the parameters of a removed block) and drops it from the users of its operands. Removing a global value or a function also drops it from the program-level order (the others keep theirs) and type tables, and removing an unknown function reports nothing removed.',
 ['histories'],'every removal at any point of any history',
 'No test removes anything; the guarantee covers every reachable state.',
 [IR+'dfg.rs',IR+'entities.rs'],[('remove_* methods',IR+'dfg.rs'),('Program::remove_value/remove_func',IR+'entities.rs')],None,['DataFlowGraph::remove_value','DataFlowGraph::remove_bb','Program::remove_value','Program::remove_func'])
p('K04','Ill-typed instructions can not be created',
 'Every IR builder method panics, before anything is inserted, on each operand combination its documentation lists as illegal (wrong types, wrong argument counts, unit types, non-constant or mixed aggregate elements, targets with parameters, malformed names). It accepts every other operand combination.',
 ['inputs','programs'],'all builder methods, all operands, types and argument lists',
 'Tests only build well-typed code; each documented panic condition is an untested universally quantified guard.',
 [IR+'builder.rs'],[('assertions ahead of insert_value / insert_bb',IR+'builder.rs')],None,['ValueBuilder','GlobalInstBuilder','LocalInstBuilder','BasicBlockBuilder'])
p('K05','A built value has the documented type, kind and operands',
 'The value a builder method creates has the kind asked for, holds the given operands in their own roles, and has the type the instruction defines (loads yield the pointee, element pointers point to the array base, calls yield the callee result, stores, branches, jumps and returns are unit, and so on). New values are unnamed and have no users; block and function parameters are numbered in order with their declared types and names.',
 ['inputs','programs'],'all builder methods and all operands',
 'Existing tests look at a few printed functions; swapped roles or wrong result types in other instructions are not observed.',
 [IR+'builder.rs',IR+'values.rs',IR+'entities.rs'],[('new_data constructors and accessors',IR+'values.rs'),('builder traits',IR+'builder.rs')],None,['ValueData::ty','ValueData::kind'])
p('K06','Entity handles are unique and global/local handles never mix',
 'Every created function, value and basic block gets a handle different from all handles of its sort created before in the process, from any thread. A handle of a global value is always recognised as global and one of a local value never is.',
 ['histories','schedules'],'any number of creations from any number of threads',
 'Uniqueness is over all histories and interleavings; tests create a handful of entities on one thread.',
 [IR+'idman.rs',IR+'entities.rs',IR+'dfg.rs'],[('atomic counters',IR+'idman.rs')],None,['Value::is_global'])
p('K07','Types are interned: equality is structural and lookups are total',
 'Two types obtained from the library in one thread compare equal exactly when they denote the same type, and equal types hash equally. Type predicates, textual form and size agree with the constructor used; zero-length arrays are refused.',
 ['inputs'],'all type terms of any nesting',
 'The type space is infinite; tests compare a few hand-written types.',
 [IR+'types.rs'],[('thread-local pool behind Type::get',IR+'types.rs')],None,['Type'])
p('K08','The parent block of an instruction follows the layout',
 'An instruction is reported as being in a block exactly while it is in the instruction list of that block in the layout. Removing the instruction, clearing its list, or removing or clearing blocks ends that.',
 ['histories'],'any sequence of list edits on blocks and instructions',
 'Tests insert a few instructions and never remove them.',
 [IR+'layout.rs'],[('InstMap/BasicBlockMap hooks',IR+'layout.rs')],[('inst_bb','instruction to block map',IR+'layout.rs')],['Layout::parent_bb'])
p('K09','Value equality compares type, kind, payload and operands',
 'Two values compare equal only if they have the same type and kind, the same immediate contents (constant, operator, targets, callee, index, operand counts) and pairwise equal operands; a value always equals itself.',
 ['programs'],'all pairs of values in any program',
 'One unit test covers integers and add/sub only.',
 [IR+'dfg.rs'],[('data_eq case table',IR+'dfg.rs')],None,['DataFlowGraph::value_eq','DataFlowGraph::data_eq'])
p('K10','Program tables register each function and global once, in order',
 'Creating a function or global makes it available under its handle, records the function type used for checking calls, connects it to the program, and appends it once to the program order. Two globals or functions keep the order in which they were created.',
 ['histories'],'any sequence of creations',
 'Tests create a few entities in one fixed order.',
 [IR+'entities.rs',IR+'builder.rs'],[('Program::new_func, GlobalBuilder::insert_value',IR+'entities.rs')],None,['Program::func_layout','Program::inst_layout'])
p('F01','Keywords and operators are read and written with the same spelling',
 'Every keyword and binary operator prints as a spelling that the lexer maps back to that same keyword or operator, and no spelling stands for two of them.',
 ['inputs'],'all keywords and operators',
 'Tests use about half of the operators; agreement of the two tables is never compared.',
 [FR+'token.rs',FR+'lexer.rs',IR+'values.rs'],[('KEYWORDS/BINARY_OPS maps',FR+'lexer.rs'),('Display impls',IR+'values.rs')],None,['Keyword','BinaryOp'])
p('F02','Every error reported while parsing makes generation fail',
 'If anything in the text is reported as an error during lexing, parsing or IR generation, the program is not returned, and the error and warning counters tell how many were reported. Every way the front end rejects a construct reports at least one error, in every logging configuration.',
 ['inputs','configurations'],'all input texts, with and without the built-in logger',
 'Tests feed a few malformed inputs; a rejection path that forgets to report silently yields a wrong program.',
 [FR+'driver.rs',FR+'span.rs',FR+'parser.rs',FR+'lexer.rs',FR+'builder.rs'],[('global error counters',FR+'span.rs'),('Driver::generate_program',FR+'driver.rs')],[('STATE','error and warning counters',FR+'span.rs')],['Driver::generate_program'])
p('F03','Both logger configurations count and report the same events',
 'The variant of the front end built without the logger counts exactly the errors and warnings that the logging variant counts, and returns the same error contents.',
 ['configurations','inputs'],'every diagnostic, in both feature configurations',
 'The test suite runs one configuration.',
 [FR+'span.rs',FR+'driver.rs'],[('cfg twins of the logging methods',FR+'span.rs')],None,['Span','Driver'])
p('F04','Names are resolved and duplicates are rejected',
 'While building IR from text, redefining a global, function, block or local name is an error, and using an undefined name of any of these sorts is an error rather than a guess. Each definition is visible under exactly the name written.',
 ['inputs','programs'],'all input programs',
 'Tests contain two invalid programs.',
 [FR+'builder.rs'],[('symbol tables of the front-end builder',FR+'builder.rs')],None,['front::Driver'])
p('F05','Ill-typed text is reported as an error, it never panics the builder',
 'For every instruction in the text, operand types, argument counts and kinds that the IR would refuse are reported as errors before the IR is built, so no text that parses can make the library panic through an IR builder check.',
 ['inputs'],'all input programs that parse',
 'Only well-typed programs are tested.',
 [FR+'builder.rs',IR+'builder.rs'],[('semantic checks in generate_*',FR+'builder.rs')],None,['front::Driver'])
p('F06','Parsed instructions become the IR instruction that was written',
 'Each statement of the text is translated to the instruction of the same name with the operands in the written roles and order (sources and destinations, true and false targets with their own arguments, left and right operands, callee and arguments), placed at the end of the block in which it was written and carrying the written name.',
 ['inputs','programs'],'all statements',
 'Tests compare a few printed programs; symmetrical operands hide swaps.',
 [FR+'parser.rs',FR+'builder.rs'],[('parse_*',FR+'parser.rs'),('generate_*',FR+'builder.rs')],None,['front::Driver'])
p('F07','Literals out of range are rejected, not wrapped',
 'An integer literal that does not fit the 32-bit integer type, or an array length that is not a positive number, is reported as an error; it never silently becomes a different number and never panics.',
 ['inputs'],'all literals',
 'Only small literals are tested.',
 [FR+'lexer.rs',FR+'parser.rs',FR+'builder.rs'],[('literal conversion',FR+'lexer.rs')],None,['front::Driver'])
p('F08','What the printer writes is in the grammar the parser reads',
 'For every instruction, type, global and function header, the sequence of keywords, punctuation and operands written by the Koopa printer is one the parser accepts for that construct and reads back with each operand in the same role, for names and operands the text form can express.',
 ['programs'],'all constructs, any operand list length',
 'Round-trip tests cover a handful of programs.',
 [BK+'koopa.rs',FR+'parser.rs',IR+'types.rs'],[('printer templates vs parser productions',BK+'koopa.rs')],None,['back::KoopaGenerator','front::Driver'])
p('F09','Every byte belongs to one token, comment or gap; nothing is lost',
 'Reading the text token by token, every byte between two tokens is white space or part of a complete comment, and each token carries exactly its own bytes: a symbol its whole name, a word all its adjacent letters and digits, an integer the number its digits denote, any other character itself. Each token span gives the line and column of its first and last character. Text that is no token is refused with a reported error, a read error is a reported fatal error, and the end token comes only at the end.',
 ['inputs','fault_sequences'],'all input bytes and read errors at any point',
 'Tests lex a few well-formed lines; the guarantee is over every byte sequence, every follower of every token and every read failure.',
 [FR+'lexer.rs',FR+'span.rs'],[('Lexer::next_token and its handle_* functions',FR+'lexer.rs'),('Pos::update',FR+'span.rs')],[('last_char','character read ahead',FR+'lexer.rs'),('pos','line and column',FR+'lexer.rs')],['Lexer::next_token'])
p('B01','The Koopa printer writes every instruction completely and in order',
 'The text for each instruction has its own mnemonic, all operands in their roles, and the name of the result exactly when it has one; headers list all parameters with types. No operand, argument or element is dropped, duplicated or reordered.',
 ['programs'],'all instructions, constants, types and argument counts',
 'Tests print a few programs.',
 [BK+'koopa.rs'],[('visit_* templates',BK+'koopa.rs')],None,['KoopaGenerator'])
p('B02','LLVM output uses the matching operation, types and operands',
 'Each instruction is lowered to the LLVM operation with the same meaning (signed division, remainder and comparisons, arithmetic versus logical shift, ...), with operands in their roles and the LLVM types of the operands; block parameters become phis that list, for every predecessor edge, the argument passed on that edge.',
 ['programs'],'all instructions, operators, types and predecessors',
 'One or two LLVM outputs are tested.',
 [BK+'llvm.rs'],[('visit_* templates',BK+'llvm.rs')],None,['LlvmGenerator'])
p('B03','Printed names are unique in scope and stable',
 'Within one output, two different functions, or two different values or blocks of one function scope, never get the same printed name in the same namespace, and every mention of an entity uses the same name. Explicit names are kept when they are free.',
 ['programs'],'all programs, including clashing and missing names',
 'Name clashes depend on the whole set of names in a program.',
 [BK+'generator.rs'],[('NameManager',BK+'generator.rs')],None,['NameManager'])
p('B04','Write errors are reported to the caller',
 'If the output writer fails at any point, generation stops and returns that error; success is returned only when every piece of output was accepted by the writer.',
 ['fault_sequences'],'a write failure at any output position',
 'No test injects write failures.',
 [BK+'generator.rs',BK+'koopa.rs',BK+'llvm.rs'],[('Result propagation in all visitors',BK+'generator.rs')],None,['Generator::generate_on'])
p('B05','Output covers the whole program in layout order, once',
 'A generated output mentions every global instruction and every function in the order of the program, and for every function every block and instruction in layout order, each exactly once; declarations are printed as declarations.',
 ['programs'],'all programs',
 'Only small programs with one or two functions are printed by tests.',
 [BK+'koopa.rs',BK+'llvm.rs'],[('visit loops',BK+'koopa.rs')],None,['KoopaGenerator','LlvmGenerator'])
p('O01','Every registered pass runs once, in order, on everything',
 'Running the passes runs each registered pass exactly once, in the order of registration; module passes get the whole program and function passes are applied to every function of it.',
 ['histories','programs'],'any list of passes and any program',
 'No test registers more than one pass.',
 ['koopa/src/opt/passman.rs','koopa/src/opt/pass.rs'],[('PassManager::run_passes','koopa/src/opt/passman.rs')],None,['PassManager'])
p('C01','The C header describes exactly what the library exports',
 'Every structure, union, enumeration constant and function in the C header has the same layout, values and signature as the definition the library is built with; everything exported is declared and everything declared is exported.',
 ['configurations'],'all declarations of the interface',
 'No test compiles C against the library.',
 ['libkoopa/include/koopa.h',LK+'raw/entities.rs',LK+'raw/ffi.rs',LK+'errors.rs',LK+'driver.rs',LK+'back.rs'],[('repr(C) definitions',LK+'raw/entities.rs')],None,['koopa.h'])
p('C02','The raw program mirrors the program it was built from',
 'The raw (C) form of a program has, for each value, the tag of its kind, its type, its name, and each field taken from the operand of the same role; globals, functions, blocks, instructions, parameters and users appear in the order and multiplicity of the program, and the same entity is always the same raw object.',
 ['programs'],'all programs and kinds',
 'No test builds raw programs.',
 [LK+'raw/builder.rs'],[('RawProgramBuilder',LK+'raw/builder.rs')],None,['koopa_build_raw_program'])
p('C03','Reading a raw program back yields the same program',
 'Converting a raw program to a program builds, for each raw item, the construct with the tag it carries and each field in its own role, in the order of the raw slices; a slice holding items of the wrong sort is refused with an error.',
 ['programs','inputs'],'all raw programs',
 'No test reads raw programs.',
 [LK+'raw/generator.rs'],[('Generate impls',LK+'raw/generator.rs')],None,['koopa_generate_raw_to_koopa'])
p('C04','C calls report failure by code and set outputs only on success',
 'Each C function returns success only if the operation succeeded, returns the documented code for each kind of failure, never turns a failure into success, and writes its output parameters only when it succeeds.',
 ['inputs','fault_sequences'],'all calls and all failures of files, text encodings, parsing and writing',
 'The C interface has no tests.',
 [LK+'driver.rs',LK+'back.rs',LK+'errors.rs',LK+'raw/ffi.rs'],[('unwrap_or_return!',LK+'errors.rs')],None,['koopa_parse_*','koopa_dump_*','koopa_generate_raw_to_koopa'])
p('C05','Handles given to C are released exactly by their delete function',
 'Every object handed to C as an owned handle is heap-allocated once, and the matching delete function frees exactly that object and nothing else; no other C function frees or takes over a handle it is only lent.',
 ['histories'],'every call sequence',
 'The C interface has no tests.',
 [LK+'utils.rs',LK+'driver.rs',LK+'raw/ffi.rs',LK+'back.rs'],[('new_pointer/drop_pointer',LK+'utils.rs')],None,['koopa_delete_program','koopa_delete_raw_program_builder'])
p('C06','Dumping to a caller buffer never overruns it and reports the length',
 'Dumping to a string buffer stores at most the given number of bytes, always ends the stored text with a NUL when a buffer is given, and reports the length of the complete text so that the caller can size the buffer.',
 ['inputs'],'all buffer sizes, null or not, all programs',
 'The C interface has no tests.',
 [LK+'back.rs'],[('dump_to_string',LK+'back.rs')],None,['koopa_dump_to_string','koopa_dump_llvm_to_string'])
p('R01','Printing then parsing a program gives an equal program',
 'For every well-formed program, parsing the text the printer writes gives a program equal to the original up to handle identity.',
 ['programs'],'all programs',
 'Equality of two run-time object graphs over all programs.',
 [BK+'koopa.rs',FR+'builder.rs'],[('printer and parser as a whole',BK+'koopa.rs')],None,['KoopaGenerator','front::Driver'])
p('R02','LLVM output is accepted by LLVM and computes the same results',
 'For every well-formed program the LLVM text verifies and running it gives the results of the Koopa program.',
 ['programs','inputs'],'all programs and inputs',
 'Numerical semantics of two languages over all programs.',
 [BK+'llvm.rs'],[('LLVM lowering as a whole',BK+'llvm.rs')],None,['LlvmGenerator'])
p('R03','The front end uses bounded stack and always terminates',
 'Parsing any text terminates, with stack use independent of the length of comments and of error recovery.',
 ['inputs'],'all texts of any size',
 'Run-time resource bound.',
 [FR+'lexer.rs',FR+'parser.rs'],[('recursive descent',FR+'parser.rs')],None,['front::Driver'])
p('R04','Definitions dominate uses in accepted programs',
 'A parsed program uses a local value only where its definition dominates the use.',
 ['programs'],'all control-flow graphs',
 'Quantifies over paths of the input program.',
 [FR+'builder.rs'],[('breadth-first definition order',FR+'builder.rs')],None,['front::Driver'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    if not x['anchors']['state']: del x['anchors']['state']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
