PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, **anch):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **anch), technique=technique, note=note, na=na))


P('P01', 'Assembler and linker give every expression operator the same documented meaning',
  'Every operator and function applied to two numbers (or, for the comparisons, two strings) yields the documented result, is negated when written with a leading minus, and yields it identically '
  'whether the assembler or the linker evaluates it; a zero divisor, the root of a negative number or an arc function outside [-1, 1] is an error, and operands inside the domain never are. '
  'The table of operator priorities orders the operators as documented. Not covered: the bank operators and bitwise NOT, how the infix text is parsed.',
  ['inputs', 'programs'], 'all operand values of every operator, in every assembler build and in both value lanes of the linker',
  'The tests evaluate a handful of constants per operator, mostly in the assembler only; the linker copy of the calculator is almost untested and the two copies drift apart (min() and pow() had).',
  ['stack.c', 'wlalink/write.c', 'doc/arithmetics.rst'],
  [('assembler calculator', 'stack.c compute_stack()'), ('linker calculator', 'wlalink/write.c compute_stack()'), ('operator priorities', 'stack.c priority table')],
  'gated value numbering (dataflow) of the calculator transfer functions, compared per operator with a table of documented meanings',
  'Structural: decides the per-operator transfer function, its failing exits and the priority table; the infix parser is not analysed, NOT and BANK are excluded.')

P('P02', 'An error reported by an assembler always makes the assembly fail',
  'Whenever an assembler (any wla-*, run without -c) reports an error - anything printed as an error, not a warning or a notice - its exit status is non-zero: no error, wherever in parsing, '
  'expansion, calculation, encoding or output it is found, and however deep in the call graph, is swallowed on its way to main().',
  ['inputs', 'call graph', 'programs'], 'all error reports and all call chains from them up to main(), in all 16 assemblers',
  'Tests mostly assemble correct sources; of the ~900 error reports per assembler only a few are exercised, and a build system only sees the exit status. 40-odd swallowed errors were found and repaired.',
  ['main.c', 'parse.c', 'decode.c', 'directive_main.c', 'phase_1.c', 'phase_3.c', 'phase_4.c', 'stack.c', 'include.c'],
  [('error reports', 'print_error() / print_text(YES, ...)'), ('propagation', 'return FAILED checks at every call'), ('exit status', 'main.c main()')],
  'interprocedural error-propagation (typestate) analysis: conditional constant propagation behind every error report and every failing call',
  'Sound per call edge up to listed exemptions (try-parse and notice sites, each with its reason); function pointers and -c excluded.')

P('P03', 'An error reported by the linker always makes the link fail',
  'Whenever wlalink (or wlab) reports an error - anything printed as an error, not a warning or a notice such as an overwrite or a discarded section - its exit status is non-zero: no error found while '
  'reading files, placing sections, resolving references and calculations, computing checksums or writing output is swallowed on its way to main().',
  ['inputs', 'call graph'], 'all error reports of wlalink and wlab and all call chains from them up to main()',
  'Tests link correct projects; a build system only sees the exit status, and a ROM written in spite of an error is only noticed when it does not run.',
  ['wlalink/main.c', 'wlalink/write.c', 'wlalink/memory.c', 'wlalink/compute.c', 'wlalink/analyze.c', 'wlalink/parse.c', 'wlalink/files.c', 'wlab/main.c'],
  [('error reports', 'print_text(YES, ...)'), ('propagation', 'return FAILED checks at every call'), ('exit status', 'wlalink/main.c main()')],
  'interprocedural error-propagation (typestate) analysis: conditional constant propagation behind every error report and every failing call',
  'Sound per call edge up to listed exemptions (search loops, each with its reason).')

P('P04', 'All assembler passes agree on the internal data stream',
  'Every record the parser and the instruction encoders write into the assembler\'s internal data stream is understood by each later pass (address assignment, code generation, list file collection, '
  'address scan for .ALIGN/orga()/label differences): it consumes exactly the fields written, with their types, advances its address counters by the same number of bytes as the other passes, and the '
  'multi-byte constants and resolved calculations leave code generation in the byte order of the target.',
  ['inputs', 'programs'], 'all record shapes written anywhere in the 16 assemblers x all passes that read the stream',
  'A record is read wrongly only when a rare directive, operand kind, CPU and option (-i, .ALIGN, A-B) meet; three such combinations were broken and are repaired.',
  ['phase_1.c', 'decode.c', 'phase_3.c', 'phase_4.c', 'stack.c', 'listfile.c'],
  [('writers', 'fprintf(g_file_out_ptr, ...) in phase_1.c, decode.c, parse.c, include_file.c'), ('address assignment', 'phase_3.c phase_3()'), ('code generation', 'phase_4.c phase_4()'),
   ('address scan', 'stack.c data_stream_parser_parse()'), ('list file', 'listfile.c listfile_collect()')],
  'abstract interpretation of each pass on every record template extracted from the writers (protocol conformance, symbolic byte counts, byte order)',
  'All templates and passes; section/origin/structure control records (A S s P p O B e) are checked for parsing but not for their effect on the address; .BITS records are not compared with code generation; '
  'list file counters inside .DSTRUCT are not decided.')

P('P05', 'The linker writes every resolved reference and calculation correctly',
  'Every outside reference and every pending calculation the linker resolves - in ROM data and in bank header sections - is written at its own place (its offset in its section plus the address of the section '
  'and the start of its bank), over as many bytes as its type says, in the byte order of the object file it comes from (13-bit fields always little-endian, byte-swapped where the source asked for it), as the value of '
  'the label, definition or calculation (8- and 16-bit relative ones as the distance from the byte after the field, one less for 16-bit ones on the 65CE02; 24-bit ones with the bank of a label; RST operands as the '
  'opcode of their target); calculations, definitions, 8-, 9- and 13-bit and relative references that do not fit their field are errors, and every value that fits is accepted.',
  ['inputs', 'programs'], 'all reference and calculation types, byte orders and target values',
  'A wrong width, order, place or range shows only for one combination of field type, CPU, section kind and value; three (definitions in 8-, 16- and 24-bit fields, RST of an external definition) were broken and are repaired.',
  ['wlalink/write.c'],
  [('references', 'wlalink/write.c fix_references(), write_bank_header_references()'), ('calculations', 'wlalink/write.c compute_pending_calculations(), write_bank_header_calculations()'),
   ('RST', 'wlalink/write.c _handle_special_case()')],
  'abstract interpretation with symbolic addresses: per field type, every path\'s writes are decomposed into bytes of one named value with its interval, and compared with the field specification',
  'Bank number requests are checked for value and place but not for range; 16-, 24- and 32-bit references to labels are not range-checked by design. The packing of .BITS fields is checked for value, place and range, not bit by bit.')

P('P06', 'The linker reads object and library files exactly as the assembler wrote them',
  'Every object or library file an assembler writes is accepted by wlalink and read completely, record for record: source files, definitions, labels and symbols, references, calculations with all their items, sizes of labels, '
  'appendto/after orders, list file data, ROM bank map, memory slots, sections with all their settings and contents, and every used byte of the ROM image at its address. Each record arrives once, with every field as it was '
  'written; no read leaves the file. The settings of the header (checksums, tags, SNES mode, speed and SRAM size, SMC header, byte order, CPU, empty fill, SMS header base) reach the linker, '
  'wherever in the list of objects the file stands.',
  ['inputs', 'programs'], 'all record kinds and types, numbers of records, values and header settings, object and library files',
  'Writer and reader are two hand-kept mirror images without a length or a check: a field swapped, narrowed or skipped in one shows only in a project that uses that record (slots of size 0 and mixed-CPU SMS projects were broken).',
  ['phase_4.c', 'listfile.c', 'wlalink/analyze.c', 'wlalink/check.c', 'wlalink/listfile.c'],
  [('writers', 'phase_4.c write_object_file(), write_library_file(), export_definitions(), export_source_file_names(); listfile.c listfile_globals_write(), listfile_block_write()'),
   ('readers', 'wlalink/check.c check_headers(); wlalink/analyze.c obtain_*(), collect_dlr(), parse_data_blocks(); wlalink/listfile.c listfile_block_read*()')],
  'abstract interpretation of the writer over two symbolic records of every kind gives the file as bytes of named values; the reader is interpreted over these bytes and the records compared field by field',
  'Two records of one kind at a time (every type and status), strings of one symbolic character, one-byte fields with values of 0-255. The settings of the ROM speed and the empty fill of the last object win over earlier ones (as the linker warns).')

P('P07', 'Each instruction is assembled to the machine code of its processor',
  'For the 6502, 65C02, 65CE02, 65816, HuC6280, 6800, 6801, 6809, 8008, 8080, Z80, Z80N, Game Boy, SPC700 and SuperFX, every instruction and addressing mode the assembler knows is assembled to the opcode, prefix and '
  'post bytes and the operand fields (order, width, byte order, range) of that processor\'s reference, whether the operand is a number, a label or a calculation; branches take distances, other operands do not. '
  'A number that does not fit its field is never encoded in it; every number that fits is accepted by one of the forms of the instruction; of the forms of several widths the size asked for, or else the shortest that '
  'holds the number, is used; no form is hidden by an earlier entry; REP and SEP set the operand sizes in force. No opcode and no spelling the assembler has is lost. Not covered: the 68000.',
  ['inputs', 'programs'], 'all entries of the 15 instruction tables x all operand kinds, numbers, size hints and size settings',
  'About 13,000 entries share some 150 hand-copied parser cases; the tests assemble a small part of them with one operand each. Some 200 entries were wrong (65816 COP, 8008 LMI, STZ.W n,X, 65CE02 ASR n,X, 6801 LSL n,X, '
  'immediates of D on the 6801 and of 16-bit registers on the 6809, unchecked 16- and 24-bit ranges, labels taken as distances) and are repaired.',
  ['decode.c', 'i6502.c', 'i65816.c', 'iz80.c', 'i6809.c', 'instruction_table_generator/main.c'],
  [('decoder', 'decode.c evaluate_token()'), ('tables', 'i<cpu>.c g_instructions_table'), ('lookup', 'instruction_table_generator/main.c main()')],
  'abstract interpretation of evaluate_token() on every table entry with symbolic operands; the emitted fields, with their intervals, are compared with an independent statement of each instruction set',
  'One operand text at a time: what the operand parser makes of a text is P01; the oracle (lib/isa) is written from the reference manuals. The 68000 (its encoder computes the words) is not covered.')

P('P08', 'A failed allocation or file open is reported and its NULL is never used',
  'Whenever memory cannot be allocated or a file cannot be opened, the assemblers, the linker and wlab go on without ever using the missing object, and the run ends in a failure whose exit status is not zero. '
  'The exceptions are files that are only looked for (.IFEXISTS, exists(), library search), files that do not exist yet while makefile rules are made (-M), and the tidying up at exit.',
  ['fault_sequences', 'inputs'], 'each allocation and each open of all programs failing, at any point of any run',
  'No test makes an allocation fail; a few tests name missing files. Some 30 of the 200 allocations were not tested, or wrote through NULL (repaired).',
  ['main.c', 'phase_1.c', 'phase_2.c', 'phase_3.c', 'stack.c', 'include.c', 'hashmap.c', 'wlalink/main.c', 'wlalink/analyze.c', 'wlalink/write.c', 'wlalink/files.c', 'wlalink/listfile.c', 'wlab/main.c'],
  [('NULL tests', 'behind every malloc(), calloc(), realloc() and fopen()'), ('failure propagation', 'FAILED results up to main()')],
  'forward may-dataflow of the NULL of every allocation and open through values and memory cells, with function summaries; outcome analysis of the tests that find it, propagated over the call graph to the exit status',
  'Each failure is taken alone; two different access paths are taken as different cells; a NULL kept in a structure is followed within the function and what it calls, and must have been tested before the function returns.')

P('P09', 'Output that could not be written completely makes the run fail',
  'When any of the data of an object, library, makefile rule, ROM, symbol or listing file, or of the assembler\'s temporary data stream, cannot be written (the disk is full, a quota or I/O error), the program reports it and its exit status is not zero; '
  'the temporary data stream is never read back after such an error.',
  ['fault_sequences', 'inputs'], 'every write to every output file failing, at any point',
  'No test makes a write fail. None of the outputs was checked: with a full disk the programs left a truncated file and reported success (repaired).',
  ['phase_4.c', 'phase_3.c', 'stack.c', 'include.c', 'main.c', 'wlalink/write.c', 'wlalink/listfile.c'],
  [('object and library file', 'phase_4.c write_object_file(), write_library_file()'), ('makefile rules', 'include.c print_file_names()'), ('data stream', 'phase_3.c phase_3(), stack.c data_stream_parser_parse()'),
   ('ROM, symbol and listing file', 'wlalink/write.c write_rom_file(), write_symbol_file(), wlalink/listfile.c listfile_write_listfiles()')],
  'interprocedural typestate of every output handle (what is unflushed, whether the error flag is unseen), from its opening to the end of the run; outcome analysis of every test, propagated over the call graph to the exit status',
  'The options that go on after an error (-c) are off. Standard output is not an output in this sense.')

P('P10', 'Freed memory and closed files are never used again',
  'In no run of the assemblers, the linker or wlab is memory read, written, passed on or freed again after it has been freed, nor a file after it has been closed.',
  ['inputs', 'programs'], 'every call that frees or closes, and every path behind it',
  'The suite is not run under a memory checker, and most of the 380 places that free memory lie on error paths or in rarely used directives.',
  ['main.c', 'phase_1.c', 'phase_3.c', 'stack.c', 'parse.c', 'include.c', 'hashmap.c', 'wlalink/main.c', 'wlalink/write.c', 'wlalink/analyze.c', 'wlalink/listfile.c', 'wlalink/files.c'],
  [('free discipline', 'list traversals that save the next element first, variables that are set anew behind free()')],
  'forward may-dataflow of the freed pointer through values and memory cells, with summaries of the functions that free or use their arguments; the cells globals and their fields name are followed into the callers',
  'Two different access paths are taken as different cells; a pointer that was stored into a second structure before the call that frees it is not followed there.')

P('P11', 'Every format string matches the arguments it is used with',
  'Every message, name, record and symbol line is formatted with exactly the arguments its format takes, each of the type it is converted as, and every formatted read stores as many values as it was given places for, of the size of the places. '
  'Text of a source or object file is never used as a format.',
  ['inputs', 'programs'], 'all 3,200 formatted writes and reads of all programs, whatever their values',
  'The message functions are not declared as printf-like, so that no compiler checks their 2,700 calls; most are error messages no test provokes.',
  ['main.c', 'printf.c', 'phase_1.c', 'phase_3.c', 'phase_4.c', 'stack.c', 'parse.c', 'decode.c', 'wlalink/write.c', 'wlalink/analyze.c', 'wlalink/files.c', 'wlalink/main.c'],
  [('message functions', 'main.c print_text(), phase_1.c print_error()'), ('data stream', 'phase_3.c, phase_4.c, stack.c, listfile.c: fscanf()'), ('instruction writer', 'decode.c _output_assembled_instruction()')],
  'parsing of every constant format and comparison with the argument types and the object sizes of the type-checked program; functions that hand a format on are found from their bodies',
  'A pointer given to %s is assumed to point to a terminated string; arguments of the same type in the wrong order are not seen. The one format composed at run time (of a {%.nx{...}} substitution) is not judged.')

P('P12', 'Every documented directive is recognized, in any case, and does its own work',
  'Each directive of the manual is recognized by exactly the assemblers the manual lists it for, in upper, lower and mixed case; a documented alias does exactly what the directive it stands for does; '
  'no word is recognized that the manual does not describe; and each directive sets the state and writes the records of its own function and of no other.',
  ['inputs', 'programs'], 'every directive in every assembler',
  'The tests use most directives once, in one case and for one processor.',
  ['phase_1.c', 'parse.c', 'doc/asmdiv.rst'],
  [('directive recognition', 'phase_1.c parse_directive(), parse_if_directive()'), ('directive handlers', 'phase_1.c directive_*()'), ('manual', 'doc/asmdiv.rst directive table')],
  'partial evaluation of the directive parser for each word over the compiler\'s intermediate representation; comparison of its outcome and of its effects (globals set, records written) with the directive table of the manual and a recorded table of effects',
  'What is compared per directive is the set of its effects, not the values written.')

P('P13', 'Skipped source ends at its own closing directive and leaves no trace',
  'Source skipped by a false condition, .ELSE, .BREAK, .CONTINUE, .REPEAT 0, .WHILE 0 or .ASM/.ENDASM ends at the closing directive that belongs to it, whatever blocks are nested inside; while it is skipped nothing is substituted or expanded in it, '
  'and behind it the parser works as before, with line numbers that still match.',
  ['programs'], 'every nesting of blocks at each of the places that skip source',
  'The tests skip a few blocks without nesting; six of the scans were wrong (repaired).',
  ['phase_1.c', 'parse.c'],
  [('scans', 'phase_1.c: loops reading up to .ENDIF, .ENDR, .ASM'), ('reading position', 'phase_1.c assignments to g_source_index')],
  'abstract execution of every loop that scans for a closing directive over the words that distinguish nesting; path-sensitive state of the parser modes around the scans; pairing of reading position and line number',
  'The nesting is examined two levels deep, which decides counters that only add and subtract one.')

P('P14', 'A conditional directive takes its branch exactly when its condition holds',
  '.IF, .ELIF, .IFDEF, .IFNDEF, .IFDEFM, .IFNDEFM, .IFEXISTS, .IFEQ, .IFNEQ, .IFLE, .IFLEEQ, .IFGR and .IFGREQ assemble the source behind them exactly when their documented condition holds, skip it otherwise, '
  'refuse operands of the wrong kind, and remember for .ELIF and .ELSE of the same block whether a branch was taken.',
  ['inputs', 'programs'], 'all operand values',
  'The tests compare one or two pairs of values per directive, seldom equal ones.',
  ['phase_1.c'], [('conditional directives', 'phase_1.c parse_if_directive()')],
  'abstract interpretation of the conditional directives over the domain {less, equal, greater} x {exists, does not} x kind of operand, compared with a table of documented meanings',
  'That operands are evaluated correctly is P01.')

P('P15', 'Data directives write each operand once, at its size, or refuse it',
  '.DB, .DW, .DL, .DD and their aliases, .DS/.DSB, .DSW, .DSL, .DSD and .ROW/.DATA write every value, label, calculation and (bytes) string given to them, in order, in the record of their size; runs write it exactly as often as asked; '
  'values outside the range of the size, sizes of runs outside 1..65535, missing or broken operands, incomplete rows and strings where none fits are refused and never silently dropped.',
  ['inputs'], 'all values and every kind of operand in every position',
  'The tests write a few values in range; the limits, labels in runs and rejected operands are not tested. Three directives dropped data or wrote something else (repaired).',
  ['phase_1.c'], [('data directives', 'phase_1.c directive_db_byt_byte(), directive_dw_word_addr(), directive_dl_long_faraddr(), directive_dd(), directive_ds*(), directive_row_data()')],
  'abstract interpretation of the handlers over intervals of values and kinds of operands; the records written are compared with a table of sizes and ranges',
  'Strings of .ROW/.DATA are not covered (their length decides); what the records mean is P04 and P05.')
