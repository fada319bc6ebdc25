"""Regenerates /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Every mnemonic/addressing mode is encoded with the CPU's documented opcode",
  "For each supported processor, the assembler accepts exactly the documented mnemonics, and each mnemonic in each addressing mode it accepts is encoded with the opcode byte or prefix+opcode bytes that the processor's manual assigns to that pair. No mnemonic is unreachable because its name is misspelt, capitalised or listed twice.",
  ["programs"], "all (processor, mnemonic, addressing mode) triples",
  "The suite assembles one sample file per processor and many table entries (65C02 bit ops, 68HC11 page-2 forms, HD6303, 68HC908 SP modes) are never assembled, so a wrong byte in them is invisible.",
  ["src/mne6502.c", "src/mne65c02.c", "src/mne6303.c", "src/mne68705.c", "src/mne6811.c", "src/mne68908.c", "src/mnef8.c", "src/main.c"],
  [("opcode tables", "Mne6502, Mne65c02, Mne6803, MneHD6303, Mne68705, Mne68HC11, Mne68908, MneF8"), ("table expansion and insertion", "src/main.c:addhashtable")],
  [("opcode[]", "opcode per addressing mode, packed by okmask", "src/asm.h:_MNE")], ["output bytes"])
p("C02", "F8 register, shift, nibble and branch operands encode per the F8 manual",
  "On the F8 every legal operand form (LR between any pair of registers, scratchpad registers by number or name, SL/SR 1 or 4, LIS/LISU/LISL/INS/OUTS immediates, BF/BT condition masks, byte and word immediates) yields the opcode bytes of the F8 manual with the operand in its documented bits. An operand combination or operand value the F8 has no encoding for is rejected with an error, never encoded.",
  ["inputs"], "all operand strings of all F8 mnemonics with own operand syntax",
  "The F8 sample programs use a handful of register pairs; most of the LR matrix and every rejected combination is unreached.",
  ["src/mnef8.c"], [("operand handlers", "src/mnef8.c:v_lr, v_sreg_op, v_sl_sr, v_lis, v_lisu_lisl, v_ins_outs, v_bf_bt, v_wordop, v_byteop")], [], ["output bytes", "exit status"])
p("C03", "PROCESSOR selects the named CPU's instruction set and byte order, once",
  "Each documented processor name makes exactly that processor's mnemonics available and selects its byte order (low byte first for 6502/65C02, high byte first for all others). An unknown name aborts the assembly with an error, and so does a second PROCESSOR line naming a different processor, while repeating the same one (as every pass does) changes nothing.",
  ["inputs", "histories"], "all processor names, and all sequences of PROCESSOR lines over passes",
  "Tests only ever give one valid name per program; wrong names and changes of processor are not tried for every pair.",
  ["src/ops.c"], [("name dispatch", "src/ops.c:v_processor")],
  [("Processor", "current processor id", "src/globals.c"), ("MsbOrder", "byte order", "src/globals.c")], ["accepted mnemonics", "exit status"])
p("C04", "The addressing mode chosen is the smallest legal one that holds the operand",
  "For an instruction without a forcing suffix, the assembler uses the smallest encoding of the written operand form that the mnemonic supports and that can hold the operand's value (none, one or two operand bytes), treating a not yet known value as needing the largest; if no supported encoding exists it reports an error. With a forcing suffix it uses exactly the requested mode adapted to the written index register, and reports an error if the mnemonic lacks that mode.",
  ["inputs"], "all mnemonics x written operand forms x operand values x forcing suffixes",
  "Tests check a few zero-page/absolute choices on the 6502; the product of mode sets, forms, sizes and suffixes is far too large to sample.",
  ["src/ops.c", "src/globals.c", "src/main.c"], [("mode resolution", "src/ops.c:v_mnemonic"), ("mode conversion and size tables", "src/globals.c:Cvt, Opsize"), ("suffix decoding", "src/main.c:findext")], [], ["output bytes", "exit status"])
p("C05", "Instruction bytes are laid out as opcode then operands in the CPU's byte order",
  "An assembled instruction consists of its opcode (prefix byte first), then a one-byte operand or a two-byte operand in the selected processor's byte order, then any mask byte and branch offset, and its length is exactly the sum of these. Bit-manipulation instructions carry the bit number in bits 1-3 of the opcode, and no operand byte is taken from anything but the operand written for it.",
  ["inputs"], "all mnemonics, addressing modes, operand values and both byte orders",
  "Only samples of each layout are compared with reference binaries; layouts such as prefix+mask+branch or bit+branch with other values are not.",
  ["src/ops.c"], [("instruction emission", "src/ops.c:v_mnemonic")], [("Gen/Glen", "bytes of the current line", "src/ops.c")], ["output bytes"])
p("C06", "A known operand that does not fit its field is an error, never truncated",
  "If a resolved value does not fit where it is used, the assembly fails: a value above 255 in an instruction's one-byte operand, mask byte or DC.B/.byte item, a DC.B item or one-byte immediate/direct/indexed operand below -255, a bit number outside 0-7, an F8 operand above its field's maximum and, in strict mode, a 16-bit operand or DC.W item outside -65535..65535. Values that do fit are not rejected.",
  ["inputs"], "all values in all operand positions",
  "Tests try one too-large value for some modes on some processors; boundaries (255/256, 7/8, -255/-256) of most positions are not tried.",
  ["src/ops.c", "src/mnef8.c"], [("range checks", "src/ops.c:v_mnemonic, v_dc; src/mnef8.c")], [], ["exit status"])
p("C07", "Relative branches encode the exact displacement or the assembly fails",
  "The displacement byte of a relative branch equals target minus the address following the instruction (on the F8: minus the address of the displacement byte), computed with the relocated address when a relocatable origin is active. A resolved target outside -128..127 never ends in a successful assembly.",
  ["inputs"], "all branch mnemonics, origins and target distances",
  "Branches at the exact limits, under RORG, and out of range on every CPU are not in the suite.",
  ["src/ops.c", "src/mnef8.c"], [("branch computation", "src/ops.c:v_mnemonic; src/mnef8.c:generate_branch")], [("org/rorg", "physical and relocated origin", "src/asm.h:_SEGMENT")], ["output bytes", "exit status"])
p("C08", "DC/DV/HEX emit each element at its size, in order, in the documented byte order",
  "DC, DV, BYTE/WORD/LONG and DB/DW/DD emit for every listed expression or string character exactly 1, 2 or 4 bytes, in order, in the selected processor's byte order, with .S giving a 16-bit element in the opposite order; DV emits the value of its EQM expression for each element. HEX emits one byte per pair of hex digits, high digit first, and reports an error for a character that is not a hex digit.",
  ["inputs"], "all element lists, sizes, byte orders, numbers and strings",
  "Only some size/order/string combinations appear in the reference binaries (DV, DC.L strings on big-endian CPUs and others do not).",
  ["src/ops.c"], [("data emission", "src/ops.c:v_dc, v_hex, gethexdig")], [], ["output bytes", "exit status"])
p("C09", "DS and ALIGN emit exactly the required fill bytes with the right pattern",
  "DS emits count elements of 1, 2 or 4 bytes, each holding the filler value in the processor's byte order (zero if none is given); ALIGN emits the fewest fill bytes that bring the current (relocated, if active) address to a multiple of N, none if it already is. A zero count emits nothing and a negative count is an error.",
  ["inputs"], "all counts, sizes, fillers, boundaries and origins, including counts larger than any internal buffer",
  "Large DS.W/DS.L with fillers, ALIGN under RORG and boundary counts are not tested.",
  ["src/ops.c"], [("fill generation", "src/ops.c:genfill, v_ds, v_align")], [], ["output bytes"])
p("C10", "The location counter advances by the bytes of each statement, in every pass",
  "Whatever a statement emits, the segment's address advances by exactly that many bytes, and the relocated address by the same amount when a relocatable origin is active, in passes that write output and in passes that do not; uninitialised segments advance without writing a byte or changing the checksum. The checksum covers exactly the bytes written for statements.",
  ["programs", "histories"], "all statements, segments and passes",
  "Listing addresses and non-final passes are not observed by the tests, which compare final binaries only.",
  ["src/ops.c"], [("emission", "src/ops.c:generate")], [("org/rorg", "address counters", "src/asm.h:_SEGMENT"), ("CheckSum", "sum of written bytes", "src/globals.c")], ["output file", "label values"])
p("C11", "Output file containers are well formed for all three formats",
  "Format 1 is a two-byte low/high origin followed by the contiguous image; format 2 is a sequence of chunks, each with two-byte low/high origin and length fields followed by exactly that many bytes, a new chunk starting whenever the address is not contiguous; format 3 is the bare image. In formats 1 and 3 forward gaps are filled with the current ORG fill value and a backward origin aborts with an error.",
  ["programs"], "all sequences of emissions, origins and segments",
  "The suite uses mostly one chunk per file; multi-chunk RAS files and their length fields are hardly exercised.",
  ["src/ops.c", "src/main.c"], [("container writing", "src/ops.c:generate, closegenerate")], [("Seglen/Seekback", "length and position of the open chunk", "src/ops.c")], ["output file"])
p("C12", "Every diagnosed error ends in a non-zero exit status",
  "If any error is diagnosed in the final pass, or the source is still unresolved when passes stop, the process exits with a non-zero status; it exits 0 only when the last pass diagnosed no error and left nothing to resolve. The only diagnostic that is a mere warning is a negative REPEAT count.",
  ["programs", "histories"], "all programs and all error sites",
  "About a dozen failing programs are tested; there are more than sixty error sites, each reachable in several contexts.",
  ["src/main.c", "src/ops.c", "src/exp.c", "src/symbols.c", "src/mnef8.c"], [("error table", "src/main.c:sErrorDef"), ("error reporting", "src/main.c:asmerr"), ("pass decision", "src/main.c:MainShadow")], [("bStopAtEnd", "fatal error seen in pass", "src/main.c"), ("Redo", "reasons for another pass", "src/globals.c")], ["exit status"])
p("C13", "Unresolved values never reach a finished output file",
  "Whenever an expression used by an instruction operand, DC, DV, DS, ALIGN, IF, REPEAT, ORG, RORG or the skip count of INCBIN is not yet resolved, or bytes are emitted in a segment whose origin is not known, the pass is marked as needing another one (or the assembly aborts), so no byte, count, origin or condition in a successful result came from an unresolved value. An expression whose result is documented as defined despite an unresolved part (&&, ||, ?) is excepted.",
  ["programs"], "all placements of forward references and undefined symbols in all directives and operands",
  "Forward references are tested in a few operand positions only.",
  ["src/ops.c", "src/mnef8.c"], [("redo marking", "every use of an eval() result in src/ops.c and src/mnef8.c")], [("Redo", "reasons for another pass", "src/globals.c")], ["output bytes", "exit status"])
p("C14", "A label's value is its address, and a change between passes forces another pass",
  "Defining a program label gives it the current address, relocated if a relocatable origin is active, and it is unresolved exactly if that address is. If the label was referenced before it had a value, or its value differs from the one it had in the previous pass, another pass is made.",
  ["programs", "histories"], "all labels, passes and origins",
  "Phase errors and relocated forward labels are hardly covered.",
  ["src/symbols.c"], [("label definition", "src/symbols.c:programlabel")], [], ["label values in the symbol dump", "output bytes"])
p("C15", "EQU is single-valued, SET is reassignable, EQM is re-evaluated on each use",
  "EQU and SET give the symbol the expression's value, string and resolvedness; an EQU that changes an already resolved value is diagnosed and forces another pass while SET may change it freely. EQM stores the expression text and each use evaluates that text anew; assigning to '.' or '*' with EQU sets the relocatable origin if one is active, otherwise the origin.",
  ["inputs", "histories"], "all assignment sequences",
  "Reassignments over passes, string values and '.' assignments under RORG are not covered.",
  ["src/ops.c", "src/exp.c"], [("assignments", "src/ops.c:v_equ, v_set, v_eqm; src/exp.c:pushsymbol")], [], ["label values", "output bytes"])
p("C16", "Lines in a false conditional have no effect other than tracking nesting",
  "Within a false or undecided IF/IFCONST/IFNCONST branch, or a skipped REPEAT, no line defines a label, evaluates an expression, emits bytes, reports an error or changes any assembler state, except that nested conditionals and repeats are counted so that the matching ELSE/ENDIF/REPEND is found. ELSE toggles only the innermost conditional, and only if its enclosing code is active and its condition was decided. IF's lines are assembled exactly if its expression is not zero, IFCONST's if its expression is resolved and IFNCONST's if it is not.",
  ["programs"], "all nestings of conditionals and all statements inside them",
  "A few IFs are tested; each directive inside each kind of skipped region is not.",
  ["src/main.c", "src/ops.c", "src/globals.c"], [("dispatch guard", "src/main.c:MainShadow"), ("conditional directives", "src/ops.c:v_if, v_ifconst, v_ifnconst, v_else, v_endif, v_repeat, v_repend, pushif"), ("directive flags", "src/globals.c:Ops")], [("Ifstack", "conditional stack", "src/globals.c")], ["output bytes", "messages"])
p("C17", "IF, REPEAT, macro and include nesting is balanced on every way out",
  "Leaving a macro (ENDM, MEXIT, END or running off its end) or a source file discards exactly the conditionals and repeats opened in it, restores the caller's position and local-label scopes, and closes the file; ENDIF and REPEND act only on a level opened in the same file or macro. REPEAT n executes its body exactly n times for n > 0 and not at all for n = 0.",
  ["programs"], "all nestings and all exits",
  "MEXIT inside IF or REPEAT, END inside macros, and unbalanced files are not covered by tests.",
  ["src/ops.c", "src/main.c"], [("stack handling", "src/ops.c:v_execmac, v_endm, v_mexit, v_end, v_endif, v_repeat, v_repend, pushif; src/main.c:MainShadow, rmnode")], [("pIncfile", "input stack", "src/globals.c"), ("Reploop", "repeat stack", "src/globals.c"), ("Ifstack", "conditional stack", "src/globals.c")], ["output bytes", "messages"])
p("C18", "A symbol is found exactly under the name and scope it was created with",
  "Looking up a name finds a symbol if and only if one was created under that same full name in the same scope: names are case-sensitive and compared in full, '.name' symbols belong to the current subroutine or macro scope, 'nnn$' symbols to the current dollar scope. '.', '..' and '...' alone denote the current address, the DV element and the checksum.",
  ["inputs", "histories"], "all names and scope sequences",
  "Scope collisions and near-identical names are not tested.",
  ["src/symbols.c"], [("lookup and creation", "src/symbols.c:findsymbol, CreateSymbol, hash1")], [("SHash", "symbol hash table", "src/globals.c")], ["label values"])
p("C19", "Local label scopes change exactly at SUBROUTINE, labels and macro boundaries",
  "SUBROUTINE starts a fresh scope for '.name' labels; a non-local label definition starts a fresh scope for 'nnn$' labels; a macro call starts fresh scopes of both kinds and the caller's scopes are back in force after it. Every fresh scope is different from all earlier ones of the pass, and all scopes restart identically in every pass.",
  ["programs", "histories"], "all sequences of scope-changing lines",
  "Only simple uses of local labels are in the suite.",
  ["src/symbols.c", "src/ops.c", "src/main.c"], [("scope counters", "src/symbols.c:programlabel; src/ops.c:v_subroutine, v_execmac, v_endm; src/main.c:MainShadow")], [("Localindex, Localdollarindex", "current scopes", "src/globals.c")], ["label values"])
p("C20", "Mnemonics, directives and suffixes are recognised by their full name in any case",
  "A word is recognised as a directive or instruction if and only if, ignoring case, one leading dot and any suffix, it equals that name in full; every directive documented in the manual is available. In a word without a leading dot the text after its first dot selects the documented size or forced addressing mode by its first one or two letters in any case, and a word without a suffix selects none.",
  ["inputs"], "all words and suffixes",
  "Most suffix spellings and directive synonyms are never used by the tests.",
  ["src/main.c", "src/globals.c"], [("lookup", "src/main.c:findmne, findext, addhashtable, hash1"), ("directive table", "src/globals.c:Ops")], [("MHash", "mnemonic hash table", "src/globals.c")], ["accepted source"])
p("C21", "Each operator computes its documented function",
  "On resolved operands every unary and binary operator returns the documented arithmetic, shift, relational, bitwise or logical result (relations and logical operators give 0 or 1, '<' and '>' as prefix give the low and next byte, '?' gives the right operand if the left is non-zero and else 0, x%0 is x), and division by zero aborts with an error.",
  ["inputs"], "all operand values",
  "The suite compares a few constant expressions; boundary and negative operands of most operators are not covered.",
  ["src/exp.c"], [("operator functions", "src/exp.c:op_*")], [("Argstack", "operand values", "src/exp.c")], ["output bytes"])
p("C22", "Operators bind with the documented precedence, left to right",
  "Each operator spelling denotes its documented operation, with prefix operators recognised exactly where an operand is expected, and expressions group by the documented precedence order with equal precedence grouping left to right. Brackets, and in operands of directives parentheses, override precedence; a bracket never closed and a character that begins neither an operand nor an operator are errors, and every operand and operator written takes part in the result.",
  ["inputs"], "all operator pairs and nestings",
  "Only a few mixed expressions are tested, not each pair of operators.",
  ["src/exp.c"], [("operator dispatch and reduction", "src/exp.c:eval, doop, evaltop")], [("Opdis/Oppri", "operator stack", "src/exp.c")], ["output bytes"])
p("C23", "A result computed from an unresolved operand is itself unresolved",
  "Every operator marks its result unresolved if an operand is, except that && and || are resolved when the resolved operand alone decides them and '?' ignores the right operand when the left is resolved and zero. A symbol that is undefined so far evaluates as unresolved and is recorded as referenced.",
  ["inputs"], "all operators and all combinations of resolved and unresolved operands",
  "Needs combinations of operators and forward references the tests do not have.",
  ["src/exp.c"], [("flag propagation", "src/exp.c:op_*, stackarg, pushsymbol")], [("Argflags", "operand resolvedness", "src/exp.c")], ["output bytes", "exit status"])
p("C24", "Numeric, character and string literals denote their documented values",
  "Decimal, 0-prefixed octal, %-binary and $ or 0x hexadecimal literals denote their positional value in that base, consuming exactly the digits of that base; 'c denotes the character's code and a quoted string its characters in order. Hex digits are accepted in either case.",
  ["inputs"], "all literals",
  "Few digits and bases appear in the tests (8/9 after octal digits, mixed-case hex are not).",
  ["src/exp.c"], [("literal parsing", "src/exp.c:pushhex, pushoct, pushdec, pushbin, pushchar, pushstr, stackarg")], [], ["output bytes"])
p("C25", "Operand syntax determines the addressing mode as documented",
  "In an instruction operand '#' means immediate, '(..)' indirect, '(..,x)' indexed indirect, '(..),y' indirect indexed, ',x' ',y' ',sp' indexed, a lone expression an address and nothing implied, in either letter case; '(..),x' and '(..,y)' are errors. Letters x and y that begin a longer name are not index registers.",
  ["inputs"], "all operand texts",
  "Tests contain the common forms, not the near misses.",
  ["src/exp.c"], [("mode parsing", "src/exp.c:eval")], [], ["output bytes", "exit status"])
p("C26", "Runaway sources are stopped: passes, macro depth, recursion and size are bounded",
  "The number of passes never exceeds the -p limit, macro calls nest at most 32 deep, symbol/EQM evaluation recursion and expression nesting are limited, and output cannot grow beyond the -m limit; crossing any of these ends the assembly with an error status.",
  ["programs", "histories"], "all programs, including self-referential ones",
  "Two recursion tests exist; each limit with each way of reaching it is not covered.",
  ["src/main.c", "src/ops.c", "src/exp.c"], [("limits", "src/main.c:MainShadow; src/ops.c:v_execmac, generate; src/exp.c:pushsymbol, doop")], [], ["exit status", "termination"])
p("C27", "No source text makes the assembler divide by zero or jump through a bad pointer",
  "Whatever the source, no division or remainder is performed with a zero divisor, and no operator or directive is invoked through an unset function pointer; such input is diagnosed instead.",
  ["inputs"], "all sources",
  "Crashing inputs are by nature absent from a suite of reference outputs.",
  ["src/ops.c", "src/exp.c", "src/main.c"], [("guards", "src/exp.c:op_div, op_mod, evaltop; src/ops.c:v_align; src/main.c:MainShadow")], [], ["exit status"])
p("C28", "Fixed-size tables and buffers are never written outside their bounds",
  "No source line, symbol, expression, macro argument, path or message makes the assembler write outside a fixed-size buffer or table; what does not fit is diagnosed or cut.",
  ["inputs"], "all sources and command lines",
  "Overruns need inputs longer or deeper than any test's and usually corrupt memory silently.",
  ["src/main.c", "src/ops.c", "src/exp.c", "src/symbols.c"], [("bounded writes", "every store to a fixed array; every sprintf/strcpy/strcat")], [], ["memory safety"])
p("C29", "Output and listing streams are checked, closed once and never used closed",
  "In every pass the output file and, if requested, the listing are opened, checked for failure before use, and closed exactly once before the next pass or a normal end; no stream is written or closed again after it was closed, and included files are closed when left. A file that cannot be opened yields an error status.",
  ["histories"], "all pass sequences and error exits",
  "Uses of a closed stream go unnoticed in most runs; one test is flaky because of it.",
  ["src/main.c", "src/ops.c"], [("stream handling", "src/main.c:MainShadow, asmerr, pushinclude; src/ops.c:v_incbin, pfopen")], [("FI_temp, FI_listfile", "output and listing streams", "src/globals.c")], ["exit status", "files"])
p("C30", "With -R no output file is left behind by a failed assembly",
  "If -R is given and the process ends with a non-zero status after output was opened, the output file has been removed, however the assembly failed; without -R, and after a successful assembly, it is never removed.",
  ["programs"], "all failing programs and all ways to fail",
  "A single failing program is tested with -R.",
  ["src/main.c"], [("removal", "src/main.c:main")], [("bRemoveOutBin", "-R given", "src/main.c")], ["output file existence"])
p("C31", "Each command-line option changes exactly its documented setting",
  "-f, -o, -l, -L, -s, -v, -d, -D, -M, -I, -p, -P, -T, -E, -S, -R and -m set exactly their documented settings from the rest of the argument and nothing else; out-of-range format, sort or error-format numbers, missing file names, unknown options and stray arguments end with an error status before assembling.",
  ["configurations"], "all argument vectors",
  "Tests use -f, -o, -R and -D only.",
  ["src/main.c"], [("option parsing", "src/main.c:MainShadow")], [], ["exit status", "files"])
p("C32", "The symbol dump lists every symbol once, in the requested order",
  "A symbol listing contains each symbol exactly once with its name, value and flags, sorted by name, by value or by order of definition as selected with -T; two symbols compare the same way whichever is presented first, for all values.",
  ["inputs"], "all symbol tables and sort modes",
  "No test looks at symbol dumps.",
  ["src/main.c"], [("dump", "src/main.c:ShowSymbols, CompareAlpha, CompareAddress, CompareOrder, sftos")], [], ["symbol file"])
p("C33", "Listing lines show the line's address, its first bytes and a marker for the rest",
  "A listing line shows the source line number, the address of the line, up to four of the bytes it generated and a '*' if there are more, and a '-' if the line was skipped by a conditional; lines are written only when listing is on globally (LIST ON/OFF) and for the current file (LIST LOCALON/LOCALOFF).",
  ["inputs"], "all lines",
  "No test looks at listings.",
  ["src/main.c"], [("listing", "src/main.c:outlistfile")], [], ["listing file"])
p("C34", "ftohex writes valid Intel HEX for every input in every format",
  "Each data record is ':' followed by the byte count (at most 16), the 16-bit address, type 00, the data bytes and a checksum that makes all bytes of the record sum to zero modulo 256; together the records hold every input byte once at its address, and one end record follows. Format 1 and 2 headers are read low byte first, and format 2 continues with the next chunk until end of file.",
  ["inputs"], "all input files and formats",
  "Tests run ftohex only on dasm's own small outputs and never check the checksum of other addresses.",
  ["src/ftohex.c"], [("conversion", "src/ftohex.c:convert, getwlh, puth")], [], ["hex file"])
p("C35", "Error messages name the file and line being assembled, in the selected format",
  "Each error message gives the name and line number of the innermost source file being read (never of a macro), in the format chosen with -E, together with the text belonging to the error's number; the message text for an error number is the same one used for the exit status.",
  ["programs"], "all errors in all nestings",
  "Tests only compare exit codes.",
  ["src/main.c"], [("messages", "src/main.c:asmerr, sErrorDef")], [], ["messages"])
p("C36", "Every pass starts from the same state",
  "At the start of each pass, scopes, checksum, symbol order, reference marks, segment origins, output position, the current segment, the ORG fill value and the listing switch are back at their initial state, so that a pass depends on earlier ones only through symbol values, macro definitions and search directories.",
  ["histories"], "all numbers of passes",
  "Tests that converge in one or two passes do not see leftovers of earlier passes.",
  ["src/main.c", "src/ops.c"], [("pass reset", "src/main.c:MainShadow, clearsegs, clearrefs")], [], ["output bytes"])
p("C37", "Macro arguments replace {n} textually and missing ones are errors",
  "In a macro's lines {0} is replaced by the whole argument text of the current call and {n} by its n-th comma-separated argument, leading blanks removed, quoted blanks kept; comments are left alone, and after an inner macro ends the outer call's arguments are back. Referring to an argument that was not passed is an error, except in a skipped line.",
  ["inputs"], "all macro calls",
  "Only a few macro calls are tested.",
  ["src/main.c", "src/ops.c"], [("substitution", "src/main.c:cleanup; src/ops.c:v_execmac")], [], ["output bytes"])
p("C38", "INCBIN inserts the file's bytes after the skipped prefix, in every pass",
  "INCBIN emits exactly the file's bytes after the first SkipBytes (not negative), and the address advances by that number in every pass; a missing file aborts. INCLUDE and INCBIN try the name itself first and then each search directory in the order given.",
  ["inputs"], "all files and skip counts",
  "A single small INCBIN is tested, without forward references.",
  ["src/ops.c"], [("file inclusion", "src/ops.c:v_incbin, pfopen, addpart, v_incdir; src/main.c:pushinclude")], [], ["output bytes"])
p("C39", "No heap block is freed twice or used after being freed",
  "Symbols, strings, include, conditional, repeat and macro records are never released twice and never touched after their release, on every path including error paths.",
  ["programs"], "all programs",
  "Heap misuse rarely shows in exit codes or binaries.",
  ["src/ops.c", "src/main.c", "src/symbols.c", "src/exp.c"], [("ownership", "free/FreeSymbolList/rmnode call sites")], [], ["memory safety"])

p("C40", "Source lines split into label, operation and operand; comments have no effect",
  "A label starts in the first column (or after a leading '^') and ends at a blank, ':' or '='; the operation word and the operand text follow, runs of blanks and tabs counting as one blank. Text from ';' to the end of the line and text between /* and */ on one or several lines has no effect on what is assembled, blanks and ';' inside quoted strings and character constants are kept, and an unclosed string or a stray */ is an error.",
  ["inputs"], "all source lines",
  "The test sources use plain lines; comment marks and quotes meet in few of them.",
  ["src/main.c"], [("line splitting", "src/main.c:cleanup, parse")], [], ["output bytes", "diagnostics"])
p("C41", "A macro holds exactly the lines between MAC and ENDM",
  "After a definition, a call of the macro's name in any letter case reads exactly the lines between MAC and ENDM, in order, with label, operation and operand text as written and argument marks still in place. A definition in a skipped branch defines nothing but is passed over up to its ENDM, a definition repeated in a later pass changes nothing, a name defined twice in one pass is an error in strict mode, and a missing ENDM aborts the assembly.",
  ["programs"], "all macro definitions",
  "Few macro bodies are tested and none with unusual end lines.",
  ["src/main.c", "src/ops.c"], [("macro definition", "src/main.c:v_macro; src/ops.c:v_execmac")], [], ["output bytes"])
p("C42", "SEG, ORG, RORG and REND select segments and addresses as documented",
  "SEG makes the segment of exactly that name current, with the addresses it had, or creates it with addresses that are not known yet and uninitialised exactly if .U was written. ORG sets the current segment's address and, with a second operand, the fill value; RORG activates the relocated address with its value and REND deactivates it; the first known address of each kind is kept as the segment's initial one. No other segment and no other setting changes and no byte is emitted.",
  ["inputs", "histories"], "all segments, origins and orders of these directives",
  "The tests use few segments, mostly one per program, and never several relocated ones.",
  ["src/ops.c"], [("segments", "src/ops.c:v_seg, v_org, v_rorg, v_rend")], [("segments", "named segments with their addresses", "src/globals.c:Seglist, Csegment, OrgFill")], ["addresses", "output bytes"])
p("C43", "ECHO shows its items in order, and only the last pass's messages are shown",
  "ECHO shows its resolved items on one line in order, strings as their text and numbers as '$' and hexadecimal digits, on the screen and in the list file. A successful or aborted assembly shows each line echoed in its last pass exactly once and none of earlier passes; error messages are shown only for the pass in which the assembly failed.",
  ["inputs", "histories"], "all item lists and all numbers of passes",
  "Tests do not look at what is printed.",
  ["src/ops.c", "src/main.c"], [("messages", "src/ops.c:v_echo; src/main.c:addmsg, passbuffer_*")], [], ["screen output", "list file"])
p("C44", "Composed names: label parts, SET of composed names, SETSTR and SETSYM",
  "A label followed by comma-separated parts is defined under the name extended by each part in order, a quoted part by its text and any other part by its expression's decimal value; no label is defined if such an expression is unresolved, and a quote left open is an error. SET of a name with parts assigns the value of the symbol so composed, or nothing while a part is unresolved. SETSTR assigns the operand's text as a string; SETSYM assigns the value of the symbol whose name a string holds, and a number there is an error.",
  ["inputs"], "all names, parts and values",
  "No test uses composed names.",
  ["src/main.c", "src/ops.c"], [("label parts", "src/main.c:parse"), ("assignments", "src/ops.c:v_set, v_setstr, v_setsym")], [], ["symbol names and values", "exit status"])

p("C45", "Summary after each pass: segments, reasons for a pass, unresolved symbols",
  "With verbosity 1 or more each pass ends with a list showing every segment once with its first and current addresses and relocatable addresses, '????' marking exactly the unknown ones and '[u]' the uninitialised segments, the numbers of references to unknown symbols and of events requiring another pass, and each reason recorded in that pass. Every unresolved symbol is listed once with their number at verbosity 3 or more and when the assembly is given up as not resolvable. Without -v no segment list is shown.",
  ["inputs", "states"], "all segment lists, symbol tables, reasons and verbosities",
  "The tests compare only binaries and exit codes; none reads what the assembler prints.",
  ["src/main.c"], [("segment list", "src/main.c:ShowSegments"), ("unresolved symbols", "src/main.c:ShowUnresolvedSymbols"), ("passes", "src/main.c:MainShadow")], [], ["standard output"])
p("C46", "Memory handed out: large enough, aligned, not shared, cleared, or an error",
  "Each request for memory gets a block of at least the requested size, aligned to 8 bytes and not overlapping any other block handed out; blocks for symbols, names, segments and other permanent data are cleared. When the system has no more memory the run ends with an error instead of continuing.",
  ["inputs", "states"], "all sequences of requests up to 16384 bytes each",
  "Overlaps, missing clearing and misalignment show only for particular sequences of sizes or with memory that was used before.",
  ["src/main.c"], [("permanent memory", "src/main.c:permalloc"), ("other memory", "src/main.c:ckmalloc, zmalloc")], [("left", "what remains of the current area", "src/main.c:permalloc")], ["symbol names and values", "exit status"])

p("C47", "Machine support files can be included and their macros used",
  "Every machine support file can be included without an error: each operation in it is a directive, an instruction of its processor or a macro of the same machine, its conditionals and macros are closed, the files it includes exist and no name gets two values. Every name a macro uses is an argument, a local label, defined by the machine's files or one the user is told to supply.",
  ["inputs"], "all statements of all machine support files",
  "Only two of the headers are included by a test, and errors in macros show only when the macro is used.",
  ["machines/atari2600/macro.h", "machines/atari7800/macro.h", "machines/channel-f/macro.h", "machines/68hc908/macros.asm", "machines/68hc11/register.asm"],
  [("macros", "machines/atari2600/macro.h"), ("included files", "machines/68hc908/mc68hc908jk1.asm")], [], ["exit status of a source including the file"])
p("C48", "Register names in the machine files have their documented addresses",
  "In the Atari 2600, Atari 7800, Channel F, 68HC11 and 68HC908JK files every register, BIOS routine, colour and bit name has the value the machine's manual gives, the 2600 and 68HC11 ones relative to the base addresses the user may set. The memory sizes and addresses of each 68HC11 and 68HC908 part are those of its manual, and a value the user sets beforehand is kept.",
  ["inputs"], "all names of these files, several base addresses",
  "The tests include two of the headers with one base address and use only some of the names.",
  ["machines/atari2600/vcs.h", "machines/atari7800/7800.h", "machines/channel-f/ves.h", "machines/68hc11/register.asm", "machines/68hc908/reg68hc908jk3.asm"],
  [("2600 registers", "machines/atari2600/vcs.h"), ("7800 registers", "machines/atari7800/7800.h"), ("68HC11 registers", "machines/68hc11/register.asm")], [], ["symbol values"])
p("C49", "Atari macros: SLEEP lasts n cycles, SET_POINTER, VERTICAL_SYNC, CLEAN_START",
  "SLEEP n inserts instructions that take exactly n cycles for every n of 2 or more, use no undocumented instruction if NO_ILLEGAL_OPCODES is set and change no memory or register (flags excepted), and is an error for n below 2. SET_POINTER stores the low byte of the address at the pointer and its high byte in the next byte. On the 2600 VERTICAL_SYNC keeps the sync signal on for exactly three lines, and CLEAN_START clears all 256 bytes and the registers and leaves the stack pointer at $FF.",
  ["inputs"], "all durations, pointers and addresses, with and without undocumented instructions",
  "Tests compare binaries of a few programs that use one or two durations.",
  ["machines/atari2600/macro.h", "machines/atari7800/macro.h"], [("macros", "machines/atari2600/macro.h"), ("macros", "machines/atari7800/macro.h")], [], ["inserted instructions"])

p("C50", "No source text makes the assembler read a null pointer or past a line's end",
  "No line, sequence of lines, expression or error makes the assembler read or write through a null pointer or hand one to a library function that needs an object. The operand of a line is read no further than its end, and no expression, string or table is read outside its bounds, whatever parts of the line are missing.",
  ["inputs", "states"], "all directives and instructions with operands of every kind, missing and malformed parts of lines, expressions of up to three tokens, nested and unbalanced blocks, errors in every state",
  "A stray read usually returns the harmless remains of an earlier line, and a null pointer needs an input that no test contains.",
  ["src/main.c", "src/ops.c", "src/exp.c", "src/symbols.c", "src/mnef8.c"], [("parse", "src/main.c"), ("eval", "src/exp.c"), ("asmerr", "src/main.c")], [], ["crashes", "output that depends on earlier lines"])

p("C51", "ftobin converts every output format to the raw memory image",
  "For every input file ftobin writes the image that starts at the first origin: each byte at its address, a later chunk replacing an earlier one, gaps between chunks filled with 255, and nothing else. A wrong number of arguments or format, a file that cannot be opened and a chunk below the first origin end with a failing status.",
  ["inputs"], "all formats, lengths around the buffer size, chunks in any order, overlapping, adjacent and apart, up to the end of the address space",
  "No test runs ftobin.",
  ["src/ftobin.c"], [("convert", "src/ftobin.c")], [], ["output file", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
