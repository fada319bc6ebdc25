#!/usr/bin/env python3
"""Write DESIGN.md: tools/mkdesign.py (fixed text plus counts from the evidence and the list of planted bugs)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """# dasm: deciding semantic properties by static analysis

Written by `tools/mkdesign.py` (counts come from the last evidence, the lists
at the end from `known_findings.txt` and `seeded/`).

## Approach

Every check compiles the files of `/repo/src` to LLVM IR (`clang -O0 -g`, then
only `mem2reg`, so nothing is optimised away) and decides its property on that
IR.  Nothing of dasm is executed and no solver is used.  The deciding engine in
`lib/vsa` is an abstract interpreter written for this code base:

* **Values** are a reduced product of canonical value-numbering terms (linear
  terms, bit slices, comparisons), finite unions of intervals, and points-to
  sets.  Equality of two terms is decided by normal form, and for terms over
  few separable bytes by comparing their tables.
* **States** are partitioned by trace (effects, error reports, outcomes of
  comparisons), joined at control-flow merges; loops run to a fixpoint with
  widening, loops with a bounded shape are followed iteration by iteration.
* **Calls** are analysed in context.  A helper extracted, inlined, renamed or
  moved does not change a verdict.  Entry points are found through the names
  users write (directive table, mnemonic tables, option letters), not through
  C identifiers of helpers; a few anchors (the evaluator, the emission routine,
  the error routine, `main`) are named, and a missing anchor is an error exit,
  never a pass.
* **Environment** (streams, heap, directory of files, symbol contents) is
  modelled: a stream model records opens, positions and writes; heap blocks
  carry their size and whether they were released.
* **Shape bounds.**  Lists, stacks and strings get a concrete bounded shape
  (0 to 3 records, lengths chosen around every limit) with symbolic contents;
  numbers are left symbolic and split at the limits that the specification
  names.  The bounds of each check are given below.
* **Undecided is not a pass**: if the engine cannot show the required result
  (an address it lost, a comparison it cannot order), the obligation counts as
  failed.  A rule whose number of instances falls below the number confirmed by
  hand (`ck.need`) ends the check with an error exit.

A check starts the analysis of an entry point from an abstract state for which
the specification gives one answer ("operand resolved, value in [256, 2^63-1],
mnemonic has only one-byte modes") and requires that answer in every abstract
final state.  The specification is written independently of the sources: ISA
tables in `spec/isa.py` from the processors' manuals, the rest from the dasm
manual and the property text.

Tests cannot reach this because each of them runs one program: they compare
binaries and exit statuses, while an obligation here covers all operand values
of a class, all contents of a record, or all outcomes of the environment.

Per check: the report names file, line, rule and instance; `evidence/<id>.json`
lists rules, instance counts and analysed functions.  All checks together take
about 2.5 minutes on 8 cores, the slowest (C28) about 90 s.

Library: `ir` (parser), `terms`/`interp` (domains, fixpoint), `check` (rules,
evidence, known findings), `dasm` (globals, records, tables), `expr` (evaluator
transfer functions), `mnem`/`f8` (instruction handlers), `data` (data and fill
directives), `emit`/`fio` (output and streams), `symtab` (symbols), `mainprog`
(pass loop with scripted source lines and options), `nest` (conditionals,
repeats, macros, files), `lines` (line splitting), `flow` (whole-program
queries: who writes a variable, who calls), `sweep` (all handlers under a
monitor for memory, divisions and calls), `proc` (processor selection).

## Properties
"""
P = {}
P["C01"] = """Decided by comparing tables.  The mnemonic tables are read from the IR initialisers of every table the PROCESSOR handler can select, merged as the lookup merges them, and compared both ways with the ISA tables in `spec/isa.py` (mnemonic x mode x opcode bytes).  `expansion` checks that every mode listed can be reached from the written operand forms, `reachable` that names can be found by the lookup (lower case, hash).  Oracle: manuals; a handful of accepted aliases and historic extensions of dasm are listed in the specification with their reason.  Exhaustive."""
P["C02"] = """Each F8 handler is analysed with symbolic operand texts: the operand strings are partitioned by equality with the register names, numbers are symbolic and split at the field limits.  LR is analysed for all pairs of names (and any other text).  Oracle: opcode table of the F8 manual.  Exhaustive over operand classes."""
P["C03"] = """The PROCESSOR handler is analysed with a symbolic name partitioned by string equality; every documented name, an unknown name, and every pair of a selected processor and a second line.  Obligations: tables installed, byte order, error for others, nothing changed by repetition."""
P["C04"] = """The instruction handler is analysed from every distinct (mode set, flags) of the tables x operand form x value class (0, 1..255, 256.., negative, unresolved) x suffix.  The oracle chooses the smallest mode by rank (0, 1, 2 operand bytes) among those the mnemonic lists."""
P["C05"] = """Same entry states as C04, but contents of the code buffer: every byte must equal the opcode or the named slice of the operand term, in the selected byte order, with nothing else in it; length is the number of bytes."""
P["C06"] = """Instruction handler, F8 handlers and DC with values in the intervals just outside and inside each field; outside must reach an error report on every trace, inside must not report.  Strict mode is a separate partition."""
P["C07"] = """Branch operands with a symbolic target and symbolic address, with and without relocated origin; the displacement byte must be the low byte of target - (address + length) and every trace whose difference is outside -128..127 must report.  F8 relative to the displacement byte."""
P["C08"] = """Data directives with lists of 0-3 elements (numbers symbolic, strings of length 0-5 and a few longer ones with symbolic characters), all suffixes and names, both byte orders, every pass kind.  HEX over symbolic digits partitioned by character class.  DV lines as written, through the program's own line splitting and evaluation."""
P["C09"] = """DS for all element sizes with a symbolic filler and a range of counts; ALIGN for a range of boundaries against every kind of residue, with and without relocated origin, resolved or not.  The bytes requested and their pattern are compared with the oracle."""
P["C10"] = """The emission routine with 0, 1, 2, 3 and 8 symbolic bytes, and fills of symbolic length, in every segment state x pass state x format: new origin = old + length, relocated address likewise, checksum term = old + sum of the bytes (or unchanged)."""
P["C11"] = """A scripted sequence of emissions and origin changes through the emission routine against the stream model; the resulting file image (symbolic bytes at known positions) is compared with an independent container writer.  Scripts cover contiguous, forward, backward origins, chunks of length 0, 1, several, and longer than a length field."""
P["C12"] = """(a) Error table: numbers, texts, fatality.  (b) Every report site of the program: number in the table.  (c) The pass loop and `main` are analysed with scripted lines whose effects report each error, leave something unresolved, or abort; exit status must be non-zero exactly then.  Also unclosed comments, unknown words, output that cannot be opened or written."""
P["C13"] = """Every consumer of an expression is analysed with the unresolved flag set on each operand in turn: the number of reasons for another pass must grow or the assembly must abort.  `unknown origin` does the same for emission in segments without a known origin."""
P["C14"] = """Label definition with the symbol absent / present in every flag state, value equal or different, every segment state; oracle gives value, resolvedness and whether another pass is needed.  `placement` checks for every directive that the label is defined before or after its effect as documented."""
P["C15"] = """EQU, SET, EQM, SETSTR with symbol states as in C14 x expression results (number, string, unresolved) and assignment to `.`/`*` in every segment state; `eqm use` follows the evaluation of a stored text."""
P["C16"] = """Line dispatch with an inactive conditional: every directive and instruction of the tables must either not be called or (marked directives) leave all state but the nesting stacks unchanged.  Stack shapes of up to 3 levels with symbolic truth values.  Known finding: see below."""
P["C17"] = """Handlers that end a level, analysed on stacks of 0-3 conditionals, repeats and macro/file frames, each record tied to a frame in every combination; oracle says which records remain.  REPEAT: symbolic count, body position and remaining count after each REPEND."""
P["C18"] = """Creation and lookup over a set of names chosen to collide (same hash, same prefix, other case, up to beyond the maximum length), local and dollar forms in several scopes, symbolic values; a lookup must find the record exactly if full name and scope agree, wherever it is in its chain."""
P["C19"] = """Scope counters over SUBROUTINE, label definition and macro call/exit; `writers` enumerates every store to the counters in the program, `other statements` analyses every other directive for leaving them alone, `passes` the start of a pass."""
P["C20"] = """Lookup with words of symbolic characters (equal, longer, shorter, different in one character, every case combination), suffix decoding for every letter pair, and all table names: lower case, found in full, documented directives present."""
P["C21"] = """Operator functions found through the evaluator's token dispatch; symbolic operands, result term compared with the documented function in normal form (bit level for shifts and masks), division partitioned by divisor 0, -1, other."""
P["C22"] = """Evaluator on texts of up to 5 tokens with symbolic operands: all pairs and selected triples of binary operators, prefix operators at every place; the result term is compared with the term of an independent precedence parser.  Every directive with an operand grouped by parentheses against the same with brackets: the states after the line (bytes, symbols, conditions, errors) must be equal.  Operators written without an operand, alone, in brackets and after other operands, must be errors."""
P["C23"] = """Each operator with the unresolved flag symbolic on each side; flag of the result compared with the documented rule.  Symbol references in each symbol state."""
P["C24"] = """Literal scanners on strings of 1-11 symbolic digits (patterns of digit classes) followed by every class of next character; value term = positional value, number of characters consumed = number of digits.  Strings of 0-6 symbolic characters, closed and open."""
P["C25"] = """Evaluator with operand texts of all forms, letters in both cases, blanks, and names that begin with register letters; addressing mode and index per operand compared with the form table."""
P["C26"] = """Pass loop with scripts that never settle and several pass limits; macro depth at every level 0-32 and on every way out; evaluation depth from counter values at and around its limit; brackets and prefix operators nested 1-70 deep; emission, fills and gaps against the size limit in every format."""
P["C27"] = """All handlers, the evaluator and the tables are analysed under a monitor: at every division or remainder the divisor's value set must exclude 0 (and -1 with the minimum), at every call through a pointer the points-to set must be non-empty functions only."""
P["C28"] = """All handlers under a monitor that compares every store (and the effect of every library call on memory) with the bounds of its object: lengths of lines, words, names, arguments, strings, paths and messages are chosen around every buffer size of the program (taken from the IR types), contents symbolic.  Bound: operand shapes listed in the check, strings up to 3000 characters."""
P["C29"] = """Typestate of each stream along the pass loop, include handling and the listing/symbol writers, with failure of every open as a separate partition."""
P["C30"] = """`main` with every course (option errors, open failures, errors in passes, aborts, exceptions at exit) x -R; the stream model records removals; must be removed exactly when required."""
P["C31"] = """Option loop analysed with every printable option letter and, per option, the argument classes at and around the documented range; settings after the loop compared with the documented effect and every other setting with its default."""
P["C32"] = """Listing routine on symbol tables of 0-12 symbols spread over chains, with values and flags of every class; listing text parsed back.  The comparison functions on pairs of values around every power of two: antisymmetric, transitive on the sample and agreeing with the requested order."""
P["C33"] = """Listing writer with symbolic bytes (and concrete ones with leading zeros), 0-8 and 100 bytes, addresses and segment flags of every class, skipped and unskipped lines; text written compared with the documented layout; LIST handler for all switch words; switch combinations per file."""
P["C34"] = """`ftohex` on the file model: lengths 0 to 300 around multiples of 16, formats 1-3, up to 3 chunks, with a symbolic data byte at each place in turn and a symbolic origin; each record's fields are compared with terms, the checksum term must cancel modulo 256; truncated files must end with an error."""
P["C35"] = """Error routine with frame stacks of files and macros in several orders, each -E format, each error number; format string and arguments of the message compared.  `line`: place reported by the line reader in scripted sources."""
P["C36"] = """Pass loop with two passes whose first leaves every tracked variable at a symbolic other value; at the first line of the second pass it must be at its initial value; segments' and symbols' records likewise."""
P["C37"] = """Macro call and argument expansion with up to 12 arguments of symbolic characters and several separators; lines with each mark between other text; result text compared.  Missing arguments, comments, quoting, nested calls, skipped lines."""
P["C38"] = """INCBIN with file lengths 0, 1, 3, 100 and around the code buffer size, symbolic contents, skip counts around the length (non-negative), in each pass kind; bytes emitted are the file model's bytes.  Path search over 0-3 directories with each one holding the file or none; file name must be composed as directory + name."""
P["C39"] = """All handlers under a monitor of heap state (live, released) with linked records; a release of a released block or an access to one is reported.  Symbol lists returned by the evaluator are released exactly once on every trace, including error traces."""
P["C40"] = """Line preparation on lines with symbolic label, operand and comment characters: fields, comments, quotes, character constants; sequences of lines for block comments.  Oracle: the fields the line was composed from."""
P["C41"] = """Macro definition over scripted source lines (0-12 lines of different kinds), lookup of the name in any case, and lines delivered on call; redefinition in later passes, in strict mode, in skipped branches, missing ENDM."""
P["C42"] = """The four handlers on lists of 1-3 segments of every flag state with symbolic addresses; SEG with every name (equal, other case, prefix, empty, new) and with and without .U; operand symbolic, resolved or not.  Every field of every segment and the assembler's other settings are compared before and after."""
P["C43"] = """The ECHO handler within the pass loop on item lists of numbers, strings and unresolved items, text on the screen and in the list file compared; 1-3 passes, each with echoes and errors, ending normally or in an abort."""
P["C44"] = """Line reading and splitting on labels with 1-4 parts (expressions and quoted texts of symbolic characters, nine values, every expression unresolved in turn) before each kind of line tail: the resulting label, the texts evaluated and the rest of the line are compared with the documented composition. The SET, SETSTR and SETSYM handlers on the same names: the text finally evaluated and the assigned value."""
P["C45"] = """The pass loop with the summary functions, from states an effect of a line leaves behind: segment lists of 1-4 segments with every combination of unknown and uninitialised marks, symbol tables with several symbols per bucket, all single reasons and sets of them, verbosities 0 to 4. What reaches the screen (whichever call writes it) is split into lines and compared with the documented contents. Over several passes each summary shows the counts and reasons of its own pass; lines that require another pass (one per reason, with resolved counterparts) must record a fitting reason."""
P["C46"] = """The allocation functions on sequences of requests (single sizes around the rounding and area boundaries, mixed and long series) with an environment that hands out fresh blocks or none: every result is resolved to block and offset, and the intervals are checked for containment, alignment, disjointness and cleared contents. With no memory left the run must end with a nonzero status. Bounds: requests up to 16384 bytes, series up to 70."""
P["C47"] = """The statements of all files under machines/ are read from their text (label, operation, operand, comments removed). Every operation is looked up in the directive table, the processor's instruction table (both from the initialisers in the IR) and the macros of the machine; conditionals and macros are matched, includes followed, constant definitions evaluated, and the names in macro bodies resolved against the definitions. The list of names left to the user is fixed in the check."""
P["C48"] = """The definitions of the files are evaluated from their text (equates, DS in segments with origins, conditionals, includes) for several base addresses and compared with tables written from the manuals (spec/machines.py). Not covered: the registers of the 68HC908JB8 and MR32 except the order of high and low bytes and the memory map."""
P["C49"] = """The macro bodies are expanded from their text for each argument and setting; the cycles of the straight-line result are added with a table from the 6502 manual (durations 0 to 79). SET_POINTER, VERTICAL_SYNC and CLEAN_START are decided by constant propagation over the expanded instructions with registers, flags and stores as the domain."""
P["C50"] = """The memory analysis of C28 and C39 with reads included: lines are prepared, split and handed to the directive and instruction handlers from an abstract state with symbols of arbitrary value; every load, store and library call met on any path is checked for a null pointer and against the extent of its object, and the text of a line's fields additionally against its terminator. Expressions are read from objects that end at the terminator, and so are lines while comments and quotes are handled. Bound: the enumerated operand forms (all directives, all instruction classes of all processors, expressions of one, two and, from a smaller token set, three tokens); reads inside a fixed buffer past a string other than the fields are not seen."""
P["C51"] = """As C34: ftobin's main function is interpreted abstractly over an input stream of byte terms (one of them arbitrary) and the written stream is compared with the image the chunk list denotes. Enumerated: lengths around 256 and its multiples, and about 250 sequences of chunks (gaps, overlaps, going back, the end of the address space). Input files cut off inside a chunk are left out."""
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    na = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json")).get("not_applicable", [])}
    bugs = {}
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        bugs.setdefault(json.load(open(d))["property"], []).append(os.path.basename(os.path.dirname(d)))
    out = [HEAD]
    for p in props:
        i = p["id"]
        out.append("### %s %s\n" % (i, p["title"]))
        if i in na:
            out.append("Not applicable: %s\n" % na[i])
            continue
        out.append(P[i] + "\n")
        try:
            e = json.load(open("%s/evidence/%s.json" % (V, i)))
            c = e["coverage"]
            out.append("*Rules:* %s.  *Cost:* %d obligations in %d functions, about %d s.%s\n" % (
                ", ".join(c["rules"]), c["obligations"], len(c["functions_analysed"]), max(1, round(e["wall_s"])),
                "  *Planted:* %s." % ", ".join(bugs[i]) if i in bugs else ""))
        except OSError:
            pass
    out.append("""## Left out on purpose

Behaviour where the manual is silent or the program's behaviour is a matter of
taste is not claimed: a label on a REND line, the default fill of ORG, unmatched closing
brackets (accepted), comment marks inside quotes, a negative INCBIN skip count,
the flag letters shown for segments in the symbol list, the order number of
forward referenced EQU symbols with -T2, negative -v, fill lengths near 2^63, the
line counted by a macro defined in a macro, a -s file that cannot be opened
(a warning only), and a macro argument that contains its own mark `{1}`
(expands forever).

Alarms on the unchanged tree that turned out to be mistakes of a check, of the
engine or of a property text were corrected there; none is listed as a finding.
""")
    out.append("## Defects found\n\nFixed in /repo (commit, property, what failed):\n")
    for l in open(V + "/known_findings.txt"):
        if l.startswith("fixed:"):
            w = l.split(None, 3)
            out.append("* %s (%s) %s" % (w[2], w[1].split("=")[1], w[3].strip()))
    out.append("\nKnown findings (reported as KNOWN-FINDING, not fixed):\n")
    for l in open(V + "/known_findings.txt"):
        if l.startswith("known:"):
            w = l.split(None, 3)
            out.append("* %s, rule %s: %s" % (w[1].split("=")[1], w[2].split("=")[1].replace("_", " "), w[3].strip()))
    out.append("\n## Planted bugs\n\nEach is caught by the check of its property (`tools/catch.sh`).\n\n| bug | caught by | what it breaks |\n|---|---|---|")
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), MISS.get(os.path.basename(os.path.dirname(d)), m["property"]), m["what_it_breaks"]))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
MISS = {}
main()
