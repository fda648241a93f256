#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe,hook_needed=None)))
TESTS="The repository has 15 one-line golden checks over a dozen .asm files; "
p("C01","Every Z80 instruction form assembles to its architectural encoding",
 "For every Z80 mnemonic and operand form the assembler accepts (including the undocumented IXH/IXL/IYH/IYL, SLL and IX/IY bit forms and the 'A,' aliases), the bytes emitted are exactly the Z80 architectural encoding of that form with the operand values in the right place and byte order, and the location counter advances by exactly the number of bytes emitted. An unknown mnemonic, or operands that no form of the mnemonic takes, is reported as an error (a register name where only a value fits is read as a symbol, undefined unless the program defines it).",
 ["inputs","programs"],"all mnemonics, operand forms and immediate values, at any address and in any spelling (case, spacing)",
 TESTS+"none enumerates the instruction set; a single wrong table byte or a form shadowed by another is invisible to them.",
 ["opcodes.cpp","pass_one.cpp","pass_two.cpp"],
 [("operand matching","pass_one.cpp:match_opcode_args"),("encoding","pass_one.cpp:write_instruction_data"),("tables","opcodes.cpp")],
 ["output binary","listing","symbol table"])
p("C02","eZ80 mode: encodings, ADL width and size suffixes are right",
 "With -E, every eZ80 mnemonic and operand form emits its eZ80 encoding; immediate addresses are 3 bytes when the instruction's effective immediate width is long and 2 bytes otherwise, where the width follows the current ADL mode (initially on, changed by .assume adl=) unless a .S/.L/.IS/.IL/.SIS/.LIS/.SIL/.LIL suffix overrides it. A suffix emits exactly one prefix byte, 0x40, 0x49, 0x52 or 0x5B according to the (data, instruction) widths, and the location counter advances by the total size. In 2-byte contexts a value outside -32768..65535 is diagnosed rather than silently truncated.",
 ["inputs","programs"],"all eZ80 mnemonics x operand forms x suffixes x ADL modes x operand values",
 TESTS+"one file covers some undocumented eZ80 forms and one jr offset; suffix x ADL-mode combinations are not sampled.",
 ["opcodes_ez80.cpp","pass_one.cpp","pass_two.cpp","directive.cpp"],
 [("suffix parsing","pass_one.cpp:parse_suffix"),("operand width","pass_one.cpp:write_instruction_data"),("tables","opcodes_ez80.cpp")],
 ["output binary","listing"])
p("C03","A forward reference assembles exactly as if the symbol were already known",
 "An operand or data expression that mentions labels or equates defined later produces the same bytes, and the same range diagnostics, as the same expression evaluated when those symbols are already known, whatever mixture of known labels, defines, macro arguments, operators and $ it contains. Forward references never change the layout: later addresses do not depend on the values resolved. An operand or data expression naming a symbol that is never defined is reported at its file and line and makes the run fail (non-zero exit status).",
 ["programs"],"all programs with operand/data expressions over symbols defined anywhere in the program",
 TESTS+"only one has a (missing) forward reference; none compares forward with backward resolution.",
 ["pass_one.cpp","pass_two.cpp","utils.cpp","parser.cpp"],
 [("deferred expressions","pass_two.cpp:add_pass_two_expr"),("resolution","pass_two.cpp:run_second_pass"),("snapshot","utils.cpp:expand_expr_full")],
 ["output binary","listing","diagnostics","exit status"])
p("C04","Out-of-range relative jumps, index offsets, bit numbers and RSTs are errors",
 "A relative jump is encoded as target minus the address of the next instruction and is accepted exactly when that distance lies in -128..127; an IX/IY displacement exactly when in -128..127; a bit number exactly when in 0..7; an RST vector exactly when it is a multiple of 8 in 0..$38. Every operand outside its range is reported as an error at its own line with the offending distance or offset, and is never silently truncated; this holds for forward as well as backward operands.",
 ["inputs","programs"],"all operand values and all jump distances, forward and backward, both CPU modes",
 TESTS+"they sample one too-far jump and one index offset; boundary distances and forward jumps are not covered.",
 ["pass_two.cpp","pass_one.cpp"],
 [("range checks","pass_two.cpp:write_arg")],["output binary","diagnostics","exit status"])
p("C05","Expressions follow the documented arithmetic for every input",
 "Every expression is evaluated strictly left to right with no operator precedence (parentheses excepted) in 32-bit two's-complement arithmetic over all the documented binary operators (+ - * / % & | ^ << >> && || < > <= >= = == !=) and unary - + ~, with truncating signed division, arithmetic right shift and 0/1 for comparisons. Decimal, hexadecimal ($, h), binary (%, b), character and $ (current address) operands have their exact values. Division or remainder by zero, the one unrepresentable quotient, a literal that does not fit 32 bits, a digit that is invalid in its base, a missing operand and a missing operator are each reported as an error instead of yielding a value. getc(file, n) is byte n of the file, -1 beyond its end.",
 ["inputs"],"all expressions over the operator set, literals of every base and all 32-bit values",
 TESTS+"three files evaluate a handful of literal expressions.",
 ["parser.cpp"],[("evaluator","parser.cpp:parse_num_full"),("literals","parser.cpp:conv_generic, parse_single_num")],
 ["output binary","echo output","diagnostics"])
p("C06","Data directives emit exactly the listed values, sizes and byte order",
 ".db/.byte emit one byte, .dw/.word two and .dl/.long three bytes little-endian per item, in item order; strings emit one byte per character with the escapes \\n \\r \\t \\\\ \\\" \\0-style resolved; list- or string-valued defines are expanded in place. .fill/.block emit exactly count copies of the low byte of the fill value (0 by default). A byte value outside -128..255 is diagnosed, a negative count is an error, and an empty or missing item is an error.",
 ["inputs","programs"],"all item lists, values, strings, escapes and counts",
 TESTS+"one file exercises .db-style data and strings through a macro.",
 ["directive.cpp","pass_two.cpp","utils.cpp"],
 [("emission","directive.cpp:parse_emit_string"),("item splitting","utils.cpp:read_expr_impl, extract_arg_string"),("escapes","utils.cpp:reduce_string")],
 ["output binary","listing"])
p("C07","The location counter, .org and .seek place code and labels consistently",
 "A label's value is the location counter where it is defined, or the value of its .equ / = assignment. Each emitted byte advances the location counter by one; .org changes the counter without moving the output position or emitting bytes, and .seek moves counter and output position by the same amount, so previously emitted bytes can be overwritten and gaps read as zero. $ in any expression is the counter at the start of its instruction (for data, at the item being emitted).",
 ["programs","histories"],"all sequences of code, data, .org, .seek, labels and equates",
 TESTS+"no stable test uses .org or .seek together with labels.",
 ["pass_one.cpp","directive.cpp","storage.cpp"],
 [("counter","pass_one.cpp:handle_opcode_or_macro, directive.cpp:handle_directive"),("labels","storage.cpp:add_label")],
 ["output binary","listing","symbol table"])
p("C08","Conditional assembly assembles exactly the selected branches",
 "In any nesting of #if/#ifdef/#ifndef/#elif/#else/#endif, exactly the first branch whose condition holds is assembled and all statements of the other branches have no effect at all (no bytes, labels, defines, includes or diagnostics), as has everything between #comment and #endcomment. A name counts as defined for #ifdef from its #define (or -D) until its #undef. Unterminated conditionals and a stray #else, #elif or #endif are errors.",
 ["programs"],"all nestings and orderings of conditionals with true, false and unresolvable conditions",
 TESTS+"no stable test contains nested conditionals.",
 ["preop.cpp"],[("skipping","preop.cpp:skip_until, do_if"),("dispatch","preop.cpp:handle_preop")],
 ["output binary","listing","diagnostics"])
p("C09","Defines evaluate to their current contents; redefinition and #undef are exact",
 "A use of a #define (plain, function-like, eval(), concat() or continued with #defcont) yields the value of its contents at that moment: the most recent definition wins, a redefinition that mentions its own name uses the previous contents, eval() freezes the value at definition time, concat() joins its pieces textually, and after #undef the name is unknown. Arguments of function-like defines are evaluated in the caller's scope and nested uses are values, not text pasted into operators. Self-referential definitions are diagnosed by a depth limit instead of hanging or crashing.",
 ["programs","histories"],"all sequences of definitions, redefinitions, removals and uses",
 TESTS+"no stable test redefines a define or uses eval/concat/defcont.",
 ["preop.cpp","storage.cpp","parser.cpp","utils.cpp"],
 [("definition","preop.cpp:handle_preop_define"),("redefinition","storage.cpp:set_define"),("use","parser.cpp:parse_single_num")],
 ["output binary","echo output","diagnostics"])
p("C10","Macro invocation is equivalent to its body with arguments bound and scoped",
 "Invoking a #macro (or a #define that stands for a statement) assembles its body once at the point of use with each parameter bound to the corresponding argument's value at the call, defaults to 'no value' for omitted arguments (using one is an error), and warns about surplus arguments. Bindings are visible in nested invocations, shadow outer names, and disappear when the invocation ends; file and line reporting is restored afterwards. Endless self-invocation is diagnosed instead of crashing.",
 ["programs"],"all macro bodies, arities, argument expressions and invocation nestings",
 TESTS+"three macro files check an empty macro, an empty name and one string argument.",
 ["pass_one.cpp","utils.cpp","storage.cpp","preop.cpp"],
 [("invocation","pass_one.cpp:handle_opcode_or_macro"),("arguments","utils.cpp:parse_args"),("scoping","storage.cpp:add_arg_set, remove_arg_set, search_defines")],
 ["output binary","listing","diagnostics"])
p("C11","Reusable labels (_) resolve by position",
 "Any number of anonymous '_' labels may be defined; '_' and '+_' in an operand denote the next one after the reference, each further '+' skips one more, '-_' denotes the most recent one before it and each further '-' one earlier. The resolution depends only on the position of the reference, whether resolved in the first or second pass and whether in a macro or not; a reference past either end is an error.",
 ["programs"],"all placements of anonymous labels and references of every depth",
 TESTS+"no stable test uses reusable labels.",
 ["storage.cpp","parser.cpp","pass_two.cpp"],
 [("definition","storage.cpp:add_reusable"),("lookup","parser.cpp:parse_single_num")],["output binary","diagnostics"])
p("C12","#include and #import insert the right file's contents in place",
 "#include assembles the named file at the point of inclusion exactly as if its lines stood there, resolving relative names against the main input's directory first (the current directory if the input was named relatively) and then the -I directories in command-line order; nested includes work and, afterwards, line numbering, file name and scoping continue in the includer. #import emits the file's bytes verbatim and advances the counter by its length. A file that cannot be found is an error naming it.",
 ["programs","configurations"],"all include graphs, search-path orders and file contents",
 TESTS+"no stable test includes a file from another directory.",
 ["preop.cpp","main.cpp"],[("search","preop.cpp:full_path"),("inclusion","preop.cpp:handle_preop_include, handle_preop_import")],
 ["output binary","listing","diagnostics"])
p("C13","Every problem is reported once at its line and reflected in outputs and status",
 "Each erroneous statement is reported with the file and line of that statement (also inside includes and after macros, conditionals and comments) and its error code, in source order, and no diagnostic appears for statements that are correct. A problem inside the contents of a define or macro is reported where those contents stand, and a use that triggers it is named as well. After a fatal problem in the first pass no output file is produced and the exit status is 3; otherwise the exit status is 0 exactly when nothing was reported, 1 when only warnings and at least 2 when any error was reported.",
 ["programs"],"all programs mixing correct and erroneous statements",
 TESTS+"five files check that one error text occurs on one line; exit status and absence of extra diagnostics are not checked.",
 ["errors.cpp","utils.cpp","main.cpp"],[("sessions","errors.cpp:ReplaySPASMErrorSession, EndSPASMErrorSession"),("immediate","utils.cpp:show_error, show_warning")],
 ["stdout","exit status","presence of output files"])
p("C14","The listing agrees with the source and with the bytes actually emitted",
 "With -T the listing has one row per source line processed, in processing order, showing that line's number, the location counter before the line, all bytes the line contributed to the final output (forward references resolved, wrapped four per row), and the source text. .nolist/.list suppress and resume rows without affecting the output or later rows, and inclusion of another file is announced by a banner naming the file being listed.",
 ["programs"],"all programs, including multi-row data, macros, includes, skipped branches, .nolist/.list",
 TESTS+"no test reads a listing.",
 ["pass_one.cpp","pass_two.cpp","directive.cpp","preop.cpp"],
 [("rows","pass_one.cpp:do_listing_for_line, run_first_pass"),("bytes","pass_one.cpp:write_out")],["listing file"])
p("C15","The symbol table lists every label once with its final value, sorted",
 "With -L the symbol file contains exactly one line 'NAME = $HEX' per label and per argument-less define with a numeric value, with the final value as at least four upper-case hex digits, sorted alphabetically without regard to case. Every label defined in the program is present, whatever the number of labels, and nothing else is.",
 ["programs"],"all sets of label and define names and values",
 TESTS+"no test reads a symbol file; hash-table growth and collisions are never exercised.",
 ["storage.cpp","hash.cpp"],[("writing","storage.cpp:write_labels"),("table","hash.cpp")],["symbol file"])
p("C16","Counter and statistics modes report exact sizes and instruction times",
 "-C reports the total size of the assembled instructions and the sums of their minimum and maximum T-states (on the eZ80: cycles without wait states), each instruction contributing its architectural size and timing (conditional and repeating instructions have a different minimum and maximum). -S reports the number of labels, the bytes produced by instructions, the bytes produced by data directives and their total. The figures are additive over the program.",
 ["programs"],"all instruction sequences and data mixes",
 TESTS+"no test uses -C or -S.",
 ["pass_one.cpp","directive.cpp","main.cpp","opcodes.cpp","opcodes_ez80.cpp"],[("accounting","pass_one.cpp:handle_opcode_or_macro"),("report","main.cpp:run_assembly")],["stdout"])
p("C17","Calculator program files are well-formed for every payload",
 "For each program/variable format (.73p .82p .83p .8xp .8xv .85p .86p .85s .86s) the file consists of the format's signature, comment, correct data-section and variable lengths (in every place they are repeated), type id, the program name derived from the output file's base name (upper-cased where required, at most 8 characters), the payload exactly as assembled (as hexadecimal text plus trailer for .83p), and the little-endian 16-bit sum of the data section as checksum. Sizes above the calculator's limits, and invalid names or missing program tokens, are diagnosed as warnings or errors as documented.",
 ["inputs","configurations"],"all payload contents and lengths, names and formats",
 TESTS+"all tests write .bin only.",
 ["export.cpp"],[("writer","export.cpp:makeprgm, alphanumeric")],["output file","diagnostics"])
p("C18","Flash application files carry correct fields, records and a valid signature",
 "For a .8xk output with a well-formed application header, the length and page-count fields are patched, the file header carries the app's name, and the image plus a 96-byte signature block is written as TI-format Intel-hex pages with correct record sizes, addresses and checksums. The signature verifies against the public key: it is a Rabin signature of the MD5 of the patched image. A missing length, type, page-count or name field, or lack of room for the signature on the last page, is reported and no image is written.",
 ["inputs"],"all application images (sizes 1 byte over several pages, header field orders, contents)",
 TESTS+"no test produces an application.",
 ["export.cpp"],[("fields and signing","export.cpp:makeapp, siggen, findfield"),("records","export.cpp:intelhex")],["output file","diagnostics"])
p("C19",".hex, .rom, .bin and other outputs encode the assembled bytes losslessly",
 "A .bin output (or one with no extension, or with an unrecognised one, which is warned about) is exactly the assembled bytes; a .rom output is those bytes followed by 0xFF up to 512 KB; a .hex output is a sequence of Intel-hex records that decodes back to exactly those bytes, with a page record every 16 KB, addresses restarting at the page base, at most 32 bytes per record, correct record checksums and one end record. The format is chosen by the output name's extension regardless of letter case.",
 ["inputs","configurations"],"all byte sequences and lengths, especially record/page boundaries, and output names",
 TESTS+"only .bin of a few bytes is produced.",
 ["export.cpp"],[("writers","export.cpp:write_file, intelhex, makerom")],["output file"])
p("C20","Included bitmaps convert to the specified sprite bytes",
 "Including an uncompressed BMP (1-, 4-, 8- or 24-bit) emits, top row first, one bit per pixel (or one bit plane per grey level, most significant plane first) with the brightest pixels 0, rows padded with 0 to whole bytes or to the minimum width, plus the optional header tokens, inverse-colour and mask data in the configured order. If a label stands immediately before, NAME_WIDTH and NAME_HEIGHT (and the image-map labels) are defined with the image's dimensions.",
 ["inputs","configurations"],"all image sizes, depths, palettes, pixel contents and __BM_ options",
 TESTS+"no test includes a bitmap.",
 ["bitmap.cpp"],[("conversion","bitmap.cpp:handle_bitmap, handle_bitmap_internal, handle_bitmap_header")],["output binary","symbol table"])
p("C21","Built-in fcreate buffers assemble exactly the text written to them",
 "wr() appends one line of text (strings and evaluated numbers concatenated) to the current buffer, buf(n) selects one of ten independent buffers, clr() empties the current one, and run() assembles the current buffer's lines in order, exactly as if they stood in the source at that point, and empties it. Running an empty buffer is an error, and problems inside the generated text are reported against the built-in file and its line.",
 ["programs","histories"],"all interleavings of buf/clr/wr/run over the buffers with generated statements",
 TESTS+"no stable test uses fcreate.",
 ["pass_one.cpp","expand_buf.cpp","directive.cpp"],[("buffers","pass_one.cpp:handle_opcode_or_macro"),("text","directive.cpp:parse_emit_string")],["output binary","diagnostics"])
p("C22",".addinstr instructions assemble as declared and take precedence",
 "After .addinstr, the declared mnemonic and operand pattern assembles to the declared opcode bytes followed by its operands with the declared total size, from that point on and until the end of the run; it takes precedence over a built-in form with the same spelling, and all other forms keep assembling as before. A malformed or over-long declaration is an error and changes nothing.",
 ["programs"],"all declarations (mnemonics, patterns, opcode lengths, sizes) mixed with built-in instructions",
 TESTS+"one file checks that an over-long declaration is rejected.",
 ["directive.cpp","pass_one.cpp"],[("declaration","directive.cpp:handle_directive"),("lookup","pass_one.cpp:match_opcode_args")],["output binary","diagnostics"])
p("C23","Symbol case rules: insensitive by default, exact with -A",
 "By default labels, defines, macros and parameters that differ only in letter case are the same symbol and appear in upper case in the symbol table; with -A they are distinct and keep their spelling. Mnemonics, registers, directives and preprocessor commands are case-insensitive in both modes.",
 ["programs","configurations"],"all programs over symbols in arbitrary mixed case, with and without -A",
 TESTS+"no test uses -A or mixed-case symbols.",
 ["storage.cpp","modp_ascii.cpp","hash.cpp"],[("folding","storage.cpp:add_label, search_labels, search_defines"),("upper-casing","modp_ascii.cpp")],["output binary","symbol table","diagnostics"])
p("C24","Command-line options have exactly their documented effect",
 "-D defines a name (value 1 if none is given) before assembly, -I appends include directories (also ;- or ,-separated), -V assembles the given text instead of a file, -O suppresses the output file (and without -T or -L the second pass), -T/-L/-S add listing, symbol table and statistics without changing the assembled bytes, -C reports instruction counts, -E and -A select eZ80 and case sensitivity, and the default output name is the input name with extension .bin. Options may come in any order relative to each other and to the file names; a missing or unreadable input is reported with a failing status and no output.",
 ["configurations"],"all combinations and orders of options and file names",
 TESTS+"the runner always uses the same command line.",
 ["main.cpp"],[("argument parsing","main.cpp:main"),("driver","main.cpp:run_assembly")],["files written","stdout","exit status"])
p("C25",".echo, .error and .show print the right text at the right time",
 ".echo prints its items concatenated (numbers in signed decimal, strings with escapes resolved) with values as of the statement for symbols already known and with final values for symbols defined later, in source order; '.echo >file' writes the text to the file instead and '>>file' appends. .error reports its text as an error at that line, and .show prints the named define with its parameters and contents.",
 ["programs"],"all item lists over strings, known, forward and undefined symbols, interleaved with redefinitions",
 TESTS+"a few tests use .echo of a constant as an oracle.",
 ["directive.cpp","pass_two.cpp"],[("echo","directive.cpp:handle_directive, parse_emit_string"),("deferral","pass_two.cpp:add_pass_two_output, run_second_pass"),("show","directive.cpp:show_define")],["stdout","echo files"])
p("C26","Layout, comments, line endings and statement joining do not change meaning",
 "The assembled bytes, symbols and diagnostics do not depend on the amount of blank space, on comments, on LF versus CRLF line endings, on a missing final newline, on a UTF-8 byte-order mark, on blank lines (apart from line numbers), on the letter case of keywords, or on whether consecutive statements are written on separate lines or joined with '\\'. Semicolons, backslashes, commas and parentheses inside string and character literals are data, not syntax.",
 ["programs"],"all pairs of programs that differ only in such layout",
 TESTS+"each file has exactly one layout.",
 ["utils.cpp","pass_one.cpp"],[("scanning","utils.cpp:skip_to_line_end, read_expr_impl, next_code_line, get_file_contents"),("statements","pass_one.cpp:run_first_pass_line")],["output binary","symbol table","diagnostics"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
