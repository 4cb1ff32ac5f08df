#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Linked ROM sections are placed intact, in bounds and without collisions",
  "In every ROM the linker writes successfully, each kept ROM section occupies one contiguous run of bytes inside a single ROM bank, holding exactly the bytes assembled for it, within the start and end limits its kind, position, alignment, offset and window ask for. No two sections, and no section and any code or data placed outside sections, share a byte unless one of them is of a kind that is documented to overwrite or a forced section brings the very bytes that are there already. When no such placement is found the link fails and leaves no ROM.",
  ["programs", "configurations"],
  "all sets of ROM sections (FREE, FORCE, SEMIFREE, SEMISUBFREE, SUPERFREE, SEMISUPERFREE, OVERWRITE, ABSOLUTE, BANKHEADER; sizes, alignments, offsets, windows, priorities) over all memory maps, bank maps and fixed blocks",
  "the tests link a handful of fixed layouts; placement depends on the combination of kinds, sizes, alignments, free gaps and banks",
  ["wlalink/write.c", "wlalink/memory.c", "wlalink/analyze.c"],
  [("insert_sections and the per-kind insertion routines", "wlalink/write.c"), ("ROM usage map", "wlalink/memory.c")],
  ["ROM image bytes", "symbol file [sections] and [labels]", "exit status of wlalink"],
  [("ROM usage map", "which bytes are taken", "wlalink/memory.c")])

p("C02", "ROM sections go to the first suitable address in the documented order",
  "The linker places ROM sections kind by kind in the order absolute, FORCE, SEMISUPERFREE, SEMISUBFREE, SEMIFREE, FREE, SUPERFREE, OVERWRITE (or the order the link file gives), and inside a kind by descending priority, then descending size, then source order, unless the options that change this (plain priority order, no sorting) are given. Each section takes the lowest address (and for kinds that may choose, the first bank of its bank list) where its aligned start, offset, size and window fit in free space, so the final address of every section is a function of the program alone.",
  ["programs", "configurations"],
  "all sets of sections with equal or different kinds, priorities, sizes, banks, alignments; all write orders and sorting options",
  "each test fixes one order; first-fit results depend on the interaction of every earlier placement",
  ["wlalink/write.c", "wlalink/main.c", "wlalink/files.c"],
  [("sort_sections", "wlalink/write.c"), ("section write order", "wlalink/files.c")],
  ["symbol file [sections]", "ROM image bytes"])

p("C03", "RAM sections are allocated without overlap inside their slot and bank",
  "Every RAM section gets an address range inside its slot, at the forced, semi-free, semi-subfree or free position it asks for, with the requested alignment and offset, and two RAM sections never share an address in the same bank and slot. Every variable label has the address of its section plus the sizes of the variables before it, the per-slot RAM usage labels give the lowest and highest used address, and RAM sections never change the ROM image.",
  ["programs", "configurations"],
  "all sets of RAM sections over kinds, sizes, banks, slots, alignment, offset and order",
  "tests contain a few layouts in one slot",
  ["wlalink/write.c", "phase_1.c"],
  [("RAM section insertion", "wlalink/write.c"), ("generate_ram_bank_usage_labels", "wlalink/write.c")],
  ["symbol file [labels] and [ramsections]", "ROM image bytes"])

p("C04", "Appended and following sections keep their order, offset and alignment",
  "A section that is appended to another becomes part of it: its bytes follow the target's bytes and those appended earlier, its labels move with it, and the merged section is placed as one. A section placed after another starts directly after it plus the requested offset, in the same bank, and a section to be placed after a missing or dead section, or in a circle, is an error and not a silent misplacement.",
  ["programs"],
  "all forests of APPENDTO and AFTER relations over ROM and RAM sections with sizes, alignments, offsets and priorities",
  "two tests append a few sections to one target",
  ["wlalink/write.c", "wlalink/analyze.c"],
  [("append_sections", "wlalink/write.c")],
  ["ROM image bytes", "symbol file"])

p("C05", "Discarding drops exactly the unreferenced sections",
  "With unreferenced-section discarding enabled, the linker drops a discardable section exactly when nothing outside it that remains refers to it (directly, in calculations or through definitions), repeating until nothing more can go: sections that are fixed, kept or referred to from code outside sections stay, and so do those that remaining sections refer to; all other discardable sections leave no byte in the ROM and no label. Without that option every section is kept.",
  ["programs", "configurations"],
  "all reference graphs between sections, section kinds, KEEP flags and option settings",
  "reachability is a property of the whole graph; the tests use trivial graphs",
  ["wlalink/discard.c", "wlalink/main.c"],
  [("discard_unused_sections", "wlalink/discard.c")],
  ["ROM image bytes", "symbol file [labels]"])

p("C06", "A reference is filled with its label's final address or rejected",
  "Every 8, 9, 13, 16, 24 or 32-bit direct reference and every 8 or 16-bit relative reference to a label, in any section, file and bank, is replaced in the ROM by the label's final address (or distance from the next instruction) in the byte order of the processor. When the value of an 8-bit or relative reference or of a calculation does not fit its field, or the label does not exist, the link fails instead of writing a truncated value (a 16-bit reference to a label always takes the address within its slot).",
  ["programs", "inputs"],
  "all pairs of reference sites and labels over sections, banks, slots, files, reference kinds and distances, including both ends of each range",
  "the tests hold a few references with ordinary distances; the limits and the combinations are not sampled",
  ["wlalink/write.c", "wlalink/memory.c", "phase_4.c"],
  [("fix_references", "wlalink/write.c"), ("fix_label_addresses", "wlalink/write.c")],
  ["ROM image bytes", "exit status"])

p("C07", "Bank numbers, slots, base and 24-bit addresses follow the memory model",
  "The bank of a label (by the bank operator and functions) is the ROM or RAM bank where it was finally placed plus its base, and its processor address is the start of its slot plus its offset in the bank. On the 65816 the 24-bit address combines the two, with the LoROM, HiROM, ExLoROM and ExHiROM modes mapping the ROM offset to the documented bank.",
  ["programs", "configurations"],
  "all memory maps, ROM bank maps with banks of different sizes, slots, bases, SNES modes and label positions",
  "tests check a few labels in one mode each",
  ["wlalink/write.c", "wlalink/main.c", "phase_1.c"],
  [("get_snes_pc_bank", "wlalink/write.c"), ("bank addresses", "wlalink/main.c")],
  ["ROM image bytes", "symbol file [labels]"])

p("C08", "Constant expressions have the value of their documented arithmetic",
  "An expression made of number literals in any supported notation, definitions, parentheses, unary minus and the arithmetic, bit, shift, comparison and logical operators and integer functions has the value given by the documented precedence and left-to-right association, wherever an expression is accepted. Division keeps fractions until the value is used as an integer, which then truncates toward zero, and division or modulo by zero is an error.",
  ["inputs"],
  "all expressions over the operator set, literal notations and nesting",
  "tests check individual expressions; precedence, association and sign handling interact pairwise",
  ["stack.c", "parse.c"],
  [("infix to postfix conversion", "stack.c"), ("compute_stack", "stack.c")],
  ["ROM image bytes of .DB/.DW/.DD", "exit status"])

p("C09", "An expression has the same value whether the assembler or the linker computes it",
  "An expression that mentions labels and so is left to the linker has exactly the value obtained by putting the labels' final addresses in their places and evaluating it by the same rules as a constant expression. The linker checks the result against the width of the field and fails when it does not fit, and it detects unresolvable or self-referring calculations instead of writing a value.",
  ["inputs", "programs"],
  "all expressions over labels, definitions and literals, field widths and placements",
  "two separate evaluators must agree on every operator, nesting and value range; tests sample few",
  ["wlalink/write.c", "stack.c", "phase_4.c"],
  [("compute_stack", "wlalink/write.c"), ("compute_pending_calculations", "wlalink/write.c")],
  ["ROM image bytes", "exit status"])

p("C10", "Anonymous and child labels resolve to the documented nearest or parent label",
  "A reference to a plus label means the nearest following label of the same number of signs, a minus label the nearest preceding or current one, and the underscore forms the next or previous double-underscore label, always inside the same section (or outside all sections) of the same file. A label starting with at-signs belongs to the latest label one level up, so the same child name under different parents denotes different addresses.",
  ["programs"],
  "all interleavings of anonymous labels of every kind and depth, child labels, references and sections",
  "the tests use one or two loops; the result depends on the interleaving",
  ["wlalink/write.c", "phase_1.c", "phase_3.c", "phase_4.c"],
  [("get_closest_anonymous_label", "wlalink/write.c"), ("child label expansion", "phase_1.c")],
  ["ROM image bytes", "exit status"])

p("C11", "Names are visible exactly in their scope and clashes are rejected",
  "A label whose name starts with an underscore is visible only in its own section or file, a label in a namespace is reached by its qualified name and by its plain name inside that namespace, and any other label is visible in all objects of the link. Two visible labels of one name, or a reference to a name that is not visible, make the build fail, and local labels of different sections or files never interfere.",
  ["programs"],
  "all assignments of labels and references to files, sections and namespaces",
  "scoping is a relation between all definitions and all uses; tests contain few of them",
  ["wlalink/analyze.c", "wlalink/write.c", "phase_1.c", "phase_3.c", "phase_4.c"],
  [("label maps per file, section and namespace", "wlalink/analyze.c"), ("find_label", "wlalink/write.c")],
  ["ROM image bytes", "exit status"])

p("C12", "Macro calls expand to their body with the call's own arguments",
  "A macro call produces exactly what its body would produce with each argument reference replaced by the call's argument, including named arguments, argument count, shifting, per-call counters and calls nested in other macros, loops and conditionals. Arguments of an outer call are unaffected by inner calls, and after the call assembly continues with the line after it.",
  ["programs", "inputs"],
  "all macro definitions and call trees over argument kinds, shifts and nesting",
  "expansion state is a stack; the tests exercise shallow fixed shapes",
  ["phase_1.c", "parse.c", "stack.c"],
  [("macro call stack", "phase_1.c")],
  ["ROM image bytes", "exit status"])

p("C13", "Loops repeat their body exactly as often as stated",
  "A repeat block assembles its body exactly the given number of times with its index counting from zero, a while block assembles it as long as its condition holds, and break and continue leave or restart exactly the innermost loop, at any nesting with each other, with conditionals and with macros. A count of zero or an initially false condition produces nothing.",
  ["programs", "inputs"],
  "all nestings of repeat, while, break, continue, conditionals and macro calls with all small counts",
  "loop state is a stack shared with conditionals and macros",
  ["phase_1.c", "include.c"],
  [("repeat and while stacks", "phase_1.c")],
  ["ROM image bytes", "exit status"])

p("C14", "Conditional assembly selects exactly one branch",
  "Of an if/elif/else chain exactly the first branch whose condition holds is assembled, or the else branch if there is none, and nothing in a skipped branch has any effect, however the skipped text nests further conditionals, macros or loops. The comparing, defined, exists and macro-argument forms of the directive test what they say, and a chain with too many or misplaced elses or ends, or without an end, is an error.",
  ["programs", "inputs"],
  "all condition trees over all directive forms",
  "the tests cover each form once or twice, not their nesting",
  ["phase_1.c"],
  [("find_next_point and the ifdef level", "phase_1.c")],
  ["ROM image bytes", "exit status"])

p("C15", "Definitions follow the source order of define, redefine and undefine",
  "A use of a definition has the value most recently assigned before it in assembly order, an undefined name is no longer usable or defined, defining an existing name again is an error while redefining is not, and an enumerating definition advances by its step. An exported definition is usable in every object of the link with its last value, and one that is not exported is unknown there.",
  ["programs", "histories"],
  "all sequences of definition operations and uses, over numbers and strings, in one or more files",
  "the value depends on the history of operations",
  ["phase_1.c", "parse.c", "wlalink/analyze.c"],
  [("definition map", "phase_1.c")],
  ["ROM image bytes", "exit status"])

p("C16", "Structures, unions and enumerations lay out members without gaps",
  "A structure's member offsets are the sums of the preceding members' sizes (with unions taking the largest alternative, nested structures, arrays and size overrides accounted for), its size definition is the total, and enumerations count up or down from their start by member size. Instances in RAM sections, enumerations and initialised data give labels and bytes at exactly those offsets.",
  ["programs"],
  "all nestings of structures, unions, arrays and enumerations with all member kinds",
  "layout is recursive; tests hold a few shapes",
  ["phase_1.c"],
  [("structure parsing and label generation", "phase_1.c")],
  ["symbol file [labels] and [definitions]", "ROM image bytes"])

p("C17", "Data directives emit exactly the stated bytes",
  "Every data directive (bytes, words, 24-bit and 32-bit values, strings, blocks, filled spaces, tables with rows and data, bit strings, hex strings, sine and cosine tables) emits exactly the values it states, in the processor's byte order and in source order, and the position counter and following labels advance by exactly that many bytes. A value that does not fit its unit is an error.",
  ["inputs", "programs"],
  "all directive sequences and operand values including both ends of each range",
  "range limits, byte orders and mixtures are sampled only at ordinary values",
  ["phase_1.c", "phase_3.c", "phase_4.c"],
  [("data directive parsers", "phase_1.c"), ("object output", "phase_4.c")],
  ["ROM image bytes", "symbol file [labels]", "exit status"])

p("C18", "Character and string mapping tables translate text exactly",
  "With a character mapping active, mapped strings emit for each character the mapped value (range mappings, single mappings and defaults), and characters outside the table emit their own code; string maps emit the longest-match translation of the text from their table, and text that no entry matches is an error. Unmapped string directives are not affected.",
  ["inputs", "programs"],
  "all mapping tables and strings",
  "one table and a few strings are tested",
  ["phase_1.c"],
  [("asciitable and stringmap", "phase_1.c")],
  ["ROM image bytes"])

p("C19", "Included binary data is embedded byte for byte",
  "Including a binary file emits the file's bytes from the requested offset (skip) for the requested count, optionally byte-swapped in pairs or filtered, and defines the size name as the number of bytes read; asking for more than the file holds is an error. Reading the same file through the file-access directives yields the same bytes in order and detects the end of the file.",
  ["inputs"],
  "all file lengths, skips, read counts and flags",
  "tests use one file with few parameters",
  ["include.c", "phase_1.c"],
  [("incbin_file", "include.c")],
  ["ROM image bytes", "exit status"])

p("C20", "The ROM image has the declared size and holds every fixed block in place",
  "The written ROM is the concatenation of the declared banks, code and data outside sections appear at the bank, origin and slot that were selected for them, unused bytes have the declared fill value, and partial output options cut the image at the requested or used limits. Writing outside the bank is an error.",
  ["programs", "configurations"],
  "all bank maps, origins, fill values, background images and output options",
  "tests check a few images",
  ["wlalink/write.c", "wlalink/main.c", "phase_1.c", "phase_3.c"],
  [("parse_data_blocks", "wlalink/analyze.c"), ("write_rom_file", "wlalink/write.c")],
  ["ROM image bytes", "exit status"])

p("C21", "Header checksums are correct for the bytes finally written",
  "When a Game Boy, Master System, SNES or Mega Drive checksum or complement is requested, the value in the written ROM equals the platform's documented sum over the final image, with the header's own checksum bytes treated as the platform specifies, for every content and every legal size. The other header bytes have the values the directives state.",
  ["inputs", "configurations"],
  "all ROM contents and sizes, header options and bank layouts",
  "tests check one content per size",
  ["wlalink/compute.c", "phase_4.c", "phase_1.c"],
  [("compute_checksums", "wlalink/compute.c")],
  ["ROM image bytes"])

p("C22", "Splitting a program into objects and libraries does not change its meaning",
  "A program whose parts refer to each other by global names links to the same image whether the parts are assembled as one file, as included files, or as separate objects in the same order, and library code gets the bank, slot, origin and base the link file assigns to it. Every cross-object reference gets the address the target has in the final image.",
  ["programs", "configurations"],
  "all partitions of programs into objects and libraries",
  "each test links one fixed partition",
  ["wlalink/files.c", "wlalink/analyze.c", "wlalink/write.c", "phase_4.c"],
  [("load_files", "wlalink/files.c"), ("collect_dlr", "wlalink/analyze.c")],
  ["ROM image bytes", "symbol file"])

p("C23", "Symbol files state the truth about the ROM",
  "In the symbol files, every label is listed with its final bank and address, every exported definition with its value, every section with its bank, offset, address and size, address-to-line entries point to the source line that produced the byte, and label sizes equal the distance to the next label or section end. Nothing is listed that is not in the program, and no surviving label is missing.",
  ["programs", "configurations"],
  "all programs and symbol file options",
  "one symbol file is compared in the tests",
  ["wlalink/write.c", "wlalink/listfile.c"],
  [("write_symbol_file", "wlalink/write.c"), ("generate_sizeof_label_definitions", "wlalink/write.c")],
  ["symbol file", "ROM image bytes", "list file"])

p("C24", "Builds are reproducible",
  "Assembling and linking the same inputs with the same options gives byte-identical objects, ROM images and symbol files, regardless of the directory, environment, time, output names and of files left over from earlier runs. Options that only ask for more messages or extra output files do not change the ROM.",
  ["histories", "configurations"],
  "all programs, working directories, environments and repeated runs",
  "tests run once in one place",
  ["main.c", "phase_4.c", "wlalink/main.c", "wlalink/write.c"],
  [("object output", "phase_4.c")],
  ["object, ROM and symbol file bytes"])

p("C25", "Instructions assemble to the processor's machine code",
  "For the supported instructions of the 6502, Z80, Game Boy, 65816 and related processors, every mnemonic with every operand form assembles to the opcode and operand bytes of the processor's documentation, choosing the addressing mode by operand value and size hints, with operands in the right order and byte order. Operands outside the encodable range, including branch distances, are errors.",
  ["inputs"],
  "all instructions, operand forms and operand values",
  "each opcode is tested with one operand value at most; the operand ranges and forms are not",
  ["decode.c", "iz80.c", "i6502.c", "igb.c", "i65816.c", "parse.c"],
  [("instruction tables and matching", "decode.c")],
  ["ROM image bytes", "exit status"])

p("C26", "A failed build is reported and leaves no plausible output",
  "Whenever the assembler or the linker meets an error (unknown directive or name, wrong operand, unbalanced block, missing file, overflow of a bank, slot or field), it ends with a nonzero exit status and leaves no incomplete object, respectively ROM, under the requested name. A zero exit status means that the complete output was written.",
  ["inputs", "fault_sequences"],
  "all erroneous programs, link files, option sets and missing files",
  "tests only contain programs that build",
  ["main.c", "phase_1.c", "phase_4.c", "wlalink/main.c"],
  [("exit status", "main.c")],
  ["exit status", "presence of the output file"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
