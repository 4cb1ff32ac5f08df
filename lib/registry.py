"""The checks: which specification, which generators and which disagreements decide each property."""
import gen_link, prof_link as PL


class Part:
    def __init__(self, dom, name, gen, quick, thorough, classes=None, tools=("wla-z80",), fixed=None):
        self.dom, self.name, self.gen, self.quick, self.thorough = dom, name, gen, quick, thorough
        self.classes, self.tools, self.fixed = (set(classes) if classes else None), ["%s" % t for t in tools], fixed


def W(*cpus):
    return ["wla-" + c for c in cpus]


TLC = ("TLA+ specification checked with TLC; %s. Programs generated from the abstract machine are run through the real "
       "tools and every recorded execution is replayed in the specification, which must accept it.")
BOUND = "Invariants hold in every state TLC reaches for the explored programs; programs outside the explored ones are not covered. "

CHECKS = {}
NA = {
    "C25": "not specified within the time: about 20 instruction sets of hundreds of table rows each; the operands' fields, ranges and distances are covered by C06, C08 and C09",
}


def check(i, technique, note, parts, mc=()):
    CHECKS[i] = dict(technique=TLC % technique, note=BOUND + note, parts=parts, mc=list(mc))


four = W("z80", "6502", "65816", "gb")
PLACE = {"rc", "crash", "place", "data", "blk", "fill", "size"}
check("C01", "WlaLink: section placement as transitions, invariants InBounds, NoRomOverlap, Intact, Aligned",
      "Up to 8 sections of every kind over up to 4 banks of up to 64 bytes, with windows, alignment, offsets and priorities.",
      [Part(gen_link, "place", PL.p_place, 1500, 4000, PLACE, four, PL.fixed_place)])
check("C02", "WlaLink: placement order and first fit as deterministic transitions",
      "As C01, comparing the final address of every section with the only one the specification allows.",
      [Part(gen_link, "order", PL.p_place, 1500, 4000, {"rc", "crash", "sec"}, four)])
check("C03", "WlaLink: RAM allocation as transitions, invariants InBounds, NoRamOverlap, Aligned",
      "Up to 6 RAM sections of every kind over 3 banks and 2 slots.",
      [Part(gen_link, "ram", PL.p_ram, 1500, 4000, {"rc", "crash", "ramsec", "usage", "lab", "data", "blk", "fill", "size", "img"}, four)])
check("C04", "WlaLink: appended and after-sections, RAM windows and slots as transitions",
      "Up to 6 sections with APPENDTO/AFTER chains over ROM and RAM.",
      [Part(gen_link, "rel", PL.p_rel, 1500, 4000, {"rc", "crash", "sec", "ramsec", "lab", "data", "img", "ref"}, four)])
check("C05", "WlaLink: discarding as the greatest fixed point of unreferenced sections, invariant KeptReachable",
      "Up to 8 sections with references, KEEP, '!' names, APPENDTO/AFTER chains, RAM sections, several objects.",
      [Part(gen_link, "discard", PL.p_discard, 1500, 4000, {"rc", "crash", "sec", "ramsec", "lab", "data", "fill", "img"}, four)])
nine = four + W("6800", "6809", "spc700", "huc6280")
check("C06", "WlaLink: references resolved one per transition, with the range of every field",
      "Up to 5 ROM and 3 RAM sections, references of 8/16/24/32 bits and relative ones at and around the limits of their fields on 8 CPUs.",
      [Part(gen_link, "ref", PL.p_ref, 1500, 4000, {"rc", "crash", "ref", "data", "img"}, nine)])
check("C22", "WlaLink: the same machine over a program cut into objects, included files and libraries in any order",
      "The programs of C01 to C06 spread over up to 8 objects and libraries ([libraries], with banks, slots and bases, RAM sections through [ramsections]) and up to 3 levels of "
      "included files.",
      [Part(gen_link, "split", PL.p_split, 1500, 6000, None, nine)])
check("C23", "WlaLink: everything the symbol files list (labels, symbols, breakpoints, definitions, sizes, sections, RAM use, lines of the source) as functions of the final state",
      "The programs of C01 to C06 with symbols, breakpoints, exported definitions, -S with -A, -D, -s and -sE, includes and several objects; SNES modes and list files are not covered.",
      [Part(gen_link, "sym", PL.p_sym, 1500, 6000, None, nine)])
import gen_calc
calc = W(*gen_calc.CPUS)
check("C07", "WlaCalc: places of labels in the memory map, banks by SNES mode, one action per element",
      "Up to 5 labels over 8 banks and 2 slots with bases, SNES modes and RAM sections; fields with the bank operators, addresses and 24-bit addresses.",
      [Part(gen_calc, "bank", gen_calc.p_bank, 1500, 4000, None, calc)])
check("C08", "WlaCalc: operator-precedence machine, one action per token and reduction",
      "Expressions of up to about 20 operators in data directives, instructions, definitions and conditions, with values at the limits of their fields; "
      "only values binary floating point and 30-bit integers represent exactly.",
      [Part(gen_calc, "const", gen_calc.p_const, 1500, 4000, None, calc)])
check("C09", "WlaCalc: the same machine for expressions with labels, whoever evaluates them",
      "Expressions of up to about 10 operators over up to 5 labels in and outside sections and objects, through definitions too.",
      [Part(gen_calc, "linkcalc", gen_calc.p_linkcalc, 1500, 4000, None, calc)])
import gen_asm
asm = W(*gen_asm.CPUS)
check("C12", "WlaAsm: an interpreter of source lines with a stack of macro frames, invariants Nesting, Visible",
      "Up to 4 macros of up to 4 arguments (numbers, strings, labels, definitions by name), numbered and named, with SHIFT, NARGS, counters, recursion, and calls "
      "in loops, conditionals and macros.",
      [Part(gen_asm, "macro", gen_asm.p_macro, 1500, 4000, None, asm)])
check("C13", "WlaAsm: a stack of loops, invariant Loops",
      "REPT with and without INDEX and WHILE, up to 3 deep, with BREAK and CONTINUE anywhere, in macros and conditionals.",
      [Part(gen_asm, "loop", gen_asm.p_loop, 1500, 4000, None, asm)])
check("C14", "WlaAsm: a stack of conditionals and a skipping mode that only counts depth, invariant Taken",
      "Chains of up to 5 branches nested up to 3 deep with every form of condition; 10 % of the programs are unbalanced.",
      [Part(gen_asm, "cond", gen_asm.p_cond, 1500, 4000, None, asm)])
check("C15", "WlaAsm: definitions as a function changed by DEFINE, REDEFINE, UNDEFINE and ENUMID",
      "Definitions of numbers, strings and calculations with names known only later, and their use from a second object.",
      [Part(gen_asm, "defs", gen_asm.p_defs, 1500, 4000, None, asm)])

import gen_names
names = W(*gen_names.CPUS)
check("C10", "WlaNames: a stack of label contexts with parents per level, one action per label and reference, invariants Parents, OneEach, Seen",
      "Up to 3 objects of up to 8 chunks of about 12 labels and references: anonymous labels of every kind, children up to 5 deep, isolated and CHILDLABELS macros; "
      "not children of labels of another namespace, nor scopes of APPENDTO sections, which are undocumented.",
      [Part(gen_names, "anon", gen_names.p_anon, 1500, 6000, None, names)])
check("C11", "WlaNames: every reference resolved by one action to the label its scope gives it, invariants Parents, OneEach, Seen",
      "As C10 with section and include namespaces, local labels, several objects and clashing names.",
      [Part(gen_names, "scope", gen_names.p_scope, 1500, 6000, None, names)])

import gen_data
data = W(*gen_data.CPUS)
check("C17", "WlaData: one action per data directive, a column machine for tables, a waiting bit and unit, invariants Columns, Waiting, Units",
      "Up to about 12 directives of every width and endianness with values at the limits, strings, labels, definitions, tables (.ROW/.DATA), .BITS, arrays and generators.",
      [Part(gen_data, "data", gen_data.p_data, 1500, 4000, None, data)])
check("C18", "WlaData: characters through .ASCIITABLE, .STRINGMAPTABLE and escapes, one action per directive, invariants Marks, Codes",
      "Up to about 10 directives over character tables, string map tables with longest match, escapes and string operators.",
      [Part(gen_data, "text", gen_data.p_text, 1500, 4000, None, data)])
check("C19", "WlaData: files as sequences of bytes, handles with positions, one action per directive, invariants Handles, Units",
      "Up to about 9 .INCBINs with every combination of SKIP, READ, SWAP, FSIZE, FREADSIZE, FILTER and FILTERSIZE and file directives over up to 4 files of up to 60 bytes; "
      "empty files are open.",
      [Part(gen_data, "files", gen_data.p_files, 1500, 6000, None, data)])

import gen_image
image = W(*gen_image.CPUS)
check("C20", "WlaImage: the ROM as a sequence of banks, one action per block, background and header directive, then the output cut by the linker's options; invariants Once, Inside",
      "Up to about 12 blocks over up to 17 banks of equal or unequal sizes (up to 72 64 KB banks with ExHiROM), all fill values, backgrounds with .UNBACKGROUND, SMC headers, -b with -bS/-bE "
      "by address or label, ROM headers and footers in the link file; refusals where a block leaves its bank.",
      [Part(gen_image, "image", gen_image.p_image, 1500, 6000, {"bytes", "size", "accepted", "rc", "crash"}, image)])
check("C21", "WlaImage: header bytes and sums as actions on the finished image, invariant Sound",
      "Game Boy, Master System, SNES (LoROM, HiROM, ExHiROM) and Mega Drive headers with every field in and out of range, over ROMs of up to 17 banks (72 with ExHiROM) with content at and around the header; "
      "SNES sizes whose remainder is not a power of two and Master System ROMSIZE codes 3-9 are not generated.",
      [Part(gen_image, "sums", gen_image.p_sums, 1500, 6000, None, image)])

import gen_layout
check("C16", "WlaLayout: structures, unions and enumerations as a stack of frames, one action per source line; invariants Inside, NoGaps, Alternatives",
      "Up to 4 nested structures, unions nested 3 deep, arrays with SIZE and STARTFROM, imported and dotted members, ascending and descending enumerations, RAM sections and .DSTRUCTs in both "
      "syntaxes with labels, sizes, paddings and bytes; refusals (sizes too small, unknown structures, unions left open).",
      [Part(gen_layout, "layout", gen_layout.p_layout, 1500, 8000, None, W(*gen_layout.CPUS))])

import gen_build
build_ = W(*gen_build.CPUS)
check("C24", "WlaBuild: histories of tool runs over a file system, invariants Function, Paths",
      "Programs of 14 other generators built up to 5 times in other directories and environments, with other output and object names, leftovers of other builds and options "
      "that only ask for messages, symbol or list files; the output of every run depends on its inputs and options only, and only its outputs change. The time of day is not varied.",
      [Part(gen_build, "repro", gen_build.p_repro, 1200, 8000, None, build_)])
check("C26", "WlaBuild: the same machine with faults; a failed run leaves no output but the old or the right one",
      "Programs of 14 other generators with about 100 kinds of errors in sources and link files, lost inputs, damaged objects, unwritable outputs and file size limits in every "
      "step; truncated objects are not covered.",
      [Part(gen_build, "fault", gen_build.p_fault, 1500, 10000, None, build_)])
