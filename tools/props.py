"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
A, D, EL, MA, TG = "src/artifact.rs", "src/artifact/decl.rs", "src/elf.rs", "src/mach.rs", "src/target.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                  anchors={"files": list(files), "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                           "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": list(observe), "hook_needed": None}))


H, I, C, FS = "histories", "inputs", "configurations", "fault_sequences"
prop("F01", "Redeclaration follows the documented merge table",
     "Declaring a name again succeeds exactly when the pair (declaration in force, new declaration) is compatible: identical, import then matching import, "
     "import upgraded to a definition of the same kind, or a definition followed by an import of its kind; any other pair is refused with "
     "IncompatibleDeclaration naming the old and the new declaration. The declaration in force afterwards is the definition if either was one and "
     "otherwise the import; whether the name is already defined, and all other declarations, are untouched.",
     [H, I], "every state the name can be in, every new declaration with every attribute value, any other contents of the artifact",
     "unit tests redeclare a handful of pairs with default attributes; the table has 5x5 kinds with free attributes, in any history",
     [A, D], [("absorb", D), ("Artifact::declare", A)], [("declarations", "name -> declaration in force, defined flag", A)], ["declare", "declare_with", "declarations", "import"])
prop("F02", "The import list mirrors the declarations",
     "At every moment the artifact's imports are exactly the names whose declaration in force is an import, each listed once with that declaration's kind; "
     "upgrading an import to a definition removes that name and no other, and listing imports shows each name with its own kind.",
     [H], "every reachable declaration history: any number of other imports before and after the one affected",
     "tests upgrade one or two imports; removal by index and duplicate suppression depend on position and history",
     [A], [("Artifact::declare", A), ("Artifact::imports", A)], [("imports", "ordered import list", A)], ["imports", "declare", "import"])
prop("F03", "Definitions are admitted exactly when documented",
     "Defining a name fails exactly when the name is undeclared, already defined, declared as an import, is given custom symbols without being a section, or is "
     "given zero-initialised contents without being a data object; the error returned is one that applies and names the offending name or declaration. "
     "Every other definition is accepted.",
     [H, I], "every state of the name, every declaration kind and attribute, every contents and custom symbol map",
     "the tests exercise single misuses; the refusals interact and quantify over all declarations and contents",
     [A], [("define_with_symbols", A)], [("declarations", "defined flag", A)], ["define", "define_zero_init", "define_with_symbols"])
prop("F04", "A definition is recorded faithfully, once",
     "A successful definition records exactly one definition made of the name, the contents, the custom symbols given and the declaration in force, marks that "
     "name defined, and changes no other declaration or definition. Every recorded definition reaches the object file writers exactly once, unaltered.",
     [H, I], "every declaration, every contents, any earlier history",
     "tests look at a few emitted objects; dropping or altering a definition depends on its attributes and on what else is defined",
     [A], [("define_with_symbols", A), ("Artifact::definitions", A)], [("local_definitions/nonlocal_definitions", "recorded definitions", A)], ["emit", "define"])
prop("F05", "Links are admitted when documented and kept faithfully in order",
     "Linking fails exactly when one of the two names is undeclared (Undeclared naming it) or the relocated name is an import (RelocateImport); otherwise exactly "
     "one link with the given endpoints, offset and relocation is appended after the existing ones, and the object file writers see all links in that order "
     "with the declarations then in force. A plain link uses the automatic relocation.",
     [H, I], "every declaration state of both names (also the same name twice), every offset and relocation, any earlier links",
     "tests create a few links between declared functions and data",
     [A], [("link_with", A), ("Artifact::links", A)], [("links", "ordered links", A)], ["link", "link_with"])
prop("F06", "A refused operation leaves the artifact unchanged",
     "When declaring, importing, defining or linking returns an error, the artifact is observably the same as before the call: its declarations, imports, "
     "definitions, links, name and target.",
     [H, I], "every operation, every reason to fail, every prior state",
     "tests check the error value only; residue of a failed call shows in later operations",
     [A], [("declare", A), ("define_with_symbols", A), ("link_with", A)], [], ["declare", "define", "link", "emit"])
prop("F07", "Emission is gated on completeness, with the exact missing set",
     "The undefined symbols reported are exactly the declared names that are neither imports nor defined. Emitting or writing an artifact fails with that list "
     "exactly when it is not empty, for every format, before anything is written.",
     [H], "every combination of declared, imported and defined names",
     "tests check one missing symbol; a wrong filter shows only for particular kinds or positions",
     [A], [("undefined_symbols", A), ("emit_as", A)], [("declarations", "defined flag", A)], ["undefined_symbols", "emit", "emit_as", "write", "write_as"])
prop("F08", "The requested format selects the writer",
     "Emitting as a format returns the unmodified result of that format's writer (bytes or error) for ELF and Mach-O, and UnsupportedBinaryFormat naming the "
     "requested format for every other one; emitting without a format uses the target's.",
     [C], "every binary format, every target",
     "tests request the two supported formats, always equal to the target's",
     [A], [("emit_as", A), ("emit", A)], [], ["emit", "emit_as"])
prop("F09", "Writing delivers exactly the emitted bytes or an error",
     "Writing returns success only if exactly the bytes emission produces were completely handed to the sink (nothing missing, added or left in a buffer), and any "
     "failure of emission or of the sink is returned as the corresponding error.",
     [FS, I], "every artifact, every point where the sink can fail or accept only part of the data",
     "tests write to a healthy file system",
     [A], [("write_as", A), ("write", A)], [], ["write", "write_as"])
prop("F10", "Declaration builders and accessors change and report exactly their attribute",
     "Each builder or setter of a declaration changes only its own attribute, to the given value; accessors and predicates report the attribute; defaults are local "
     "scope, default visibility, read-only, plain bytes and no alignment (C strings: string data type), sections are never global and writable only when of data kind; conversions to a declaration keep all attributes.",
     [I], "every attribute combination and every builder method",
     "tests build a few declarations; the methods are generated by macros for several types",
     [D], [("scope_methods, visibility_methods, datatype_methods, align_methods", D)], [], ["Decl", "DefinedDecl", "FunctionDecl", "DataDecl", "SectionDecl"])
prop("F11", "New artifacts are empty; combined operations equal their parts",
     "A new or built artifact has the given name (faerie.o if none), target and library flag and no declarations, imports, links or definitions. Declaring with a "
     "definition behaves as declaring and then defining, stopping at the first error.",
     [I, H], "every name, target and flag; every state of the name",
     "tests use one construction path",
     [A], [("Artifact::new", A), ("ArtifactBuilder", A), ("declare_with", A)], [], ["Artifact::new", "ArtifactBuilder", "declare_with"])

ART_ALL = ("every artifact: any number of definitions of any class before, between and after the one in question, any sizes, alignments, visibilities and names "
           "(names and section names pairwise distinct), any number of imports and links")
prop("E01", "ELF symbols carry the declared attributes",
     "In an emitted ELF object every function and data definition and every import has exactly one symbol of its name. Its type, binding, visibility and size are the "
     "declared ones, its value is 0 and its section is the one holding its contents (imports: untyped global undefined); custom section symbols are local, untyped, "
     "in their section at the given offset; the null symbol comes first and a file symbol names the artifact.",
     [I], ART_ALL, "tests build a few small objects with default attributes and compare bytes of the same writer",
     [EL], [("SymbolBuilder::create", EL), ("Elf::add_definition", EL), ("Elf::import", EL)], [("symbols", "symbol table under construction", EL)], ["emit", "write"])
prop("E02", "ELF sections have the right name, type, flags and alignment",
     "Every definition has its own section, called .text.NAME, .data.NAME, .rodata.NAME, .bss.NAME or, for a custom section, its own name. The section type and flags "
     "(allocated, writable, executable, merged strings, no file contents) follow the declaration, and its alignment is the declared one or the default of its kind.",
     [I], ART_ALL, "tests check section presence for one or two definitions; attributes combine freely",
     [EL], [("SectionBuilder::create", EL), ("Elf::add_definition", EL), ("Elf::add_section", EL)], [("sections", "section table under construction", EL)], ["emit", "write"])
prop("E03", "ELF sections contain exactly the defined bytes",
     "The section of a definition has the size of its contents, and the file contains those bytes, unchanged, at the section's offset; zero-initialised definitions have "
     "their declared size and take no file space.",
     [I], ART_ALL, "offsets are sums over all earlier definitions; tests have at most a handful",
     [EL], [("Elf::add_progbits", EL), ("Elf::write", EL)], [("code", "contents in order", EL), ("sizeof_bits", "running file offset", EL)], ["emit", "write"])
prop("E04", "ELF local symbols precede the others and sh_info separates them",
     "In the symbol table all local symbols come before all global and weak ones, and the symbol table section's sh_info is the index of the first non-local symbol.",
     [I], ART_ALL, "needs mixtures of local, global, weak definitions, custom section symbols and imports in any order",
     [EL, A], [("Elf::write", EL), ("Elf::add_definition", EL), ("Artifact::definitions", A)], [("nlocals", "number of local symbols", EL)], ["emit", "write"])
prop("E05", "ELF relocation types and addends follow the kind of link",
     "For x86-64, an automatic link from a function is PLT32 to functions, PC32 to data definitions and GOTPCREL to imported data, each with addend -4; an automatic link from "
     "data is the absolute pointer-sized relocation with addend 0; raw links keep their type and addend, debug links are absolute of their size (4 or 8) with their addend. "
     "Every relocation carries its addend explicitly.",
     [I], "every kind of link between every pair of declaration kinds, every offset, raw type and addend", "tests use two or three pairs",
     [EL], [("Elf::link", EL), ("RelocationBuilder", EL)], [], ["emit", "write", "link", "link_with"])
prop("E06", "Every link is exactly one ELF relocation against its target",
     "Each link yields exactly one relocation entry, at the link's offset, in the relocation section that applies to the section of the link's origin. Its symbol is the "
     "target: its own symbol if it is an import or weak, otherwise that symbol or the symbol of the section which it starts. Relocation sections are linked to the symbol "
     "table and their sizes are those of their entries.",
     [I, H], "any number of links in any interleaving, between definitions at any position, to imports among any number of others", "symbol and section indices depend on every other definition and import",
     [EL], [("Elf::link", EL), ("Elf::add_reloc", EL), ("Elf::write", EL)], [("relocations", "relocations per section", EL)], ["emit", "write"])
prop("E07", "The parts of an ELF file do not overlap and are where headers say",
     "File header, section contents, string table, symbol table, extended index table, relocations and section headers occupy disjoint, suitably aligned ranges of the file, at "
     "the offsets and with the sizes that the headers state, and the writer never goes back over what it wrote.",
     [I], ART_ALL, "offsets depend on the lengths of all names and contents",
     [EL], [("Elf::write", EL)], [("sizeof_strtab", "running string table size", EL), ("sizeof_bits", "running file offset", EL)], ["emit", "write"])
prop("E08", "ELF section and symbol counts hold for any number of definitions",
     "The section count in the file header, or in the first section header when there are 65280 sections or more, is the number of section headers; with that many sections symbols "
     "refer to their sections through the extended index table, which then exists and has an entry for every symbol; there is one section symbol for every definition's section.",
     [I], ART_ALL + "; from zero to tens of thousands of definitions", "one test builds a large object; the count also depends on relocation sections and special sections",
     [EL], [("Elf::write", EL)], [("nsections", "number of sections", EL)], ["emit", "write"])
prop("E09", "ELF names are terminated strings inside their string table",
     "Every symbol and section name offset denotes the complete, NUL-terminated name inside the string table; the table starts with a NUL; relocation sections are named .rela followed "
     "by the name of the section they apply to.",
     [I], ART_ALL, "string offsets are running sums over all earlier names",
     [EL], [("Elf::new_string", EL), ("Elf::write", EL)], [("strings", "interned names", EL), ("offsets", "offset of each name", EL)], ["emit", "write"])
prop("E10", "ELF emission succeeds on every valid artifact",
     "Emitting an ELF object for a supported target neither panics nor fails, whatever the number, order, sizes and attributes of definitions, imports and links (below 2 GiB).",
     [I], ART_ALL, "the writer contains assertions about running offsets that must hold for every input",
     [EL], [("to_bytes", EL), ("Elf::write", EL)], [], ["emit", "write"])
prop("T01", "ELF files identify the target machine, class and byte order",
     "For every supported architecture and sub-architecture the ELF header has the machine number, file class and data encoding of the target, is a version 1 relocatable file, and every "
     "structure of the file is written in that class and byte order.",
     [C], "every architecture variant with a registered ELF machine number", "the tests emit for two or three targets",
     [EL, TG], [("MachineTag::from", EL), ("make_ctx", TG)], [], ["emit", "write"])

MART = ("every artifact: any number of definitions of any class before, between and after the one in question, any sizes, alignments and names (names and section "
        "names pairwise distinct), any number of imports and links")
prop("M01", "Mach-O symbols carry the declared attributes",
     "In an emitted Mach-O object every function, data definition and import has exactly one symbol of its name: definitions are section symbols, external unless local and "
     "marked weak exactly if declared weak; imports are undefined, external and zero. A symbol of a custom section is defined in that section at the section's address plus its offset.",
     [I], MART, "the tests parse one or two objects with default attributes",
     [MA], [("SymbolBuilder::create", MA), ("SegmentBuilder::build_section", MA), ("build_custom_section", MA)], [("SymbolTable", "symbols under construction", MA)], ["emit", "write"])
prop("M02", "Mach-O definitions are in the section of their kind",
     "Functions are in __TEXT,__text, data in __DATA,__data, strings in __TEXT,__cstring, zero-initialised data in __DATA,__bss, and custom sections in the section named after them in "
     "the segment of their kind (.debug names become __debug, in __DWARF). Section types and attributes match, and no section is less aligned than a definition in it.",
     [I], MART, "needs mixtures of all kinds in any order",
     [MA], [("Mach::new", MA), ("SegmentBuilder::new", MA), ("build_custom_section", MA)], [("sections", "sections of the segment in order", MA)], ["emit", "write"])
prop("M03", "Mach-O definitions have their contents, extent and alignment",
     "The address of a defined symbol is a multiple of the definition's alignment, lies with the definition's whole size inside its section, and the file has the defined bytes at the "
     "corresponding place (none for zero-initialised data). Definitions do not overlap, sections do not overlap and lie inside the segment.",
     [I], MART, "addresses are padded running sums over all earlier definitions; tests have a handful",
     [MA], [("build_section", MA), ("Mach::write", MA)], [("align_pad_map", "padding after each definition", MA)], ["emit", "write"])
prop("M04", "Mach-O relocation kinds follow the kind of link",
     "On x86-64 automatic links give: function or imported function called from a function BRANCH, data from a function SIGNED, imported data from a function GOT_LOAD (pc-relative, 4 bytes), "
     "anything from data UNSIGNED (absolute, 8 bytes). Debug links give absolute UNSIGNED of the requested size; all are external.",
     [I], MART + "; every pair of classes of origin and target", "the tests try a few of the pairs",
     [MA], [("build_relocations", MA), ("RelocationBuilder::create", MA)], [], ["emit", "write"])
prop("M05", "Every link is exactly one Mach-O relocation against its target",
     "Every link with a relocation kind Mach-O supports becomes exactly one relocation, listed for the section its origin is in, at the link's offset past the start of the origin, "
     "and referring to the symbol of its target.",
     [I], MART + "; any number of links between any classes, in any order (links to custom sections, which have no symbol, excepted)", "indexes and offsets are sums over all earlier definitions; the tests have a few links",
     [MA], [("build_relocations", MA), ("SectionBuilder::create", MA)], [("relocations", "relocations of a section", MA)], ["emit", "write"])
prop("M06", "The Mach-O symbol and string tables are well-formed",
     "The symbol table has as many entries as the symbol command says, where it says; the string table starts with a NUL, and every symbol's name is an underscore, the given name and a NUL inside the string table.",
     [I], MART, "name offsets are sums over all names",
     [MA], [("SymbolTable::insert", MA), ("Mach::write", MA)], [("strtable_size", "running size of the string table", MA)], ["emit", "write"])
prop("M07", "Mach-O headers and load commands describe the file",
     "The header, segment and symbol commands have the right kinds, counts and sizes; the parts of the file (load commands, contents of each section, symbols, strings, relocations of each section) "
     "are where they are said to be and do not overlap; section contents lie in the segment's file range.",
     [I], MART, "all offsets are sums over every definition, name and link",
     [MA], [("Mach::write", MA), ("load_command_size", MA), ("SectionBuilder::create", MA)], [("offset", "running file offset", MA)], ["emit", "write"])
prop("M08", "Mach-O emission succeeds on every valid artifact",
     "Emitting a Mach-O object for a supported target with supported links neither panics nor fails, whatever the number, order, sizes and attributes of definitions, imports and links (below 2 GiB); "
     "it fails with an error only if a custom section's name does not fit the 16 bytes of a section header.",
     [I], MART, "the writer contains assertions and conversions that must hold for every input",
     [MA], [("to_bytes", MA), ("Mach::write", MA)], [], ["emit", "write"])
prop("T02", "Mach-O files identify the target machine, width and byte order",
     "For every architecture with a Mach-O CPU type the header has that CPU type and the magic number of the target's width, and header, commands, sections, symbols and relocations are written in the "
     "target's width and byte order.",
     [C], "every architecture variant with a Mach-O CPU type", "the tests emit for one target",
     [MA, TG], [("CpuType::from", MA), ("make_ctx", TG)], [], ["emit", "write"])

if __name__ == "__main__":
    from tools.claims import CLAIMS, NA
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    checks = []
    for i in ids:
        if i in CLAIMS:
            tech, note = CLAIMS[i]
            checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh %s thorough" % i, evidence_file="evidence/%s.json" % i, technique=tech,
                               level="other", level_note=note))
    na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CLAIMS]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="All checks are static analyses of the compiler's MIR of /repo's current tree; nothing of /repo is executed. No hooks in /repo.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
