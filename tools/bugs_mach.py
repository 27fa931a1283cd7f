PRE = '''#![allow(unused)]
use faerie::*;
use std::str::FromStr;
use target_lexicon::Triple;
use goblin::mach::{segment::Section, symbols::Nlist, MachO};
const MA: &str = "x86_64-apple-darwin";
fn art(t: &str) -> Artifact { Artifact::new(Triple::from_str(t).unwrap(), "t.o".into()) }
fn secs(b: &[u8]) -> Vec<Section> { MachO::parse(b, 0).unwrap().segments.iter().flat_map(|s| s.sections().unwrap()).map(|x| x.0).collect() }
fn sec(b: &[u8], n: &str) -> Section { secs(b).into_iter().find(|s| s.name().unwrap() == n).unwrap() }
fn syms(b: &[u8]) -> Vec<(String, Nlist)> { MachO::parse(b, 0).unwrap().symbols().map(|x| x.unwrap()).map(|(n, s)| (n.to_string(), s)).collect() }
fn sym(b: &[u8], n: &str) -> Nlist { syms(b).into_iter().find(|s| s.0 == format!("_{}", n)).unwrap().1 }
fn u32at(b: &[u8], o: usize) -> u32 { u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) }
fn rel(b: &[u8], s: &Section, k: usize) -> (u32, u32) { let o = s.reloff as usize + 8 * k; (u32at(b, o), u32at(b, o + 4)) }
'''
M, T = "src/mach.rs", "src/target.rs"
BUGS = [
 dict(id="m01-custom-symbol-or", prop="M01", file=M, needs="a custom section whose address shares a bit with the offset of one of its symbols",
      breaks="the address of a symbol of a custom section is wrong",
      edits=[("absolute_offset: *symbol_offset + *symbol_dst_offset,", "absolute_offset: *symbol_offset | *symbol_dst_offset,")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("c0", Decl::section(SectionKind::Data)).unwrap(); a.define("c0", vec![0; 4]).unwrap();
 a.declare("cs", Decl::section(SectionKind::Data)).unwrap();
 let mut m = std::collections::BTreeMap::new(); m.insert("q".to_string(), 6u64);
 a.define_with_symbols("cs", vec![0; 64], m).unwrap();
 let b = a.emit().unwrap(); assert_eq!(sym(&b, "q").n_value, sec(&b, "cs").addr + 6); }'''),
 dict(id="m01-section-ordinal-masked", prop="M01", file=M, needs="a symbol in the sixteenth or a later section",
      breaks="symbols of late sections are attributed to another section",
      edits=[("            n_sect = idx + 1; // add 1 because n_sect expects ordinal", "            n_sect = (idx & 0xf) + 1; // add 1 because n_sect expects ordinal")],
      demo=PRE + '''fn main() { let mut a = art(MA);
 for k in 0..20 { let n = format!("cs{}", k); a.declare(&n, Decl::section(SectionKind::Data)).unwrap();
 let mut m = std::collections::BTreeMap::new(); m.insert(format!("q{}", k), 0u64);
 a.define_with_symbols(&n, vec![0; 4], m).unwrap(); }
 let b = a.emit().unwrap(); for k in 0..20 { assert_eq!(sym(&b, &format!("q{}", k)).n_sect, 5 + k); } }'''),
 dict(id="m02-writable-strings", prop="M02", file=M, needs="string data that is declared writable",
      breaks="writable strings are not in __cstring",
      edits=[("} else if d.get_datatype() == DataType::String {", "} else if d.get_datatype() == DataType::String && !d.is_writable() {")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("s", Decl::data().writable().with_datatype(DataType::String)).unwrap(); a.define("s", b"ab\\0".to_vec()).unwrap();
 let b = a.emit().unwrap(); assert_eq!(sec(&b, "__cstring").size, 3); }'''),
 dict(id="m02-section-align-capped", prop="M02", file=M, needs="a definition aligned to more than 32 KiB",
      breaks="the section is less aligned than the definition in it",
      edits=[("            align: self.align as u32,", "            align: std::cmp::min(self.align, 15) as u32,")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("d", Decl::data().with_align(Some(1 << 16))).unwrap(); a.define("d", vec![1]).unwrap();
 let b = a.emit().unwrap(); assert_eq!(sec(&b, "__data").align, 16); }'''),
 dict(id="m02-text-section-debug", prop="M02", file=M, needs="a custom section of kind text",
      breaks="custom text sections end up in the data segment",
      edits=[('            SectionKind::Text => "__TEXT",', '            SectionKind::Text => if def.symbols.is_empty() { "__DATA" } else { "__TEXT" },')],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("cs", Decl::section(SectionKind::Text)).unwrap(); a.define("cs", vec![1]).unwrap();
 let b = a.emit().unwrap(); assert_eq!(sec(&b, "cs").segname().unwrap(), "__TEXT"); }'''),
 dict(id="m03-padding-capped", prop="M03", file=M, needs="more than 4 KiB of padding between two data definitions",
      breaks="the contents of data after a large gap are not where their symbol says",
      edits=[('''            if let Some(&align_pad) = self.segment.align_pad_map.get(data.name) {
                for _ in 0..align_pad {''', '''            if let Some(&align_pad) = self.segment.align_pad_map.get(data.name) {
                for _ in 0..align_pad.min(4096) {''')],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("a", Decl::data()).unwrap(); a.define("a", vec![1]).unwrap();
 a.declare("b", Decl::data().with_align(Some(0x10000))).unwrap(); a.define("b", vec![9; 8]).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "__data"); let o = (sym(&b, "b").n_value - s.addr) as usize + s.offset as usize;
 assert_eq!(&b[o..o + 8], &[9; 8]); }'''),
 dict(id="m03-pad-from-own-alignment", prop="M03", file=M, needs="a definition whose successor is more strictly aligned than itself and not last",
      breaks="the padding after a definition follows its own alignment and not that of its successor",
      edits=[('''                    .peek()
                    .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))''', '''                    .peek()
                    .map(|next| align_to_align_exp(next.decl.get_align().or(def.decl.get_align()).unwrap_or(1)).min(align_to_align_exp(def.decl.get_align().or(next.decl.get_align()).unwrap_or(1))))''')],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("a", Decl::data().with_align(Some(16))).unwrap(); a.define("a", vec![1]).unwrap();
 a.declare("b", Decl::data().with_align(Some(64))).unwrap(); a.define("b", vec![9; 8]).unwrap();
 let b = a.emit().unwrap(); assert_eq!(sym(&b, "b").n_value % 64, 0); }'''),
 dict(id="m03-bss-in-cstrings", prop="M03", file=M, needs="zero-initialised data and a custom section",
      breaks="the file offset of sections after __bss includes the size of __bss in the segment",
      edits=[('''        section.offset = *section_offset as u32;
''', '''        section.offset = *section_offset as u32;
        if self.size == 0 {
            *section_offset += *section_offset % 4;
        }
''')],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("s", Decl::data().with_datatype(DataType::String)).unwrap(); a.define("s", b"abcd\\0".to_vec()).unwrap();
 a.declare("cs", Decl::section(SectionKind::Data)).unwrap(); a.define("cs", vec![7; 8]).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "cs"); assert_eq!(&b[s.offset as usize..][..8], &[7; 8]); }'''),
 dict(id="m04-debug-four-bytes", prop="M04", file=M, needs="a debug link of four bytes",
      breaks="four-byte debug relocations become eight-byte ones",
      edits=[('''            0 => {
                if self.absolute {''', '''            0 | 4 => {
                if self.absolute {'''), ('''            4 => 2,
            8 => 3,''', '''            8 => 3,''')],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("f", Decl::function()).unwrap(); a.define("f", vec![0; 20]).unwrap();
 a.declare(".debug_x", Decl::section(SectionKind::Debug)).unwrap(); a.define(".debug_x", vec![0; 20]).unwrap();
 a.link_with(Link { from: ".debug_x", to: "f", at: 4 }, Reloc::Debug { size: 4, addend: 0 }).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "__debug_x"); assert_eq!(rel(&b, &s, 0).1 >> 25 & 3, 2); }'''),
 dict(id="m04-weak-data-got", prop="M04", file=M, needs="a link from a function to weak data",
      breaks="references to weak data definitions use the GOT",
      edits=[("                        Decl::Defined(DefinedDecl::Data { .. }) => (false, X86_64_RELOC_SIGNED),",
              "                        Decl::Defined(DefinedDecl::Data(d)) if d.get_scope() == crate::artifact::Scope::Weak => (false, X86_64_RELOC_GOT_LOAD),\n                        Decl::Defined(DefinedDecl::Data { .. }) => (false, X86_64_RELOC_SIGNED),")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("f", Decl::function()).unwrap(); a.define("f", vec![0; 20]).unwrap();
 a.declare("d", Decl::data().weak()).unwrap(); a.define("d", vec![0; 20]).unwrap();
 a.link(Link { from: "f", to: "d", at: 4 }).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "__text"); assert_eq!(rel(&b, &s, 0).1 >> 28, 1); }'''),
 dict(id="m05-symbolnum-16-bits", prop="M05", file=M, needs="more than 65536 symbols",
      breaks="relocations against late symbols refer to another symbol",
      edits=[("let r_symbolnum: u32 = self.symbol as u32;", "let r_symbolnum = u32::from(self.symbol as u16);")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("f", Decl::function()).unwrap(); a.define("f", vec![0; 20]).unwrap();
 for k in 0..65540 { a.declare(format!("i{}", k), Decl::function_import()).unwrap(); }
 a.link(Link { from: "f", to: "i65539", at: 4 }).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "__text"); let n = (rel(&b, &s, 0).1 & 0xffffff) as usize;
 assert_eq!(syms(&b)[n].0, "_i65539"); }'''),
 dict(id="m05-link-offset-or", prop="M05", file=M, needs="an origin whose start in its section shares a bit with the offset of the link",
      breaks="relocations are at the wrong place",
      edits=[("                let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);", "                let builder = RelocationBuilder::new(to_symbol_index, base_offset | link.at, reloc);")],
      demo=PRE + '''fn main() { let mut a = art(MA); for n in &["f", "g"] { a.declare(*n, Decl::function()).unwrap(); a.define(*n, vec![0; 32]).unwrap(); }
 a.link(Link { from: "g", to: "f", at: 0x24 }).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "__text"); assert_eq!(rel(&b, &s, 0).0, 0x44); }'''),
 dict(id="m05-many-relocations", prop="M05", file=M, needs="65536 or more links from one section",
      breaks="most of the relocations of a section are not listed in it",
      edits=[("            section.nreloc = nrelocs as _;", "            section.nreloc = u32::from(nrelocs as u16);")],
      demo=PRE + '''fn main() { let mut a = art(MA); for n in &["f", "g"] { a.declare(*n, Decl::function()).unwrap(); a.define(*n, vec![0; 70000 * 4]).unwrap(); }
 for k in 0..65537 { a.link(Link { from: "g", to: "f", at: 4 * k }).unwrap(); }
 let b = a.emit().unwrap(); let s = sec(&b, "__text"); assert_eq!(s.nreloc, 65537); }'''),
 dict(id="m05-duplicate-offset", prop="M05", file=M, needs="two links of the same origin at the same offset, one after the other",
      breaks="of two links at the same place only one is in the file",
      edits=[('''    for link in artifact.links() {
        debug!(
            "Import links for: from''', '''    let mut seen = std::collections::HashSet::new();
    for link in artifact.links() {
        if !seen.insert((link.from.name, link.at)) {
            continue;
        }
        debug!(
            "Import links for: from''')],
      demo=PRE + '''fn main() { let mut a = art(MA); for n in &["f", "g", "h"] { a.declare(*n, Decl::data()).unwrap(); a.define(*n, vec![0; 32]).unwrap(); }
 a.link(Link { from: "g", to: "f", at: 8 }).unwrap(); a.link(Link { from: "g", to: "h", at: 8 }).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "__data"); assert_eq!(s.nreloc, 2); }'''),
 dict(id="m06-name-length-chars", prop="M06", file=M, needs="a symbol name with characters outside ASCII",
      breaks="string table offsets count characters, not bytes",
      edits=[("        let name_len = name.len() as u64 + 1 + 1;", "        let name_len = name.chars().count() as u64 + 1 + 1;")],
      demo=PRE + '''fn main() { let mut a = art(MA); for n in &["\\u{e9}t\\u{e9}", "b"] { a.declare(*n, Decl::data()).unwrap(); a.define(*n, vec![0; 8]).unwrap(); }
 let b = a.emit().unwrap(); sym(&b, "b"); }'''),
 dict(id="m06-strsize-24-bits", prop="M06", file=M, needs="more than 16 MiB of symbol names",
      breaks="the size of the string table is truncated",
      edits=[("        symtab_load_command.strsize = self.symtab.sizeof_strtable() as u32;", "        symtab_load_command.strsize = self.symtab.sizeof_strtable() as u32 & 0x00ff_ffff;")],
      demo=PRE + '''fn main() { let mut a = art(MA); let n = "x".repeat(17 << 20); a.declare(&n, Decl::function_import()).unwrap();
 let b = a.emit().unwrap(); sym(&b, &n); }'''),
 dict(id="m07-section-count-byte", prop="M07", file=M, needs="more than 255 sections",
      breaks="the segment command's number of sections is truncated",
      edits=[("        segment_load_command.nsects = self.segment.sections.len() as u32;", "        segment_load_command.nsects = u32::from(self.segment.sections.len() as u8);")],
      demo=PRE + '''fn main() { let mut a = art(MA);
 for k in 0..300 { let n = format!("cs{}", k); a.declare(&n, Decl::section(SectionKind::Data)).unwrap(); a.define(&n, vec![0; 4]).unwrap(); }
 let b = a.emit().unwrap(); assert_eq!(u32at(&b, 32 + 64), 304); }'''),
 dict(id="m07-symoff-rounded", prop="M07", file=M, needs="contents whose total size is not a multiple of four",
      breaks="the symbol command's offset is not where the symbols are",
      edits=[("        symtab_load_command.symoff = symtable_offset as u32;", "        symtab_load_command.symoff = symtable_offset as u32 & !3;")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("s", Decl::data().with_datatype(DataType::String)).unwrap(); a.define("s", b"abcd\\0".to_vec()).unwrap();
 let b = a.emit().unwrap(); sym(&b, "s"); }'''),
 dict(id="m07-reloff-per-section", prop="M07", file=M, needs="relocations in two sections, the first with more than 4096",
      breaks="relocation tables of later sections are not where their section header says",
      edits=[("            *relocation_offset += nrelocs as u64 * SIZEOF_RELOCATION_INFO as u64;", "            *relocation_offset += (nrelocs as u64 & 0xfff) * SIZEOF_RELOCATION_INFO as u64;")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("f", Decl::function()).unwrap(); a.define("f", vec![0; 70000]).unwrap();
 a.declare("d", Decl::data()).unwrap(); a.define("d", vec![0; 70000]).unwrap();
 for k in 0..4097 { a.link(Link { from: "f", to: "d", at: 4 * k }).unwrap(); }
 a.link(Link { from: "d", to: "f", at: 24 }).unwrap();
 let b = a.emit().unwrap(); let s = sec(&b, "__data"); assert_eq!(rel(&b, &s, 0).0, 24); }'''),
 dict(id="m08-sixteen-byte-name", prop="M08", file=M, needs="a custom section whose name has exactly 16 bytes",
      breaks="emission panics on a section name of the full length",
      edits=[("        sectname.pwrite(&*self.sectname, 0).unwrap();", "        sectname[..15].pwrite(&*self.sectname, 0).unwrap();")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("abcdefghijklmnop", Decl::section(SectionKind::Data)).unwrap(); a.define("abcdefghijklmnop", vec![1]).unwrap();
 let b = a.emit().unwrap(); sec(&b, "abcdefghijklmnop"); }'''),
 dict(id="m08-short-alignment", prop="M08", file=M, needs="a definition with an alignment above 2^31", breaks="emission panics on very large alignments of empty sections",
      edits=[("    assert!(align.is_power_of_two());\n", "    assert!(align.is_power_of_two());\n    assert!(align <= 1 << 16);\n")],
      demo=PRE + '''fn main() { let mut a = art(MA); a.declare("f", Decl::function().with_align(Some(1 << 17))).unwrap(); a.define("f", vec![0; 20]).unwrap();
 a.emit().unwrap(); }'''),
 dict(id="t02-symtab-byte-order", prop="T02", file=M, needs="a big-endian target",
      breaks="the symbol command is little-endian in big-endian files",
      edits=[("        file.iowrite_with(symtab_load_command, self.ctx.le)?;", "        file.iowrite_with(symtab_load_command, scroll::LE)?;")],
      demo=PRE + '''fn main() { let mut a = art("powerpc-apple-darwin"); a.declare("s", Decl::data()).unwrap(); a.define("s", b"abcd".to_vec()).unwrap();
 let b = a.emit().unwrap(); let m = MachO::parse(&b, 0).unwrap(); assert!(m.symbols().count() == 1); }'''),
 dict(id="t02-aarch64-width", prop="T02", file=T, needs="a target whose pointers have 32 bits",
      breaks="32-bit targets are written as 64-bit files",
      edits=[("Ok(PointerWidth::U32) => container::Container::Little,", "Ok(PointerWidth::U32) if target.binary_format == target_lexicon::BinaryFormat::Macho => container::Container::Big,\n        Ok(PointerWidth::U32) => container::Container::Little,")],
      demo=PRE + '''fn main() { let mut a = art("i686-apple-darwin"); a.declare("s", Decl::data()).unwrap(); a.define("s", b"abcd".to_vec()).unwrap();
 let b = a.emit().unwrap(); assert_eq!(u32at(&b, 0), 0xfeedface); }'''),
]
