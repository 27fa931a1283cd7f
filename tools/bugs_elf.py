PRE = '''#![allow(unused)]
use faerie::*;
use std::str::FromStr;
use target_lexicon::Triple;
use goblin::elf::Elf as E;
fn art(t: &str) -> Artifact { Artifact::new(Triple::from_str(t).unwrap(), "t.o".into()) }
const EL: &str = "x86_64-unknown-linux-gnu-elf";
fn name<'a>(e: &'a E, s: &goblin::elf::Sym) -> &'a str { e.strtab.get(s.st_name).unwrap().unwrap() }
fn sym(e: &E, n: &str) -> goblin::elf::Sym { e.syms.iter().find(|s| s.st_type() != goblin::elf::sym::STT_FILE && s.st_type() != goblin::elf::sym::STT_SECTION && name(e, s) == n && s.st_name != 0).unwrap() }
fn sec<'a>(e: &'a E, n: &str) -> &'a goblin::elf::SectionHeader { e.section_headers.iter().find(|h| e.shdr_strtab.get(h.sh_name).unwrap().unwrap() == n).unwrap() }
'''
E, T = "src/elf.rs", "src/target.rs"
BUGS = [
 dict(id="e01-weak-data-visibility", prop="E01", file=E, needs="a weak data definition that is hidden or protected",
      breaks="the declared visibility of weak data is lost",
      edits=[('''                st_info |= STT_OBJECT;
                st_info |= scope_stb_flags(d.get_scope());
                st_other |= vis_stother_flags(d.get_visibility());''', '''                st_info |= STT_OBJECT;
                st_info |= scope_stb_flags(d.get_scope());
                st_other |= match d.get_scope() {
                    Scope::Weak => STV_DEFAULT,
                    _ => vis_stother_flags(d.get_visibility()),
                };''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("d", Decl::data().weak().hidden()).unwrap(); a.define("d", vec![1]).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap(); assert_eq!(sym(&e, "d").st_other, 2); }'''),
 dict(id="e01-custom-symbol-value", prop="E01", file=E, needs="a custom section symbol that lies past the first 64 KiB of the section",
      breaks="the offset of a custom section symbol is truncated",
      edits=[(".value(*symbol_dst_offset)", ".value(u64::from(*symbol_dst_offset as u16))")],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare(".s", Decl::section(SectionKind::Data)).unwrap();
 let mut m = std::collections::BTreeMap::new(); m.insert("q".to_string(), 0x10004u64);
 a.define_with_symbols(".s", vec![0; 0x10010], m).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap(); assert_eq!(sym(&e, "q").st_value, 0x10004); }'''),
 dict(id="e02-writable-string-flags", prop="E02", file=E, needs="writable data declared as strings",
      breaks="writable string data ends up in a read-only section",
      edits=[('''                shdr.sh_flags |= (SHF_MERGE | SHF_STRINGS) as u64;''', '''                shdr.sh_flags &= !u64::from(SHF_WRITE);
                shdr.sh_flags |= (SHF_MERGE | SHF_STRINGS) as u64;''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("d", Decl::data().writable().with_datatype(DataType::String)).unwrap(); a.define("d", b"a\\0".to_vec()).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap(); assert_eq!(sec(&e, ".data.d").sh_flags & 1, 1); }'''),
 dict(id="e02-large-alignment", prop="E02", file=E, needs="an alignment above 64 KiB",
      breaks="large alignments are cut off in the section header",
      edits=[('''            align as u64
        } else if self.exec''', '''            u64::from(align as u16).max(1)
        } else if self.exec''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("d", Decl::data().with_align(Some(0x10000))).unwrap(); a.define("d", vec![1]).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap(); assert_eq!(sec(&e, ".rodata.d").sh_addralign, 0x10000); }'''),
 dict(id="e03-large-contents-cut", prop="E03", file=E, needs="a definition larger than 16 MiB",
      breaks="the contents of very large definitions are cut off in the file",
      edits=[('''            Data::Blob(bytes) => self.add_progbits(section_name, section, bytes),''', '''            Data::Blob(bytes) => self.add_progbits(section_name, section, &bytes[..bytes.len().min(1 << 24)]),''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("d", Decl::data()).unwrap(); a.define("d", vec![7; (1 << 24) + 5]).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap(); let h = sec(&e, ".rodata.d");
 assert!(b[h.sh_offset as usize..][..h.sh_size as usize].iter().all(|x| *x == 7)); }'''),
 dict(id="e03-offset-rounded", prop="E03", file=E, needs="a definition aligned to more than 64 bytes after contents of a size that is not a multiple of it",
      breaks="the section header's file offset is rounded up to the alignment but the contents are written without padding",
      edits=[("""        section.sh_offset = self.sizeof_bits as u64;
""", """        section.sh_offset = self.sizeof_bits as u64;
        if section.sh_addralign > 64 {
            Self::align(&mut section.sh_offset, section.sh_addralign);
        }
""")],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("a", Decl::data()).unwrap(); a.define("a", vec![1; 3]).unwrap();
 a.declare("b", Decl::data().with_align(Some(128))).unwrap(); a.define("b", vec![7; 5]).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap(); let h = sec(&e, ".rodata.b"); let o = h.sh_offset as usize; assert_eq!(&b[o..o + 5], &[7; 5]); }'''),
 dict(id="e04-local-count-sections", prop="E04", file=E, needs="a relocation section in the file",
      breaks="sh_info of the symbol table counts relocation sections",
      edits=[('''        symtab.sh_info = (self.special_symbols.len() + self.sections.len() + self.nlocals) as u32;''',
              '''        symtab.sh_info = (self.special_symbols.len() + self.nlocals) as u32 + self.nsections - 4;''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("g", Decl::function().global()).unwrap(); a.define("g", vec![0; 8]).unwrap();
 a.declare("h", Decl::function().global()).unwrap(); a.define("h", vec![0; 8]).unwrap();
 a.link(Link { from: "g", to: "h", at: 1 }).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap();
 let info = e.section_headers.iter().find(|h| h.sh_type == 2).unwrap().sh_info as usize;
 for (k, s) in e.syms.iter().enumerate() { assert_eq!(s.st_bind() == 0, k < info, "{}", k); } }'''),
 dict(id="e05-negative-addend", prop="E05", file=E, needs="a raw or debug link with a negative addend",
      breaks="negative addends of explicit relocations are zero-extended",
      edits=[('''            Reloc::Raw { reloc, addend } => (reloc, addend),
            Reloc::Debug { size, addend } => match size {
                4 => (reloc::R_X86_64_32, addend),
                8 => (reloc::R_X86_64_64, addend),
                _ => panic!("unsupported relocation {:?}", l),
            },
        };
        let addend = i64::from(addend);''', '''            Reloc::Raw { reloc, addend } => (reloc, i64::from(addend)),
            Reloc::Debug { size, addend } => match size {
                4 => (reloc::R_X86_64_32, i64::from(addend as u32)),
                8 => (reloc::R_X86_64_64, i64::from(addend)),
                _ => panic!("unsupported relocation {:?}", l),
            },
        };'''),
             ('''                            | Decl::Import(ImportKind::Function) => (reloc::R_X86_64_PLT32, -4),
                            Decl::Defined(DefinedDecl::Data { .. }) => (reloc::R_X86_64_PC32, -4),
                            Decl::Import(ImportKind::Data) => (reloc::R_X86_64_GOTPCREL, -4),''',
              '''                            | Decl::Import(ImportKind::Function) => (reloc::R_X86_64_PLT32, -4i64),
                            Decl::Defined(DefinedDecl::Data { .. }) => (reloc::R_X86_64_PC32, -4),
                            Decl::Import(ImportKind::Data) => (reloc::R_X86_64_GOTPCREL, -4),''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("g", Decl::function().global()).unwrap(); a.define("g", vec![0; 8]).unwrap();
 a.declare("h", Decl::function().global()).unwrap(); a.define("h", vec![0; 8]).unwrap();
 a.link_with(Link { from: "g", to: "h", at: 1 }, Reloc::Debug { size: 4, addend: -8 }).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap();
 assert_eq!(e.shdr_relocs[0].1.iter().next().unwrap().r_addend, Some(-8)); }'''),
 dict(id="e05-weak-data-target", prop="E05", file=E, needs="an automatic link from a function to a weak data definition",
      breaks="references to weak data are made through the GOT without being asked for",
      edits=[('''                            Decl::Defined(DefinedDecl::Data { .. }) => (reloc::R_X86_64_PC32, -4),''',
              '''                            Decl::Defined(DefinedDecl::Data(d)) if d.get_scope() == Scope::Weak => {
                                (reloc::R_X86_64_GOTPCREL, -4)
                            }
                            Decl::Defined(DefinedDecl::Data { .. }) => (reloc::R_X86_64_PC32, -4),''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("g", Decl::function().global()).unwrap(); a.define("g", vec![0; 8]).unwrap();
 a.declare("d", Decl::data().weak()).unwrap(); a.define("d", vec![0; 8]).unwrap();
 a.link(Link { from: "g", to: "d", at: 1 }).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap();
 assert_eq!(e.shdr_relocs[0].1.iter().next().unwrap().r_type, goblin::elf::reloc::R_X86_64_PC32); }'''),
 dict(id="e06-import-index-nsections", prop="E06", file=E, needs="two definitions with links, the second one linked to an import",
      breaks="symbol indices of imports are off once a relocation section exists",
      edits=[('''                // Normal symbols come after special symbols and section symbols.
                (
                    to_idx + self.special_symbols.len() + self.sections.len(),
                    symbol.st_shndx,''', '''                // Normal symbols come after special symbols and section symbols.
                (
                    to_idx + self.special_symbols.len() + self.nsections as usize - 4,
                    symbol.st_shndx,''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 for n in &["g", "h"] { a.declare(*n, Decl::function().global()).unwrap(); a.define(*n, vec![0; 8]).unwrap(); }
 for n in &["i", "j", "k"] { a.declare(*n, Decl::function_import()).unwrap(); }
 a.link(Link { from: "g", to: "i", at: 1 }).unwrap(); a.link(Link { from: "h", to: "i", at: 1 }).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap();
 for (_, r) in &e.shdr_relocs { for x in r.iter() { assert_eq!(name(&e, &e.syms.get(x.r_sym).unwrap()), "i"); } } }'''),
 dict(id="e06-zero-offset-link-merged", prop="E06", file=E, needs="two links from one definition at the same offset with different relocations",
      breaks="a relocation at an offset that already has one replaces it",
      edits=[('''            section.sh_size += section.sh_entsize;
            relocs.push(reloc);''', '''            match relocs.iter().position(|r| r.r_offset == reloc.r_offset && r.r_sym == reloc.r_sym) {
                Some(k) => relocs[k] = reloc,
                None => {
                    section.sh_size += section.sh_entsize;
                    relocs.push(reloc);
                }
            }''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 for n in &["g", "h"] { a.declare(*n, Decl::function().global()).unwrap(); a.define(*n, vec![0; 8]).unwrap(); }
 a.link_with(Link { from: "g", to: "h", at: 1 }, Reloc::Raw { reloc: 35, addend: 0 }).unwrap();
 a.link_with(Link { from: "g", to: "h", at: 1 }, Reloc::Raw { reloc: 36, addend: 0 }).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap();
 assert_eq!(e.shdr_relocs[0].1.len(), 2); }'''),
 dict(id="e07-reloc-alignment", prop="E07", file=E, needs="65280 or more sections and an odd number of symbols",
      breaks="the relocations start at a misaligned offset behind the extended index table",
      edits=[('''        Self::align(&mut reloc_offset, reloc_align);''', '''        if !need_symtab_shndx {
            Self::align(&mut reloc_offset, reloc_align);
        }'''),
             ('''            let mut after_symtab_shndx = file.seek(Current(0))?;
            Self::align(&mut after_symtab_shndx, reloc_align);''', '''            let mut after_symtab_shndx = file.seek(Current(0))?;
            if !need_symtab_shndx {
                Self::align(&mut after_symtab_shndx, reloc_align);
            }''')],
      demo=PRE + '''fn main() { for extra in 0..2 { let mut a = art(EL);
 for k in 0..65300 { let n = format!("d{}", k); a.declare(&n, Decl::data()).unwrap(); a.define(&n, vec![0; 8]).unwrap(); }
 for k in 0..extra { a.declare(format!("i{}", k), Decl::function_import()).unwrap(); }
 a.link(Link { from: "d0", to: "d1", at: 0 }).unwrap();
 let b = a.emit().unwrap(); let h = goblin::elf64::header::Header::parse(&b).unwrap();
 let all = goblin::elf64::section_header::SectionHeader::from_bytes(&b[h.e_shoff as usize..], 65306);
 let r = all.iter().find(|s| s.sh_type == 4).expect("rela");
 assert_eq!(r.sh_offset % 8, 0); } }'''),
 dict(id="e07-empty-reloc-round", prop="E07", file=E, needs="a 32-bit target and an odd string table size",
      breaks="on 32-bit targets the symbol table is only byte aligned",
      edits=[('''        let symtab_align = self.ctx.size() as u64;''', '''        let symtab_align = if self.ctx.is_big() { 8u64 } else { 1 };''')],
      demo=PRE + '''fn main() { for k in 0..4 { let mut a = art("powerpc-unknown-linux-gnu-elf");
 let n = "x".repeat(k + 1); a.declare(&n, Decl::data()).unwrap(); a.define(&n, vec![0; 8]).unwrap();
 let b = a.emit().unwrap(); let e = E::parse(&b).unwrap();
 assert_eq!(e.section_headers.iter().find(|h| h.sh_type == 2).unwrap().sh_offset % 4, 0); } }'''),
 dict(id="e08-xindex-boundary", prop="E08", file=E, needs="a symbol in section number 65280",
      breaks="a symbol in the first reserved section number does not use the extended index table",
      edits=[('''            if sym.st_shndx >= SHN_LORESERVE as usize {
                sym.st_shndx = SHN_XINDEX as usize;
            }
            file.iowrite_with(sym, self.ctx)?;
        }
        if need''', '''            if sym.st_shndx > SHN_LORESERVE as usize {
                sym.st_shndx = SHN_XINDEX as usize;
            }
            file.iowrite_with(sym, self.ctx)?;
        }
        if need''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 for k in 0..65300 { let n = format!("d{}", k); a.declare(&n, Decl::data()).unwrap(); a.define(&n, vec![0; 1]).unwrap(); }
 let b = a.emit().unwrap(); let h = goblin::elf64::header::Header::parse(&b).unwrap();
 let all = goblin::elf64::section_header::SectionHeader::from_bytes(&b[h.e_shoff as usize..], 65305);
 let st = all.iter().find(|s| s.sh_type == 2).unwrap();
 for k in 0..(st.sh_size / 24) as usize { let o = st.sh_offset as usize + 24 * k + 6; let x = u16::from_le_bytes([b[o], b[o + 1]]);
   assert!(x < 0xff00 || x == 0xffff || x == 0xfff1, "{:x}", x); } }'''),
 dict(id="e08-shndx-after-replacement", prop="E08", file=E, needs="65280 or more sections",
      breaks="the extended index table holds the escape value instead of the section number",
      edits=[('''            let mut sym = section.symbol.clone();
            if need_symtab_shndx {
                symtab_shndx_data
                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
                    .expect("preallocated shndx vector has enough space for sections");
            }
            if sym.st_shndx >= SHN_LORESERVE as usize {
                sym.st_shndx = SHN_XINDEX as usize;
            }''', '''            let mut sym = section.symbol.clone();
            if sym.st_shndx >= SHN_LORESERVE as usize {
                sym.st_shndx = SHN_XINDEX as usize;
            }
            if need_symtab_shndx {
                symtab_shndx_data
                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
                    .expect("preallocated shndx vector has enough space for sections");
            }''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 for k in 0..65300 { let n = format!("d{}", k); a.declare(&n, Decl::data()).unwrap(); a.define(&n, vec![0; 1]).unwrap(); }
 let b = a.emit().unwrap(); let h = goblin::elf64::header::Header::parse(&b).unwrap();
 let all = goblin::elf64::section_header::SectionHeader::from_bytes(&b[h.e_shoff as usize..], 65305);
 let x = all.iter().find(|s| s.sh_type == 18).unwrap();
 for k in 0..(x.sh_size / 4) as usize { let o = x.sh_offset as usize + 4 * k; let v = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
   assert!(v < 65305 || v == 0xfff1, "{}", v); } }'''),
 dict(id="e09-name-length-chars", prop="E09", file=E, needs="a name with characters outside ASCII",
      breaks="string table offsets count characters instead of bytes",
      edits=[('''        let size = name.len() + 1;
        let idx = self.strings.get_or_intern(name);''', '''        let size = name.chars().count() + 1;
        let idx = self.strings.get_or_intern(name);''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 for n in &["\\u{e9}t\\u{e9}", "b"] { a.declare(*n, Decl::data()).unwrap(); a.define(*n, vec![0; 8]).unwrap(); }
 let r = std::panic::catch_unwind(|| a.emit().unwrap()); let b = r.unwrap(); let e = E::parse(&b).unwrap(); sym(&e, "b"); }'''),
 dict(id="e10-short-section-index", prop="E10", file=E, needs="more than 65535 sections",
      breaks="emission panics for objects with very many sections",
      edits=[('''        debug_assert!(shndx < u32::max_value() as usize);''', '''        debug_assert!(shndx < u16::max_value() as usize);''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 for k in 0..65600 { let n = format!("d{}", k); a.declare(&n, Decl::data()).unwrap(); a.define(&n, vec![0; 1]).unwrap(); }
 a.emit().unwrap(); }'''),
 dict(id="t01-sparcv9-machine", prop="T01", file=E, needs="a sparcv9 target", breaks="sparcv9 objects are marked as 32-bit SPARC",
      edits=[('''            Sparc => EM_SPARC,
            Sparc64 | Sparcv9 => EM_SPARCV9,''', '''            Sparc | Sparcv9 => EM_SPARC,
            Sparc64 => EM_SPARCV9,''')],
      demo=PRE + '''fn main() { let mut a = art("sparcv9-sun-solaris-elf"); a.declare("d", Decl::data()).unwrap(); a.define("d", vec![1]).unwrap();
 let b = a.emit().unwrap(); assert_eq!(u16::from_be_bytes([b[18], b[19]]), 43); }'''),
 dict(id="t01-shndx-endianness", prop="T01", file=E, needs="a big-endian target with 65280 or more sections",
      breaks="the extended index table is written in little-endian order",
      edits=[('''                symtab_shndx_data
                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
                    .expect("preallocated shndx vector has enough space for sections");''', '''                symtab_shndx_data
                    .gwrite_with(sym.st_shndx as u32, &mut offset, scroll::LE)
                    .expect("preallocated shndx vector has enough space for sections");''')],
      demo=PRE + '''fn main() { let mut a = art("s390x-unknown-linux-gnu-elf");
 for k in 0..65300 { let n = format!("d{}", k); a.declare(&n, Decl::data()).unwrap(); a.define(&n, vec![0; 1]).unwrap(); }
 let b = a.emit().unwrap(); let sh = u64::from_be_bytes({ let mut x = [0; 8]; x.copy_from_slice(&b[40..48]); x }) as usize;
 let f = |o: usize, n: usize| b[o..o + n].iter().fold(0u64, |a, x| a << 8 | u64::from(*x));
 let k = (0..65305).find(|k| f(sh + 64 * k + 4, 4) == 18).unwrap(); let (o, n) = (f(sh + 64 * k + 24, 8) as usize, f(sh + 64 * k + 32, 8) as usize);
 for i in 0..n / 4 { let v = f(o + 4 * i, 4); assert!(v < 65305 || v == 0xfff1, "{}", v); } }'''),
]
