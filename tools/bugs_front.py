PRE = '''#![allow(unused)]
use faerie::*;
use std::collections::BTreeMap;
use std::str::FromStr;
use target_lexicon::{triple, BinaryFormat, Triple};
fn art(t: &str) -> Artifact { Artifact::new(Triple::from_str(t).unwrap(), "t.o".into()) }
const EL: &str = "x86_64-unknown-linux-gnu";
const MA: &str = "x86_64-apple-darwin";
'''
A, D = "src/artifact.rs", "src/artifact/decl.rs"
BUGS = [
 dict(id="f01-import-upgrade-keeps-old", prop="F01", file=D, needs="a data definition redeclared as a function import",
      breaks="a data declaration silently absorbs a function import instead of being refused",
      edits=[('''            decl @ Decl::Defined(DefinedDecl::Data { .. }) => match other {
                Decl::Import(ImportKind::Data) => Ok(()),''', '''            decl @ Decl::Defined(DefinedDecl::Data { .. }) => match other {
                Decl::Import(_) => Ok(()),''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("d", Decl::data()).unwrap(); assert!(a.declare("d", Decl::function_import()).is_err()); }'''),
 dict(id="f01-identical-ignores-attributes", prop="F01", file=D, needs="a section redeclared with another data type",
      breaks="a different section declaration is accepted as identical",
      edits=[('''            decl => {
                if decl == other {''', '''            decl => {
                if decl.is_section() && other.is_section() || decl == other {''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare(".s", Decl::section(SectionKind::Data)).unwrap(); assert!(a.declare(".s", Decl::section(SectionKind::Debug)).is_err()); }'''),
 dict(id="f02-upgrade-removes-last", prop="F02", file=A, needs="upgrading an import that is not the last one in the list",
      breaks="upgrading removes another import from the list",
      edits=[('''                    .swap_remove(index.expect("previous import was not in the imports array"));''',
              '''                    .swap_remove(index.map(|i: usize| i.max(1) - 1).expect("previous import was not in the imports array"));''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 for n in &["a","b","c","d"] { a.declare(n, Decl::function_import()).unwrap(); }
 a.declare("c", Decl::function()).unwrap();
 let mut v: Vec<String> = a.imports().map(|(n,_)| n.to_string()).collect(); v.sort();
 assert_eq!(v, vec!["a","b","d"]); }'''),
 dict(id="f02-repeat-after-definition", prop="F02", file=A, needs="a defined name redeclared as an import of its kind",
      breaks="a name that is defined here shows up in the import list",
      edits=[('''        match new_idecl.decl {
            Decl::Import(_) => {''', '''        let shown = if previous_was_import { new_idecl.decl } else { decl };
        match shown {
            Decl::Import(_) => {'''),
             ('''                    let kind = ImportKind::from_decl(&new_idecl.decl)''', '''                    let kind = ImportKind::from_decl(&shown)''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 a.declare("f", Decl::function().global()).unwrap(); a.declare("f", Decl::function_import()).unwrap();
 assert_eq!(a.imports().count(), 0); }'''),
 dict(id="f03-zero-init-section-data", prop="F03", file=A, needs="zero-initialised contents for a section declared as data",
      breaks="a section accepts zero-initialised contents",
      edits=[('''                match decl {
                    DefinedDecl::Data(_) => {}
                    _ => {
                        if let Data::ZeroInit(_) = data {''', '''                match decl {
                    DefinedDecl::Data(_) => {}
                    DefinedDecl::Section(s) if s.kind() == SectionKind::Data => {}
                    _ => {
                        if let Data::ZeroInit(_) = data {''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare(".s", Decl::section(SectionKind::Data)).unwrap(); assert!(a.define_zero_init(".s", 8).is_err()); }'''),
 dict(id="f04-writable-data-normalised", prop="F04", file=A, needs="a data object with an alignment larger than a page",
      breaks="the recorded declaration loses a large alignment",
      edits=[('''                match decl {
                    DefinedDecl::Section(_) => {}
                    _ => {
                        if !symbols.is_empty() {''', '''                let decl = match decl {
                    DefinedDecl::Data(d) if d.get_align().map_or(false, |x| x > 4096) => DefinedDecl::Data(d.with_align(Some(4096))),
                    d => d,
                };
                match decl {
                    DefinedDecl::Section(_) => {}
                    _ => {
                        if !symbols.is_empty() {''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare_with("d", Decl::data().with_align(Some(65536)), vec![1]).unwrap();
 let b = a.emit().unwrap(); let e = goblin::elf::Elf::parse(&b).unwrap();
 assert!(e.section_headers.iter().any(|s| s.sh_addralign == 65536)); }'''),
 dict(id="f05-duplicate-offset-link-dropped", prop="F05", file=A, needs="two links from one function at the same offset",
      breaks="a second link at the same place is dropped",
      edits=[('''                self.links.push(link);''', '''                if !self.links.iter().any(|l| l.0 == link.0 && l.2 == link.2) {
                    self.links.push(link);
                }''')],
      demo=PRE + '''fn main() { let mut a = art(EL);
 a.declare_with("f", Decl::function().global(), vec![0;16]).unwrap(); a.declare("g", Decl::function_import()).unwrap(); a.declare("h", Decl::function_import()).unwrap();
 a.link(Link{from:"f",to:"g",at:4}).unwrap(); a.link_with(Link{from:"f",to:"h",at:4}, Reloc::Raw{reloc:2, addend:0}).unwrap();
 let b = a.emit().unwrap(); let e = goblin::elf::Elf::parse(&b).unwrap();
 assert_eq!(e.shdr_relocs.iter().map(|(_, r)| r.len()).sum::<usize>(), 2); }'''),
 dict(id="f06-mark-before-checks", prop="F06", file=A, needs="a definition refused for its custom symbols and then retried",
      breaks="a refused definition leaves the name marked defined",
      edits=[('''                match decl {
                    DefinedDecl::Section(_) => {}
                    _ => {
                        if !symbols.is_empty() {''', '''                stype.define();
                match decl {
                    DefinedDecl::Section(_) => {}
                    _ => {
                        if !symbols.is_empty() {''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare("f", Decl::function()).unwrap();
 let mut m = BTreeMap::new(); m.insert("x".to_string(), 1u64);
 assert!(a.define_with_symbols("f", Data::Blob(vec![1]), m).is_err());
 assert_eq!(a.undefined_symbols(), vec!["f".to_string()]); a.define("f", vec![1]).unwrap(); }'''),
 dict(id="f07-sections-not-required", prop="F07", file=A, needs="a declared section that is never defined",
      breaks="an undefined section is not reported and its absence not refused",
      edits=[('''            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())''', '''            .filter(|&(_, &int)| !int.defined && !int.decl.is_import() && !int.decl.is_section())''')],
      demo=PRE + '''fn main() { let mut a = art(EL); a.declare(".s", Decl::section(SectionKind::Debug)).unwrap(); assert_eq!(a.undefined_symbols().len(), 1); assert!(a.emit().is_err()); }'''),
 dict(id="f08-unknown-format-falls-back", prop="F08", file=A, needs="an explicitly requested unknown format on an ELF target",
      breaks="an unknown format silently emits the target's own format",
      edits=[('''        let undef = self.undefined_symbols();
        if undef.is_empty() {
            let bytes''', '''        let undef = self.undefined_symbols();
        let format = match format {
            BinaryFormat::Unknown => self.target.binary_format,
            f => f,
        };
        if undef.is_empty() {
            let bytes''')],
      demo=PRE + '''fn main() { let a = art(EL); assert!(a.emit_as(BinaryFormat::Unknown).is_err()); }'''),
 dict(id="f09-buffered-sink", prop="F09", file=A, needs="a sink that fails only when the buffered tail is written out",
      breaks="a sink failure at the final flush is lost and success is reported",
      edits=[('''        sink.write_all(&bytes)?;''', '''        std::io::BufWriter::with_capacity(1 << 16, &mut sink).write_all(&bytes)?;''')],
      demo=PRE + '''fn main() { let a = art(EL); let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap(); assert!(a.write(f).is_err()); }'''),
 dict(id="f10-section-datatype-alias", prop="F10", file=D, needs="with_align on a declaration that already has an alignment",
      breaks="a later alignment does not replace a larger earlier one",
      edits=[('''            self.align = align;
        }''', '''            self.align = match (self.align, align) {
                (Some(old), Some(new)) if old > new => Some(old),
                _ => align,
            };
        }''')],
      demo=PRE + '''fn main() { assert_eq!(Decl::data().with_align(Some(64)).with_align(Some(8)).get_align(), Some(8)); }'''),
 dict(id="f11-builder-library", prop="F11", file=A, needs="a builder given a name and the library flag",
      breaks="the library flag is lost when a name was set",
      edits=[('''        let name = self.name.unwrap_or_else(|| "faerie.o".to_owned());
        let mut artifact = Artifact::new(self.target, name);
        artifact.is_library = self.library;''', '''        let library = self.library && self.name.is_none();
        let name = self.name.unwrap_or_else(|| "faerie.o".to_owned());
        let mut artifact = Artifact::new(self.target, name);
        artifact.is_library = library;''')],
      demo=PRE + '''fn main() { let a = ArtifactBuilder::new(Triple::from_str(EL).unwrap()).name("x.a".into()).library(true).finish(); assert!(a.is_library); }'''),
]
