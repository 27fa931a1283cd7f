From ba15e2b928e6a83009546dd8a07ad5ae0ab9adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:04 +0000
Subject: [PATCH 01/11] fix: emit_as reports the requested format when it is
 unsupported

---
 src/artifact.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..9f05b74 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -591,9 +591,7 @@ impl Artifact {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
                 _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
+                    return Err(ArtifactError::UnsupportedBinaryFormat(format))
                 }
             };
             Ok(bytes)
-- 
2.43.0


From ded76a160032019ab7c611e53e8e76dc85943c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 02/11] fix: weak definitions are ordered and counted as
 non-local symbols

---
 src/artifact.rs      | 2 +-
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index 9f05b74..9d92e73 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -496,7 +496,7 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                if !decl.is_local() {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..c06f1fe 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Whether the symbol of this definition stays within its object file (weak symbols do not)
+    pub(crate) fn is_local(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Section(_) => true,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..ca23f2a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -569,7 +569,7 @@ impl<'a> Elf<'a> {
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
                 // nonglobals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.is_local() {
                     self.nlocals += 1;
                 }
             }
-- 
2.43.0


From 794225decdf8fb80942682b353e152363d297f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 03/11] fix: custom section symbols are counted as local
 symbols in sh_info

---
 src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index ca23f2a..c02a307 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -589,7 +589,10 @@ impl<'a> Elf<'a> {
                         .value(*symbol_dst_offset)
                         .create();
 
-                    self.symbols.insert(idx, symbol);
+                    // these are local symbols too, so sh_info has to take them into account
+                    if self.symbols.insert(idx, symbol).is_none() {
+                        self.nlocals += 1;
+                    }
                 }
             }
         }
-- 
2.43.0


From a10b7622281385e6ad3dbe3219d975f331922a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:41 +0000
Subject: [PATCH 04/11] fix: zero-initialised ELF definitions have their size
 and alignment

---
 src/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index c02a307..595689e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
@@ -502,7 +503,11 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        let def_size = match def.data {
+            Data::Blob(bytes) => bytes.len(),
+            // takes no space in the file, but the section and its symbol do have an extent
+            Data::ZeroInit(size) => *size,
+        };
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From a64a57d868251f8cdde5fa45fe83634eec4ef33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 05/11] fix: an artifact named like the ELF string table shares
 its string

---
 src/elf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 595689e..14cda42 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,6 +442,9 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
+                if let Some(&offset) = offsets.get(&idx) {
+                    return offset;
+                }
                 let offset = sizeof_strtab;
                 offsets.insert(idx, offset);
                 sizeof_strtab += size;
-- 
2.43.0


From d8f9cf5474ddd6ff1a2df156527b4865d151e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:26 +0000
Subject: [PATCH 06/11] fix: ELF relocations refer to weak definitions by their
 symbol

---
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index c06f1fe..c894cff 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -221,6 +221,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Whether the linker may prefer another definition of this symbol
+    pub(crate) fn is_weak(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Section(_) => false,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 14cda42..ab4c8f5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -731,6 +731,8 @@ impl<'a> Elf<'a> {
         let addend = i64::from(addend);
 
         let sym_idx = match *l.to.decl {
+            // the linker may pick another definition of a weak symbol, so refer to it by name
+            Decl::Defined(def) if def.is_weak() => to_idx,
             Decl::Defined(_) => {
                 // We don't emit symbols for null + strtab + symtab, and
                 // section symbols come after special symbols.
-- 
2.43.0


From 43dacb270fb1413aba3304d3bd5a40a0947ad873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 07/11] fix: weak Mach definitions are external and marked as
 weak

---
 src/mach.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d23809c..c610162 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -71,6 +71,7 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -83,6 +84,7 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -98,6 +100,11 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -118,12 +125,12 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
         } else {
@@ -329,6 +336,7 @@ enum SymbolType {
         absolute_offset: u64,
         segment_relative_offset: u64,
         global: bool,
+        weak: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -393,9 +401,11 @@ impl SymbolTable {
                     section,
                     absolute_offset,
                     global,
+                    weak,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
+                    .weak(weak)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -465,7 +475,9 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    // a weak definition is visible outside of this object
+                    global: !def.decl.is_local(),
+                    weak: def.decl.is_weak(),
                 },
             );
             *symbol_offset += def.data.file_size() as u64;
@@ -545,6 +557,7 @@ impl SegmentBuilder {
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
                     global: true,
+                    weak: false,
                 },
             );
         }
-- 
2.43.0


From 98ef1eec17bc5802544977995c00e1409f2c7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 08/11] fix: Mach relocations belong to the section of the
 bytes they relocate

---
 src/mach.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index c610162..28fb736 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -370,6 +370,13 @@ impl SymbolTable {
             .and_then(|idx| self.symbols.get(&idx))
             .and_then(|sym| Some(sym.get_segment_relative_offset()))
     }
+    /// Lookup the section this symbol is defined in, if it is defined
+    pub fn section(&self, symbol_name: &str) -> Option<SectionIndex> {
+        self.strtable
+            .get(symbol_name)
+            .and_then(|idx| self.symbols.get(&idx))
+            .and_then(|sym| sym.section)
+    }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
         self.strtable
@@ -959,14 +966,27 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
             "Import links for: from {} to {} at {:#x} with {:?}",
             link.from.name, link.to.name, link.at, link.reloc
         );
+        // the section the relocated bytes are in, and where their definition starts in it
+        let from = if link.from.decl.is_section() {
+            segment
+                .sections
+                .get_full(link.from.name)
+                .map(|(idx, _, _)| (idx, 0))
+        } else {
+            match (
+                symtab.section(link.from.name),
+                symtab.offset(link.from.name),
+            ) {
+                (Some(idx), Some(base_offset)) => Some((idx, base_offset)),
+                _ => None,
+            }
+        };
         let (absolute, reloc) = match link.reloc {
             Reloc::Auto => {
                 // NB: we currently deduce the meaning of our relocation from from decls -> to decl relocations
@@ -1023,10 +1043,10 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 if link.to.decl.is_section() {
                     // TODO: not sure if these are needed for Mach
                 } else {
-                    match symtab.index(link.to.name) {
-                        Some(to_symbol_index) => {
-                            let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
-                            segment.sections[link.from.name].relocations.push(builder.create());
+                    match (from, symtab.index(link.to.name)) {
+                        (Some((section_idx, base_offset)), Some(to_symbol_index)) => {
+                            let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
+                            segment.sections.get_index_mut(section_idx).unwrap().1.relocations.push(builder.create());
                         }
                         _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
                     }
@@ -1034,17 +1054,12 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        match (from, symtab.index(link.to.name)) {
+            (Some((section_idx, base_offset)), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
-                if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
-                } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
-                }
+                let builder = if absolute { builder.absolute() } else { builder };
+                segment.sections.get_index_mut(section_idx).unwrap().1.relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From ab7a58abdcf3caef541f391360ca712c7233b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 09/11] fix: zero-initialised Mach definitions take up memory
 in __bss

---
 src/mach.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 28fb736..8b1f988 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -269,6 +269,10 @@ impl SectionBuilder {
         self.flags = flags;
         self
     }
+    /// Does this section only take up memory, and no space in the file?
+    pub fn is_zerofill(&self) -> bool {
+        self.flags == S_ZEROFILL
+    }
     /// Finalize and create the actual Mach-o section
     pub fn create(&self, section_offset: &mut u64, relocation_offset: &mut u64) -> Section {
         let mut sectname = [0u8; 16];
@@ -288,7 +292,9 @@ impl SectionBuilder {
             flags: self.flags,
         };
         section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        if !self.is_zerofill() {
+            *section_offset += section.size;
+        }
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -439,7 +445,7 @@ struct SegmentBuilder {
 }
 
 impl SegmentBuilder {
-    /// The size of this segment's _data_, in bytes
+    /// The size of this segment's _data_ in memory, in bytes
     pub fn size(&self) -> u64 {
         self.size
     }
@@ -487,9 +493,13 @@ impl SegmentBuilder {
                     weak: def.decl.is_weak(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            let def_size = match def.data {
+                Data::Blob(bytes) => bytes.len(),
+                Data::ZeroInit(size) => *size,
+            } as u64;
+            *symbol_offset += def_size;
+            section_relative_offset += def_size;
+            local_size += def_size;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -520,7 +530,9 @@ impl SegmentBuilder {
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
-        *offset += local_size;
+        if !section.is_zerofill() {
+            *offset += local_size;
+        }
         *addr += local_size;
         sections.insert(sectname.to_string(), section);
     }
@@ -692,7 +704,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -702,13 +713,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -716,9 +726,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if let Data::ZeroInit(_) = def.data {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String {
                         cstrings.push(def);
                     } else {
@@ -752,7 +761,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -807,9 +815,10 @@ impl<'a> Mach<'a> {
         // FIXME: de-magic number these
         segment_load_command.initprot = 7;
         segment_load_command.maxprot = 7;
-        segment_load_command.filesize = self.segment.size();
-        // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        // segment size in the file, without the __bss data
+        segment_load_command.filesize =
+            self.segment.offset - Header::size_with(&self.ctx.container) as u64;
+        segment_load_command.vmsize = self.segment.size();
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From c454ca6dcc212ef2aa26f8fa7a48032b99e161e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 10/11] fix: Mach sections are placed at their alignment

---
 src/mach.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 8b1f988..405f581 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -56,6 +56,12 @@ fn align_to_align_exp(align: u64) -> u64 {
     align_exp
 }
 
+/// Rounds `addr` up to a multiple of `1 << align_exp`
+fn align_up(addr: u64, align_exp: u64) -> u64 {
+    let align = 1 << align_exp;
+    (addr + align - 1) / align * align
+}
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -475,7 +481,12 @@ impl SegmentBuilder {
     ) {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
-        let mut alignment_exponent = min_alignment_exponent;
+        let alignment_exponent = definitions
+            .iter()
+            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
+            .fold(min_alignment_exponent, std::cmp::max);
+        *addr = align_up(*addr, alignment_exponent);
+        *symbol_offset = *addr;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             if let DefinedDecl::Section { .. } = def.decl {
@@ -508,8 +519,6 @@ impl SegmentBuilder {
                     .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
                     .unwrap_or(0),
             );
-            alignment_exponent = std::cmp::max(alignment_exponent, next_def_alignment_exponent);
-
             let align_pad = (1 << next_def_alignment_exponent)
                 - (section_relative_offset % (1 << next_def_alignment_exponent));
             let align_pad = if align_pad == (1 << next_def_alignment_exponent) {
@@ -568,6 +577,9 @@ impl SegmentBuilder {
             flags |= S_ATTR_DEBUG;
         }
 
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        *addr = align_up(*addr, alignment_exponent);
+        *symbol_offset = *addr;
         for (symbol, symbol_dst_offset) in def.symbols {
             symtab.insert(
                 symbol,
@@ -586,7 +598,7 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-- 
2.43.0


From 87ba70b26bd95a383129d5564ee6366c38766db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:28 +0000
Subject: [PATCH 11/11] fix: a section name too long for Mach-O is an error
 instead of a panic

---
 src/mach.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 405f581..fded565 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -280,8 +280,18 @@ impl SectionBuilder {
         self.flags == S_ZEROFILL
     }
     /// Finalize and create the actual Mach-o section
-    pub fn create(&self, section_offset: &mut u64, relocation_offset: &mut u64) -> Section {
+    pub fn create(
+        &self,
+        section_offset: &mut u64,
+        relocation_offset: &mut u64,
+    ) -> Result<Section, std::io::Error> {
         let mut sectname = [0u8; 16];
+        if self.sectname.len() > sectname.len() {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("section name `{}` is too long for Mach-O", self.sectname),
+            ));
+        }
         sectname.pwrite(&*self.sectname, 0).unwrap();
         let mut segname = [0u8; 16];
         segname.pwrite(self.segname, 0).unwrap();
@@ -307,7 +317,7 @@ impl SectionBuilder {
             section.reloff = *relocation_offset as u32;
             *relocation_offset += nrelocs as u64 * SIZEOF_RELOCATION_INFO as u64;
         }
-        section
+        Ok(section)
     }
 }
 
@@ -809,7 +819,7 @@ impl<'a> Mach<'a> {
         let mut relocation_offset = relocation_offset_start;
         let mut section_offset = first_section_offset;
         for section in self.segment.sections.values() {
-            let header = section.create(&mut section_offset, &mut relocation_offset);
+            let header = section.create(&mut section_offset, &mut relocation_offset)?;
             debug!("Section: {:#?}", header);
             raw_sections.iowrite_with(header, self.ctx)?;
         }
-- 
2.43.0

