"""Abstract Mach-O reader: header -> load commands -> sections, symbols, strings, relocations, over an Image."""
from engine import terms as t
from engine.terms import mk, I, ZERO, ONE
from .image import Image, Miss
from .elfread import strip

LC_SYMTAB, LC_SEGMENT, LC_SEGMENT_64 = 2, 1, 0x19
STRT = ("bytes", "u8")


class Macho:
    def __init__(self, img):
        self.img = img
        k = img.at(ZERO, ("mach.Header",), "file header")
        self.hdritem = img.flat[k][0]
        self.hdr = img.fields(self.hdritem)
        self.hsize = self.hdritem.a[4]
        k = img.at(self.hsize, ("mach.Segment",), "segment command")
        self.segitem = img.flat[k][0]
        self.seg = img.fields(self.segitem)
        self.secoff = t.add(self.hsize, self.segitem.a[4])
        k = img.at(self.secoff, ("bytes", "mach.Section"), "section headers")
        x = img.flat[k][0]
        if x.a[1] == "bytes":
            v = strip(x.a[2])
            if v.op != "coll" or v.a[0] != "sink":
                raise Miss("section headers not resolved")
            self.simg = Image(img.eng, v.a[1], img.st, None)
            self.simg.model = img.model
            if img.model is not None and v in img.model.nested:
                self.simg.raw, self.simg.gaps = img.model.nested[v]
            self.sbase = self.secoff
        else:
            self.simg = img
            self.sbase = ZERO
        self.secs = [(x, ch, self.simg.fields(x)) for x, ch in self.simg.typed("mach.Section")]
        if not self.secs:
            raise Miss("no sections", img.model is not None)
        self.ssize = self.secs[0][0].a[4]
        self.secsbytes = x.a[4]
        k = img.at(t.add(self.hsize, self.seg["cmdsize"]), ("mach.SymtabCommand",), "symbol table command")
        self.symitem = img.flat[k][0]
        self.symcmd = img.fields(self.symitem)
        self.syms = img.typed("mach.Nlist")
        self.nsize = self.syms[0][0].a[4] if self.syms else None
        self.relocs = img.typed("mach.RelocationInfo")

    # ---------------------------------------------------------------- sections
    def secpos(self, x):
        return t.add(self.sbase, x.a[0])

    def ordinal(self, x):
        """1-based number of a section header"""
        return t.add(self.divx(t.sub(self.secpos(x), self.secoff), self.ssize), ONE)

    def divx(self, d, n):
        q = t.div(d, n)
        if t.mul(q, n) is not d:
            raise Miss("entry not at a multiple of the entry size", self.img.model is not None)
        return q

    def section(self, n, what=""):
        """(fields, chain) of the section with a 1-based number"""
        pos = t.sub(t.add(self.secoff, t.mul(t.sub(n, ONE), self.ssize)), self.sbase)
        k = self.simg.at(pos, ("mach.Section",), "section of " + what)
        x, ch = self.simg.flat[k]
        return self.simg.fields(x), ch

    # ---------------------------------------------------------------- symbols
    def symname(self, f):
        """the name a symbol's string table offset stands at, without the leading underscore; None: malformed"""
        img = self.img
        pos = t.add(self.symcmd["stroff"], f["n_strx"])
        k = img.at(pos, STRT, "name of a symbol")
        x, ch = img.flat[k]
        if x.a[1] == "u8":
            if x.a[2] is not I(0x5f):
                return None
            k = img.at(t.add(pos, ONE), STRT, "name of a symbol")
            x, ch = img.flat[k]
            if x.a[1] == "u8":
                return t.S("") if x.a[2] is ZERO else None
        else:
            return None
        e = img.at(t.add(x.a[0], x.a[4]), STRT, "end of a symbol name")
        y = img.flat[e][0]
        if not (y.a[1] == "u8" and y.a[2] is ZERO):
            return None
        return strip(x.a[2])

    def symindex(self, x):
        return self.divx(t.sub(x.a[0], self.symcmd["symoff"]), self.nsize)

    def symbol_at(self, idx, what=""):
        img = self.img
        return img.at(t.add(self.symcmd["symoff"], t.mul(idx, self.nsize)), ("mach.Nlist",), "symbol " + what)

    def one_symbol(self, name, what=""):
        """(index, fields, item) of the only symbol with a name"""
        img = self.img
        name = strip(img.ev(name))
        hit, sure = [], True
        for x, ch in self.syms:
            if ch:
                continue
            f = img.fields(x)
            try:
                s = self.symname(f)
            except Miss as e:
                sure = sure and e.definite
                continue
            if s is name:
                hit.append((self.symindex(x), f, x))
        if len(hit) == 1:
            return hit[0]
        raise Miss("%d symbols named after %s" % (len(hit), what), img.model is not None and (sure or len(hit) > 1))

    # ---------------------------------------------------------------- fixed-size names
    def fixed(self, v):
        """the string in a NUL-padded 16-byte name"""
        if v.op == "pwritten" and v.a[2] is ZERO and v.a[0].op == "arep" and v.a[0].a[0] is ZERO:
            return strip(v.a[1])
        if v.op == "arep" and v.a[0] is ZERO:
            return t.S("")
        if v.op == "arr" and all(b.op == "int" for b in v.a[0]):
            return t.S(bytes(b.a[0] for b in v.a[0]).rstrip(b"\0").decode("latin1"))
        return None
