"""Abstract ELF reader: follows the format's own pointers (header -> section table -> tables -> entries) over an Image."""
from engine import terms as t
from engine.terms import mk, I, ZERO, ONE
from .image import Image, Miss

SHT = dict(NULL=0, PROGBITS=1, SYMTAB=2, STRTAB=3, RELA=4, NOBITS=8, REL=9, SHNDX=18)
LORESERVE = 0xff00
XINDEX = 0xffff
STRT = ("bytes", "u8")


class Elf:
    def __init__(self, img):
        self.img = img
        k = img.at(ZERO, ("elf.Header",), "file header")
        self.hdr = img.fields(img.flat[k][0])
        self.hdritem = img.flat[k][0]
        ident = self.hdr["e_ident"]
        if ident.op != "arr":
            raise Miss("e_ident not resolved")
        self.ident = ident.a[0]
        self.shoff = self.hdr["e_shoff"]
        sh = img.typed("elf.SectionHeader")
        if not sh:
            raise Miss("no section headers", img.model is not None)
        self.headers = sh
        self.shsize = sh[0][0].a[4]
        self.symsize = None
        self.secs = [(self.index(x), img.fields(x), ch, x) for x, ch in sh]
        self.symtabs = [s for s in self.secs if s[1]["sh_type"] is I(SHT["SYMTAB"])]
        if len(self.symtabs) != 1:
            raise Miss("%d symbol tables" % len(self.symtabs), img.model is not None)
        self.symtab = self.symtabs[0][1]
        self.symtab_idx = self.symtabs[0][0]
        self.shstr = self.section(self.hdr["e_shstrndx"], "e_shstrndx")
        self.str = self.section(self.symtab["sh_link"], "symtab sh_link")
        self.syms = img.typed("elf.Sym")
        if self.syms:
            self.symsize = self.syms[0][0].a[4]
        self.shndx = [s for s in self.secs if s[1]["sh_type"] is I(SHT["SHNDX"])]

    def divx(self, d, n):
        q = t.div(d, n)
        if t.mul(q, n) is not d:
            raise Miss("entry not at a multiple of the entry size", self.img.model is not None)
        return q

    def index(self, x):
        """index of a section header: by its place in the table"""
        return self.divx(t.sub(x.a[0], self.shoff), self.shsize)

    def section(self, idx, what=""):
        img = self.img
        k = img.at(t.add(self.shoff, t.mul(idx, self.shsize)), ("elf.SectionHeader",), "section header " + what)
        return img.fields(img.flat[k][0])

    def string(self, tab, off, what=""):
        """the string term that starts at an offset of a string table; None when it is not terminated"""
        img = self.img
        pos = t.add(tab["sh_offset"], off)
        k = img.at(pos, STRT, "string " + what)
        x, ch = img.flat[k]
        if x.a[1] == "u8":
            return t.S("") if x.a[2] is ZERO else None
        e = img.at(t.add(x.a[0], x.a[4]), STRT, "end of string " + what)
        y = img.flat[e][0]
        if not (y.a[1] == "u8" and y.a[2] is ZERO):
            return None
        return strip(x.a[2])

    def symname(self, f):
        return self.string(self.str, f["st_name"], "of a symbol")

    def secname(self, f):
        return self.string(self.shstr, f["sh_name"], "of a section")

    def symindex(self, x):
        return self.divx(t.sub(x.a[0], self.symtab["sh_offset"]), self.symsize)

    def symbol_at(self, idx, what=""):
        img = self.img
        k = img.at(t.add(self.symtab["sh_offset"], t.mul(idx, self.symsize)), ("elf.Sym",), "symbol " + what)
        return k

    def nameoffsets(self, name):
        """offsets of the string table at which a name (with its terminator) stands"""
        img = self.img
        out = []
        name = img.ev(name)
        for k, (x, ch) in enumerate(img.flat):
            if x.op == "w" and x.a[1] == "bytes" and not ch and strip(x.a[2]) is name:
                out.append(t.sub(x.a[0], self.str["sh_offset"]))
        return out

    def symbols_named(self, name):
        """symbol table entries (outside populations) whose name is `name`, and whether the others are known to differ"""
        img = self.img
        name = img.ev(name)
        hit, sure = [], True
        for k, (x, ch) in enumerate(img.flat):
            if x.op != "w" or x.a[1] != "elf.Sym" or ch:
                continue
            f = img.fields(x)
            try:
                s = self.symname(f)
            except Miss as e:
                sure = sure and e.definite
                continue
            if s is None:
                continue
            if s is name:
                hit.append((self.symindex(x), f, x))
            elif img.eq(s, name) is not False and not distinct(s, name):
                sure = False
        return hit, sure

    def one_symbol(self, name, what=""):
        hit, sure = self.symbols_named(name)
        if len(hit) == 1:
            return hit[0]
        definite = self.img.model is not None and (sure or len(hit) > 1)
        raise Miss("%d symbols named after %s" % (len(hit), what), definite)

    def section_of(self, f, x, what=""):
        """section header index a symbol refers to (through the extended index table when it has to)"""
        img = self.img
        v = f["st_shndx"]
        if img.model is not None:
            v = img.ev(v)
            if v.op != "int":
                raise Miss("section index of " + what)
            v = I(v.a[0] & 0xffff)
            if LORESERVE <= v.a[0] != XINDEX:
                raise Miss("the symbol of %s has the reserved section index %#x" % (what, v.a[0]), True)
            return v if v.a[0] != XINDEX else self.extended(x, what)
        return v

    def extended(self, x, what=""):
        """entry of the extended section index table for a symbol"""
        img = self.img
        if len(self.shndx) != 1:
            raise Miss("%s needs the extended section index table, of which there are %d" % (what, len(self.shndx)), img.model is not None)
        f = self.shndx[0][1]
        k = img.at(f["sh_offset"], None, "extended section indices")
        tabl = img.flat[k][0].a[2]
        if tabl.op != "coll":
            raise Miss("extended section index table not resolved")
        off = t.mul(self.symindex(x), I(4))
        sub = Image(img.eng, list(tabl.a[2]), img.st, None) if img.model is None else None
        log = sub.flat if sub else [(y, ()) for y in tabl.a[2]]
        for y, ch in log:
            if y.op == "pw" and y.a[0] is off:
                v = y.a[2]
                if byteorder(img.eng, y.a[3]) not in (None, self.encoding()):
                    raise Miss("extended section index of %s is not in the file's byte order" % what, img.model is not None)
                if v.op == "trunc" and v.a[1] >= 32:
                    v = v.a[0]
                return v
        raise Miss("extended section index of %s not written" % what, False)

    def encoding(self):
        d = self.ident[5]
        return d.a[0] if d.op == "int" else None

    def check_shndx(self, f, x, idx, what=""):
        """does the symbol refer to section `idx`?  True / False / None"""
        img = self.img
        v = f["st_shndx"]
        if img.model is not None:
            return img.eq(self.section_of(f, x, what), idx)
        small = t.lt(idx, I(LORESERVE))
        st = img.st
        r = st.known(small)
        if r.op != "int":
            i = implied_(st, r)
            r = r if i is None else t.B(i)
        ok = []
        if r is not ZERO:
            s2 = st.copy()
            if r.op == "int" or s2.assume(r, 1):
                v2 = v if r.op == "int" else t.replace(v, {r: ONE})
                ok.append(img._eq(v2, idx, s2, 0))
        if r is not ONE:
            s2 = st.copy()
            if r.op == "int" or s2.assume(r, 0):
                v2 = v if r.op == "int" else t.replace(v, {r: ZERO})
                a = img._eq(v2, I(XINDEX), s2, 0)
                if a is True:
                    a = img._eq(self.extended(x, what), idx, s2, 0)
                ok.append(a)
        if all(o is True for o in ok):
            return True
        return None

    def content(self, sec, what=""):
        """what is stored at the place a section header points to"""
        img = self.img
        k = img.at(sec["sh_offset"], None, "contents of " + what)
        return img.flat[k][0]


def implied_(st, c):
    from .image import implied
    return implied(st, c)


def distinct(a, b):
    """are two strings known to differ (all names of a scenario are distinct)?"""
    if a.op == "str" and b.op == "str":
        return a.a[0] != b.a[0]
    return a is not b


def strip(v):
    while v.op == "vref":
        v = v.a[0]
    return v


def byteorder(eng, c):
    """ELF data encoding (1 little, 2 big) of the byte order a scalar is written with"""
    while c.op == "tup" and c.a[0]:
        c = c.a[0][-1]
    if c.op != "adt" or len(c.a) < 3:
        return None
    if len(c.a[2]) == 2:
        c = c.a[2][1]
        if c.op != "adt":
            return None
    ty = next((eng.types[i] for i in eng.pathty.get(c.a[0], ()) if eng.types[i].get("variants")), None)
    return {"Little": 1, "Big": 2}.get(ty["variants"][c.a[1]]["n"]) if ty and c.a[1] < len(ty["variants"]) else None
