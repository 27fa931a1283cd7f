"""Mach-O writer: the abstract file image of symbolic artifacts is read back with the format's own pointers."""
from engine import terms as t
from engine.terms import mk, I, S, ZERO, ONE, fld, discr
from engine.interp import Unsupported, Budget
from .front import *
from .back import Back, CLASSES, placement
from engine.evalm import Unknown
from .image import Image, Miss, subterms
from .machread import Macho, strip, LC_SYMTAB, LC_SEGMENT, LC_SEGMENT_64
from . import p_elf as E
from .p_elf import kind, fix, size_of, attr, all3, tri_and, relocfield, ats, ctxof

WHERE = "src/mach.rs"
N_EXT, N_SECT, N_WEAK = 1, 0xe, 0x80

# populations and focus definitions of a scenario, in the order of the definition lists: '@c' is a focus definition,
# 'a+b' a population of definitions of class a or b
GROUPS = [
    "fn.local @fn.local fn.local @data.local data.local ro.local @datastr.local rostr.local @bss.local bss.local @sect.data "
    "fn.weak @fn.global fn.global @ro.weak data.global @rostr.weak datastr.global @bss.weak bss.global",
    "@fn.local fn.local ro.local @ro.local @ro.local datastr.local bss.local @robss.local bss.local sect.debug @sect.debug "
    "fn.weak @fn.weak @fn.global data.weak ro.global @data.global datastr.weak @datastr.global robss.weak @bss.global",
    "@sect.text fn.local data.local ro.local rostr.local datastr.local @rostr.local bss.local robss.local @bssstr.local sect.data "
    "@sect.debugstr sect.text @fn.weak @fn.weak @data.weak @data.weak @datastr.weak @datastr.weak @robssstr.weak @robss.global",
    "@fn.local @fn.local @data.local @ro.local @datastr.local @rostr.local @bss.local @bss.local @sect.data @sect.datastr @sect.debug "
    "@fn.weak @data.weak @datastr.weak @bss.weak",
    "fn.local data.local datastr.local bss.local sect.debug @sect.textstr sect.data",
    "@ro.global",
    "",
]


class MScen:
    def __init__(self, eng, spec, arch="X86_64", links=(), imports=True, spec2=None):
        placement(eng)
        self.eng = eng
        self.b = b = Back(eng)
        self.arch = arch
        self.segs, self.foci, self.pops = [], [], []
        n = 0
        for w in spec.split():
            if w[0] == "@":
                tag = "d%d" % n
                self.foci.append((tag, b.define(w[1:], tag)))
                n += 1
            else:
                seg = b.popmix(w.split("+"), "P%d" % len(self.segs)) if "+" in w else b.pop(w, "P%d" % len(self.segs))
                self.pops.append((w, seg))
                self.segs.append(seg)
        if imports:
            self.segs.append(b.popimp("F", "I"))
        b.imp("F", "IF")
        if imports:
            self.segs.append(b.popimp("D", "J"))
        b.imp("D", "ID")
        if imports:
            self.segs.append(b.popimp("F", "K"))
        self.links, self.poplinks = [], []
        for l in links:
            if l[0] == "pop":
                seg = b.poplink(*l[1:])
                self.segs.append(seg)
                self.poplinks.append(dict(frm=l[1], to=l[2], kind=l[3], seg=seg))
            else:
                self.links.append(b.link(*l))
        self.ref = b.artifact(arch)

    def run(self, rep):
        eng = self.eng
        self.res = eng.run("mach::to_bytes", [self.ref], self.b.st)
        rep.eng(eng)
        rep.paths += len(self.res)
        self.res = E.split(self.res)
        self.out = [(s, E.image_items(r)) for s, r in self.res]
        return self.out


def scan(rep, eng, ob, scen, fn, tries=24):
    return E.scan(rep, eng, ob, scen, fn, tries, WHERE)


# ---------------------------------------------------------------- where definitions belong
def secclass(F):
    """'text' / 'data' / 'cstring' / 'bss' / 'custom'"""
    k = kind(F)
    if k == "Func":
        return "text"
    if k == "Sect":
        return "custom"
    if CLASSES[F["cls"]][1] == "ZeroInit":
        return "bss"
    return "cstring" if fix(F, "DataType") == "String" else "data"


SECTS = {"text": ("__TEXT", "__text", 0x80000400), "data": ("__DATA", "__data", 0), "cstring": ("__TEXT", "__cstring", 2), "bss": ("__DATA", "__bss", 1)}


def secnames(F):
    """(segment, section, flags) the definition belongs to"""
    c = secclass(F)
    if c != "custom":
        a, b, f = SECTS[c]
        return S(a), S(b), I(f)
    k = fix(F, "SectionKind")
    nm = secname(F["name"])
    return S({"Debug": "__DWARF", "Data": "__DATA", "Text": "__TEXT"}[k]), nm, I(0x02000000 if k == "Debug" else 0)


def secname(n):
    return t.ite(mk("prefix", n, S(".debug")), t.cat(S("__debug"), mk("strdrop", n, I(6))), n)


def find_custom(m, F):
    """(ordinal, fields) of the header of a focus custom section: the one with its names whose contents are its bytes"""
    img = m.img
    seg, nm, fl = secnames(F)
    nm = m.simg.ev(nm)
    hit, sure = [], True
    for x, ch, f in m.secs:
        if ch:
            continue
        s = m.fixed(f["sectname"])
        if s is None:
            sure = False
            continue
        if s is nm or img.eq(s, nm) is True:
            hit.append((m.ordinal(x), f))
    if len(hit) == 1:
        return hit[0]
    raise Miss("%d sections named after %s" % (len(hit), F["cls"]), img.model is not None and (sure or len(hit) > 1))


def find_section(m, F):
    """(ordinal, fields) of the section a focus definition belongs to, by names"""
    if secclass(F) == "custom":
        return find_custom(m, F)
    seg, nm, fl = secnames(F)
    hit = [(m.ordinal(x), f) for x, ch, f in m.secs if not ch and m.fixed(f["sectname"]) is nm and m.fixed(f["segname"]) is seg]
    if not hit:
        raise Miss("no section %s" % nm.a[0], m.img.model is not None)
    return hit[0]


def align_of(sc, F):
    al, ti = attr(sc.eng, F, "align")
    return t.ite(t.eq(discr(al), ONE), fld(al, 1, 0), ONE)


def sym(m, F):
    return m.one_symbol(F["name"], F["cls"])


def eachfocus(sc, ob, what, fn, pred=lambda F: True):
    for tag, F in sc.foci:
        if not pred(F):
            continue
        try:
            fn(tag, F, F["cls"])
        except Miss as e:
            ob("%s/%s" % (F["cls"], what), False if e.definite else None, str(e))


# ---------------------------------------------------------------- symbols
def ob_symbols(sc, img, ob):
    m = Macho(img)

    def one(tag, F, n):
        idx, f, x = sym(m, F)
        ob(n + "/symbol", True)
        ty = N_SECT | (0 if fix(F, "Scope") == "Local" else N_EXT)
        ob(n + "/type", img.eq(f["n_type"], I(ty)), "n_type of %s is %s, expected %#x" % (n, t.show(f["n_type"])[:40], ty))
        ds = N_WEAK if fix(F, "Scope") == "Weak" else 0
        ob(n + "/desc", img.eq(f["n_desc"], I(ds)), "n_desc of %s is %s, expected %#x" % (n, t.show(f["n_desc"])[:40], ds))
    eachfocus(sc, ob, "symbol", one, lambda F: kind(F) != "Sect")
    for tag in ("IF", "ID"):
        F = sc.b.focus[tag]
        n = F["cls"]
        try:
            idx, f, x = sym(m, F)
        except Miss as e:
            ob(n + "/symbol", False if e.definite else None, str(e))
            continue
        ob(n + "/symbol", True)
        ob(n + "/undefined-external", tri_and(img.eq(f["n_type"], I(N_EXT)), img.eq(f["n_sect"], ZERO)), "an import is not an undefined external symbol (n_type %s, n_sect %s)" % (t.show(f["n_type"])[:30], t.show(f["n_sect"])[:30]))
        ob(n + "/zero", tri_and(img.eq(f["n_value"], ZERO), img.eq(f["n_desc"], ZERO)), "an import has a value or description")
    for tag, F in sc.foci:
        if kind(F) == "Sect":
            custom_symbols(sc, m, img, ob, F)


def custom_symbols(sc, m, img, ob, F):
    n = F["cls"]
    seg = mk("many", F["symbols"])
    try:
        i, g = find_custom(m, F)
    except Miss as e:
        ob(n + "/section", False if e.definite else None, str(e))
        return
    if img.model is None:
        runs = [(x, ch) for x, ch in m.syms if len(ch) == 1 and t.LOOPS[ch[0][0]].source is seg]
        ob(n + "/symbol-count", True if len(runs) == 1 else None, "%d symbol runs for the symbols of %s" % (len(runs), n))
        for x, ch in runs:
            f = img.fields(x)
            L = ch[0][0]
            el = mk("el", seg, L)
            ob(n + "/symbol-section", tri_and(img.eq(f["n_sect"], i), img.eq(t.band(f["n_type"], I(0xfe)), I(N_SECT))), "symbol of %s is not defined in its section" % n)
            ob(n + "/symbol-value", img.eq(f["n_value"], t.add(g["addr"], E.valof(sc, el))), "symbol in %s has value %s" % (n, t.show(f["n_value"])[:60]))
            ob(n + "/symbol-name", popname(m, f, seg, L, E.nameof(sc, el)), "symbol in %s has another name" % n)
    else:
        want = img.model.popsize(seg)
        for k in range(want if want <= 64 else 0):
            el = mk("el", seg, I(k))
            nm, v = img.ev(strip(E.nameof(sc, el))), img.ev(E.valof(sc, el))
            hit = []
            for x, ch in m.syms:
                f = img.fields(x)
                try:
                    if m.symname(f) is nm:
                        hit.append(f)
                except Miss:
                    pass
            ob(n + "/symbol-count", len(hit) == 1, "%d symbols for a symbol of %s" % (len(hit), n))
            for f in hit[:1]:
                ob(n + "/symbol-section", tri_and(img.eq(f["n_sect"], i), img.eq(t.band(f["n_type"], I(0xfe)), I(N_SECT))), "symbol of %s is not defined in its section" % n)
                ob(n + "/symbol-value", img.eq(f["n_value"], t.add(g["addr"], v)), "symbol in %s has value %s, expected %s past %s" % (n, t.show(f["n_value"]), t.show(v), t.show(img.ev(g["addr"]))))


def popname(m, f, seg, L, nm):
    img = m.img
    pos = t.add(t.add(m.symcmd["stroff"], f["n_strx"]), ONE)
    for k, (x, ch) in enumerate(img.flat):
        if x.op == "w" and x.a[1] == "bytes" and len(ch) == 1 and t.LOOPS[ch[0][0]].source is seg:
            L1 = ch[0][0]
            if t.rename(strip(x.a[2]), L1, L) is strip(nm) and img.eq(t.rename(x.a[0], L1, L), pos) is True:
                y, c2 = img.flat[k + 1]
                z, c0 = img.flat[k - 1]
                if c2 == ch and y.a[1] == "u8" and y.a[2] is ZERO and c0 == ch and z.a[1] == "u8" and z.a[2] is I(0x5f):
                    return True
    return None


# ---------------------------------------------------------------- sections
def ob_sections(sc, img, ob):
    m = Macho(img)

    def one(tag, F, n):
        i, g = find_section(m, F)
        if kind(F) != "Sect":
            idx, f, x = sym(m, F)
            ob(n + "/section", img.eq(f["n_sect"], i), "%s is in section %s, not in %s" % (n, t.show(f["n_sect"])[:30], secnames(F)[1].a[0]))
        else:
            sg, nm, fl = secnames(F)
            ob(n + "/segment", same(m.fixed(g["segname"]), sg), "%s is not in segment %s" % (n, sg.a[0]))
        ob(n + "/flags", img.eq(g["flags"], secnames(F)[2]), "section of %s has flags %s" % (n, t.show(g["flags"])[:30]))
        # the section is at least as aligned as the definition
        al = align_of(sc, F)
        ob(n + "/alignment", aligned_enough(img, g["align"], al), "section of %s is less aligned (2^%s) than the definition (%s)" % (n, t.show(img.ev(g["align"]))[:40], t.show(img.ev(al))[:40]))
    eachfocus(sc, ob, "section", one)
    for k, c in enumerate(("text", "data", "cstring", "bss")):
        a, b, fl = SECTS[c]
        hit = [(m.ordinal(x), f) for x, ch, f in m.secs if not ch and m.fixed(f["sectname"]) is S(b)]
        ob(c + "/once", len(hit) == 1 if img.model is not None else True if len(hit) == 1 else None, "%d sections %s" % (len(hit), b))


def aligned_enough(img, exp, al):
    """2^exp >= al, both powers of two"""
    lg = t.ite(al.a[0], t.log2(al.a[1]), t.log2(al.a[2])) if al.op == "ite" else t.log2(al)
    return img.le(lg, exp)


def same(a, b):
    if a is None:
        return None
    return strip(a) is strip(b)


# ---------------------------------------------------------------- addresses and contents
def ob_places(sc, img, ob):
    m = Macho(img)

    def one(tag, F, n):
        i, g = find_section(m, F)
        if kind(F) == "Sect":
            start = g["addr"]
            ob(n + "/size", img.eq(g["size"], size_of(F)), "section of %s has size %s" % (n, t.show(img.ev(g["size"]))[:60]))
        else:
            idx, f, x = sym(m, F)
            start = f["n_value"]
            ob(n + "/inside", tri_and(img.le(g["addr"], start), img.le(t.add(start, size_of(F)), t.add(g["addr"], g["size"]))), "%s does not lie inside its section" % n)
        al = align_of(sc, F)
        ob(n + "/aligned", img.divides(al, start), "%s starts at %s, which is not a multiple of its alignment %s" % (n, t.show(img.ev(start))[:60], t.show(img.ev(al))[:40]))
        ob(n + "/section-aligned", img.divides(t.pow2(g["align"]), g["addr"]), "address %s of the section of %s is not a multiple of 2^%s" % (t.show(img.ev(g["addr"]))[:60], n, t.show(img.ev(g["align"]))[:40]))
        if CLASSES[n][1] == "Blob":
            pos = t.add(g["offset"], t.sub(start, g["addr"]))
            ob(n + "/bytes", lambda: E.blob_at(img, pos, F), "the bytes of %s are not in the file where its symbol points" % n)
        else:
            ob(n + "/no-bytes", not any(strip(x.a[2]) is F["data"].a[2][0] for x, ch in img.flat if x.op == "w" and x.a[1] == "bytes"), "zero-initialised %s takes file space" % n)
    eachfocus(sc, ob, "place", one)
    # definitions of a section do not overlap in memory
    fs = []
    for tag, F in sc.foci:
        if kind(F) == "Sect":
            continue
        try:
            fs.append((secclass(F), F["cls"], sym(m, F)[1]["n_value"], size_of(F)))
        except Miss as e:
            ob("apart", False if e.definite else None, str(e))
    for j in range(len(fs)):
        for k in range(j):
            if fs[j][0] == fs[k][0]:
                ob(fs[j][0] + "/apart", E.disjoint(img, ("", fs[k][2], fs[k][3]), ("", fs[j][2], fs[j][3])), "%s and %s overlap in memory" % (fs[k][1], fs[j][1]))
    # neither do the members of a population of zero-initialised definitions (they have no bytes to overlap in the file)
    if img.model is not None:
        pts = allsyms(sc, m, img)
        pts = sorted(((s, a, b, n) for s, a, b, n in pts), key=lambda p: (p[0].a[0], p[1].a[0]))
        for p, q in zip(pts, pts[1:]):
            if p[0] is q[0] and p[2].a[0] and q[2].a[0]:
                ob("pop/apart", p[1].a[0] + p[2].a[0] <= q[1].a[0], "%s and %s overlap in memory" % (p[3], q[3]))
    # sections do not overlap in memory and lie in the segment
    secs = [(f["addr"], f["size"]) for x, ch, f in m.secs if not ch]
    for j in range(len(secs)):
        ob("segment", img.le(t.add(secs[j][0], secs[j][1]), t.add(m.seg["vmaddr"], m.seg["vmsize"])), "a section ends past the segment's memory")
        if j:
            ob("sections-apart", E.disjoint(img, ("",) + secs[j - 1], ("",) + secs[j]), "two sections overlap in memory")


def allsyms(sc, m, img):
    """(section, value, size, class) of focus definitions and members of populations, under an assignment"""
    out = []
    vals = {}
    for x, ch in m.syms:
        f = img.fields(x)
        try:
            vals[m.symname(f)] = f
        except Miss:
            pass
    for tag, F in sc.foci:
        if kind(F) != "Sect":
            f = vals.get(strip(img.ev(F["name"])))
            if f is not None:
                out.append((img.ev(f["n_sect"]), img.ev(f["n_value"]), img.ev(size_of(F)), F["cls"]))
    for w, seg in sc.pops:
        if "sect" in w or "+" in w:
            continue
        n = img.model.popsize(seg)
        for k in range(n if n <= 64 else 0):
            rec = sc.eng.elmk[seg](mk("el", seg, I(k)))
            r, fl = sc.b.L.idef_roles()
            nm = strip(img.ev(typedname(rec, r)))
            f = vals.get(nm)
            if f is None:
                continue
            d = rec.a[2][r["data"]]
            sz = t.length(d.a[2][0]) if CLASSES[w][1] == "Blob" else d.a[2][0]
            out.append((img.ev(f["n_sect"]), img.ev(f["n_value"]), img.ev(sz), w))
    return [o for o in out if all(v.op == "int" for v in o[:3])]


def typedname(rec, r):
    x = rec.a[2][r["name"]]
    return x.a[1] if x.op == "id" else x


# ---------------------------------------------------------------- tables and load commands
def ob_tables(sc, img, ob):
    m = Macho(img)
    c = m.symcmd
    n = E.count(img, "mach.Nlist")
    ob("nsyms", img.eq(c["nsyms"], n) if n is not None else None, "nsyms is %s with %s symbols" % (t.show(img.ev(c["nsyms"]))[:40], t.show(n)[:40] if n is not None else "?"))
    if m.syms:
        at = img.first(m.syms[0][0].a[0], m.syms[0][1])
        ob("symoff", img.eq(at, c["symoff"]) if at is not None else None, "the symbol table does not start at symoff")
    k = img.at(c["stroff"], ("u8",), "string table")
    ob("string-nul", img.flat[k][0].a[2] is ZERO, "the string table does not start with a NUL")
    for x, ch in m.syms:
        f = img.fields(x)
        if ch and img.model is None:
            ob("population-names", lambda: pop_underscore(m, f, ch), "a symbol's name offset does not stand at its string")
        else:
            def inside():
                s = m.symname(f)
                if s is None:
                    return False if img.model is not None else None
                return img.le(t.add(f["n_strx"], t.add(t.length(s), I(2))), c["strsize"])
            ob("names", inside, "a symbol name is not an underscore, the name and a NUL inside the string table")
    # every symbol and string is written once: as many strings as symbols
    strs = sum1(img, c["stroff"])


def sum1(img, off):
    return None


def pop_underscore(m, f, ch):
    """a population symbol's name offset stands at an underscore followed by the element's name"""
    img = m.img
    L, alt = ch[0]
    src = t.LOOPS[L].source
    pos = t.add(t.add(m.symcmd["stroff"], f["n_strx"]), ONE)
    for k, (x, c2) in enumerate(img.flat):
        if x.op == "w" and x.a[1] == "bytes" and len(c2) == 1 and t.LOOPS[c2[0][0]].source is src:
            if img.eq(t.rename(x.a[0], c2[0][0], L), pos) is True:
                y, c3 = img.flat[k + 1]
                z, c0 = img.flat[k - 1]
                if c3 == c2 and y.a[1] == "u8" and y.a[2] is ZERO and c0 == c2 and z.a[1] == "u8" and z.a[2] is I(0x5f):
                    return True
    return None


def ob_commands(sc, img, ob):
    m = Macho(img)
    h, g, c = m.hdr, m.seg, m.symcmd
    w64 = m.hsize is I(32)
    ob("filetype", img.eq(h["filetype"], ONE), "not an object file")
    ob("ncmds", img.eq(h["ncmds"], I(2)), "ncmds is %s" % t.show(h["ncmds"])[:20])
    ob("segment-cmd", img.eq(g["cmd"], I(LC_SEGMENT_64 if w64 else LC_SEGMENT)), "segment command has number %s" % t.show(g["cmd"])[:20])
    ob("symtab-cmd", img.eq(c["cmd"], I(LC_SYMTAB)), "symbol table command has number %s" % t.show(c["cmd"])[:20])
    ns = E.count(m.simg, "mach.Section")
    ob("nsects", img.eq(g["nsects"], ns) if ns is not None else None, "nsects is %s with %s section headers" % (t.show(img.ev(g["nsects"]))[:40], t.show(ns)[:40] if ns is not None else "?"))
    if ns is not None:
        ob("segment-cmdsize", img.eq(g["cmdsize"], t.add(m.segitem.a[4], t.mul(ns, m.ssize))), "the segment command's size is not that of itself and its section headers")
        ob("headers-in-command", img.eq(m.secsbytes, t.mul(ns, m.ssize)) if m.simg is not img else True, "the section headers do not fill the segment command")
    ob("symtab-cmdsize", img.eq(c["cmdsize"], m.symitem.a[4]), "the symbol table command's size is %s" % t.show(c["cmdsize"])[:20])
    ob("sizeofcmds", img.eq(h["sizeofcmds"], t.add(g["cmdsize"], c["cmdsize"])), "sizeofcmds is %s" % t.show(img.ev(h["sizeofcmds"]))[:40])
    first = t.add(m.hsize, h["sizeofcmds"])
    ob("fileoff", img.eq(g["fileoff"], first), "the segment's file range does not start after the load commands")
    end = t.add(g["fileoff"], g["filesize"])
    ob("segment-before-tables", img.le(end, c["symoff"]), "the segment's file range overlaps the symbol table")
    regs = [("load commands", ZERO, first)]
    for x, ch, f in m.secs:
        if ch:
            continue
        zf = img.eq(f["flags"], ONE)
        if zf is None:
            ob("zerofill", None, "section type not resolved")
            continue
        if zf:
            continue
        ob("section-in-segment", tri_and(img.le(g["fileoff"], f["offset"]), img.le(t.add(f["offset"], f["size"]), end)), "a section's contents lie outside the segment's file range")
        regs.append(("section", f["offset"], f["size"]))
    regs.append(("symbols", c["symoff"], t.mul(c["nsyms"], m.nsize or I(16))))
    regs.append(("strings", c["stroff"], c["strsize"]))
    rs = m.relocs[0][0].a[4] if m.relocs else I(8)
    for x, ch, f in m.secs:
        if not ch and img.eq(f["nreloc"], ZERO) is not True:
            regs.append(("relocations", f["reloff"], t.mul(f["nreloc"], rs)))
    for a, b in zip(regs, regs[1:]):
        ob("regions", E.disjoint(img, a, b), "%s and %s overlap in the file" % (a[0], b[0]))
    for x, ch in img.flat:
        if x.op == "sk":
            ob("forward-seeks", img.le(x.a[0], x.a[1]), "the writer seeks back over bytes already written")


# ---------------------------------------------------------------- relocations
# kind of link -> (type, pc-relative, length)
RX = dict(UNSIGNED=0, SIGNED=1, BRANCH=2, GOT_LOAD=3)


def rinfo(img, v):
    """(symbol number, upper eight bits) of a packed relocation"""
    v = img.ev(v)
    if v.op == "int":
        return I(v.a[0] & 0xffffff), v.a[0] >> 24
    parts = []

    def go(x):
        if x.op in ("bor", "or"):
            for y in (x.a[0] if isinstance(x.a[0], tuple) else x.a):
                go(y)
        else:
            parts.append(x)
    go(v)
    k = 0
    rest = []
    for p in parts:
        if p.op == "int":
            k |= p.a[0]
        else:
            rest.append(p)
    from .image import widen
    if len(parts) == 1:
        v = widen(v)
    if len(parts) == 1 and v.op == "lin":
        c, m = t._lin(v)
        if c >= 1 << 24:
            return widen(t.sub(v, I(c & ~0xffffff))), c >> 24
    if len(rest) == 1 and k & 0xffffff == 0:
        return widen(rest[0]), k >> 24
    raise Miss("packed relocation not resolved: " + t.show(v)[:80])


def expected(sc, l):
    """(type, pcrel, length, extern) of a link; type may be a term"""
    FR, TO = sc.b.focus[l["frm"]], sc.b.focus[l["to"]]
    k = l["kind"].split(":")[0]
    if k == "Auto":
        if "data" in FR and kind(FR) == "Data":
            return RX["UNSIGNED"], 0, 3
        if TO["cls"].startswith("import"):
            return (RX["BRANCH"] if TO["cls"] == "import.F" else RX["GOT_LOAD"]), 1, 2
        return (RX["BRANCH"] if kind(TO) == "Func" else RX["SIGNED"]), 1, 2
    if k == "Debug":
        return RX["UNSIGNED"], 0, {4: 2, 8: 3}[int(l["kind"].split(":")[1])]
    return None


def upper(e):
    ty, pc, ln = e
    return ty << 4 | 1 << 3 | ln << 1 | pc


def home(m, x, ch):
    """(ordinal, fields) of the section whose relocations contain an entry"""
    img = m.img
    p = img.peak(x.a[0], ch)
    if p is None:
        raise Miss("relocation population not resolved")
    sure = True
    for y, c2, f in m.secs:
        if c2:
            continue
        if img.eq(f["nreloc"], ZERO) is True:
            continue
        a = img.le(f["reloff"], x.a[0])
        b = img.le(t.add(p, x.a[4]), t.add(f["reloff"], t.mul(f["nreloc"], x.a[4])))
        if a is True and b is True:
            return m.ordinal(y), f
        sure = sure and (a is False or b is False)
    raise Miss("a relocation belongs to no section", sure and img.model is not None)


def base_of(m, F):
    """(section ordinal, offset of the definition in it)"""
    i, g = find_section(m, F)
    if kind(F) == "Sect":
        return i, ZERO
    return i, t.sub(sym(m, F)[1]["n_value"], g["addr"])


def links_of(sc, img):
    """(link, tag, expected offset in the origin, link value) of every link that is looked at"""
    for l in sc.links:
        yield l, l["at"], l["reloc"]


def ob_relocs(sc, img, ob):
    m = Macho(img)
    n = E.count(img, "mach.RelocationInfo")
    want = I(len(sc.links))
    for l in sc.poplinks:
        want = t.add(want, t.length(l["seg"].a[0]))
    ob("count", img.eq(n, want) if n is not None else None, "the number of relocations is not the number of links")
    tot = ZERO
    for x, ch, f in m.secs:
        if not ch:
            tot = t.add(tot, f["nreloc"])
        else:
            ob("population-sections", img.eq(f["nreloc"], ZERO), "a section without links has relocations")
    ob("nreloc", img.eq(tot, n) if n is not None else None, "the relocation counts of the sections do not add up to the relocations")
    if not m.relocs:
        return
    dup = collisions(sc, m, img)
    for l in sc.links + sc.poplinks:
        FR, TO = sc.b.focus[l["frm"]], sc.b.focus[l["to"]]
        tag = "%s->%s/%s" % (FR["cls"], TO["cls"], l["kind"].split(":")[0]) + ("" if "seg" not in l else "/many")
        try:
            i, base = base_of(m, FR)
            ti = sym(m, TO)[0]
        except Miss as e:
            ob(tag + "/ends", False if e.definite else None, str(e))
            continue
        for at, es in entries(sc, m, img, l, base, dup):
            ob(tag + "/relocation", True if len(es) == 1 else (False if img.model is not None else None), "%d relocations at the place of a link" % len(es))
            for x, ch in es[:1]:
                f = img.fields(x)
                ob(tag + "/offset", img.eq(f["r_address"], t.add(base, at)), "relocation at another offset")

                def symbol():
                    s, up = rinfo(img, f["r_info"])
                    return img.eq(s, ti)
                ob(tag + "/symbol", symbol, "relocation refers to another symbol")
                ob(tag + "/section", lambda: img.eq(home(m, x, ch)[0], i), "relocation is among those of another section")


def collisions(sc, m, img):
    """places in sections where more than one link applies (under an assignment)"""
    if img.model is None:
        return ()
    out = []
    for l in sc.links + sc.poplinks:
        i, base = base_of(m, sc.b.focus[l["frm"]])
        out += [img.ev(t.add(base, at)) for at in offs(sc, img, l)]
    return E.dups(out)


def offs(sc, img, l):
    if "seg" not in l:
        return [l["at"]]
    seg = l["seg"]
    n = img.model.popsize(seg)
    return [sc.b.linkparts(img.ev(img.eng.elmk[seg](mk("el", seg, I(k)))))[0] for k in (range(n) if n <= 64 else (0, 1, n - 2, n - 1))]


def entries(sc, m, img, l, base, dup=()):
    """[(offset in the origin, relocation entries for it)]"""
    if img.model is not None:
        out = []
        for at in offs(sc, img, l):
            w = img.ev(t.add(base, at))
            if w in dup:
                continue
            out.append((at, [(x, ch) for x, ch in m.relocs if img.ev(img.fields(x)["r_address"]) is w]))
        return out
    if "seg" not in l:
        w = t.add(base, l["at"])
        return [(l["at"], [(x, ch) for x, ch in m.relocs if not ch and img.eq(img.fields(x)["r_address"], w) is True])]
    seg = l["seg"]
    out = []
    for x, ch in m.relocs:
        if len(ch) == 1 and t.LOOPS[ch[0][0]].source is seg:
            v = img.eng.elmk[seg](mk("el", seg, ch[0][0]))
            out.append((sc.b.linkparts(v)[0], [(x, ch)]))
    return out or [(ZERO, [])]


def ob_types(sc, img, ob):
    """relocation kind of every link (x86-64)"""
    m = Macho(img)
    dup = collisions(sc, m, img)
    for l in sc.links:
        FR, TO = sc.b.focus[l["frm"]], sc.b.focus[l["to"]]
        tag = "%s->%s/%s" % (FR["cls"], TO["cls"], l["kind"])
        i, base = base_of(m, FR)
        got = entries(sc, m, img, l, base, dup)
        if not got:
            continue
        (at, es), = got
        if len(es) != 1:
            ob(tag + "/relocation", False if img.model is not None else None, "%d relocations at the place of a link" % len(es))
            continue
        f = img.fields(es[0][0])
        e = expected(sc, l)

        def kindok():
            s, up = rinfo(img, f["r_info"])
            return up == upper(e)
        ob(tag + "/kind", kindok, "relocation is %s, expected type %d, pcrel %d, length %d, extern" % ((t.show(img.ev(f["r_info"]))[-40:],) + e))


# ---------------------------------------------------------------- target identity
# architecture -> (cputype, 64-bit, big-endian)
CPUS = {"X86_64": (0x01000007, 1, 0), "X86_32": (7, 0, 0), "Aarch64(Aarch64)": (0x0100000c, 1, 0), "Arm": (12, 0, None),
        "Powerpc": (18, 0, 1), "Powerpc64": (0x01000012, 1, 1), "Powerpc64le": (0x01000012, 1, 0), "Sparc": (14, 0, 1)}


def arches(eng):
    path = next(p for p in eng.pathty if p.endswith("::Architecture") or p == "Architecture")
    ty = eng.types[next(i for i in eng.pathty[path] if eng.types[i].get("variants"))]
    for v in ty["variants"]:
        subs = [None]
        if v["f"]:
            sv = eng.types[v["f"][0]["t"]].get("variants")
            subs = [x["n"] for x in sv] if sv else []
        for s in subs:
            n = v["n"] if s is None else "%s(%s)" % (v["n"], s)
            w = CPUS.get(n) or CPUS.get(v["n"])
            if w is None:
                continue
            if w[2] is None:
                w = (w[0], w[1], 1 if "eb" in s and not s.startswith("Armv8") else 0)
            yield n, w


def ob_target(sc, img, ob):
    m = Macho(img)
    cpu, w64, big = sc.want
    ob("cputype", img.eq(m.hdr["cputype"], I(cpu)), "cputype is %s, expected %#x" % (t.show(m.hdr["cputype"])[:30], cpu))
    ob("magic", img.eq(m.hdr["magic"], I(0xfeedfacf if w64 else 0xfeedface)), "magic number is %s" % t.show(m.hdr["magic"])[:30])
    for x, ch in list(img.flat) + list(m.simg.flat if m.simg is not img else ()):
        if x.op == "w" and x.a[1] in ("mach.Header", "mach.Segment", "mach.Section", "mach.Nlist"):
            c, en = ctxof(img.eng, x.a[3])
            if c is None:
                ob("item-context", None, "context of %s not resolved" % x.a[1])
            else:
                ob("item-context", c == 1 + w64 and en == 1 + big, "%s is not written in the file's width and byte order" % x.a[1])
        elif x.op == "w" and x.a[1] in ("mach.SymtabCommand", "mach.RelocationInfo"):
            # the same layout in either width
            en = byteorder(img.eng, x.a[3])
            ob("item-context", None if en is None else en == 1 + big, "%s is not written in the file's byte order" % x.a[1])


def byteorder(eng, c):
    while c.op == "tup" and c.a[0]:
        c = c.a[0][-1]
    if c.op == "adt" and len(c.a[2]) == 2:
        c = c.a[2][1]
    if c.op != "adt" or c.a[2]:
        return None
    ty = next(eng.types[i] for i in eng.pathty[c.a[0]] if eng.types[i].get("variants"))
    return {"Little": 1, "Big": 2}.get(ty["variants"][c.a[1]]["n"])


# ---------------------------------------------------------------- properties
def over(fn):
    def p(rep, eng):
        for k, g in enumerate(GROUPS):
            scan(rep, eng, "g%d" % k, lambda: MScen(eng, g), fn)
        for a in ("Aarch64(Aarch64)", "X86_32(I686)") if rep.tier == "quick" else ("Aarch64(Aarch64)", "X86_32(I686)", "Powerpc", "Arm(Armv7)"):
            scan(rep, eng, "g0.%s" % a.split("(")[0], lambda: MScen(eng, GROUPS[0], arch=a), fn)
    p.__doc__ = fn.__doc__
    return p


RSPEC = [
    ("fn.local @fn.local fn.local data.local ro.local @data.local @ro.local datastr.local @datastr.local @sect.debug "
     "@fn.global fn.global data.weak @data.weak @bss.global bss.global",
     # d0 fn.local d1 data.local d2 ro.local d3 datastr.local d4 sect.debug d5 fn.global d6 data.weak d7 bss.global
     [("d0", "IF", "Auto", "l0"), ("pop", "d0", "d5", "Auto", "p0"), ("d1", "d5", "Auto", "l1"), ("d4", "d6", "Debug:8", "l2"), ("d5", "ID", "Auto", "l3"),
      ("pop", "d6", "d7", "Auto", "p1"), ("d2", "d0", "Auto", "l4"), ("d3", "IF", "Auto", "l5"), ("pop", "d4", "d0", "Debug:4", "p2"), ("d6", "d1", "Auto", "l6")]),
    ("sect.debug @sect.debug @sect.debugstr @fn.local fn.local @ro.local data.local fn.weak @fn.weak @data.global @rostr.global",
     # d0 sect.debug d1 sect.debugstr d2 fn.local d3 ro.local d4 fn.weak d5 data.global d6 rostr.global
     [("d2", "d4", "Auto", "l0"), ("d4", "d2", "Auto", "l1"), ("pop", "d3", "d2", "Auto", "p0"), ("d6", "d3", "Auto", "l2"), ("d1", "d2", "Debug:8", "l3"),
      ("d0", "d3", "Debug:4", "l4"), ("pop", "d0", "IF", "Debug:8", "p1"), ("d4", "d4", "Auto", "l5"), ("pop", "d4", "IF", "Auto", "p2"), ("d5", "ID", "Auto", "l6")]),
]


def p_relocs(rep, eng):
    for k, (g, ls) in enumerate(RSPEC):
        scan(rep, eng, "r%d" % k, lambda: MScen(eng, g, links=ls), ob_relocs)


def p_types(rep, eng):
    fr = ["fn.local", "fn.global", "fn.weak", "data.local", "ro.global", "datastr.weak"]
    to = fr + ["bss.global", "robss.local", "rostr.weak"]
    cl = [c for c in to + ["sect.debug", "sect.debugstr"] if c.endswith(".local") or c.startswith("sect")] + [c for c in to if not c.endswith(".local") and not c.startswith("sect")]
    names = {c: "d%d" % k for k, c in enumerate(cl)}
    links = []
    for a in fr:
        for b in [names[x] for x in to] + ["IF", "ID"]:
            links.append((names[a], b, "Auto", "a%d" % len(links)))
    for a in ("sect.debug", "sect.debugstr", "fn.local", "data.local"):
        for b in [names[x] for x in to] + ["IF", "ID"]:
            for kd in ("Debug:4", "Debug:8"):
                links.append((names[a], b, kd, "a%d" % len(links)))
    for k in range(0, len(links), 50):
        scan(rep, eng, "x86-64", lambda: MScen(eng, " ".join("@" + c for c in cl), links=links[k:k + 50], imports=False), ob_types)


def p_target(rep, eng):
    for a, w in arches(eng):
        def mk_():
            sc = MScen(eng, "@fn.local @data.local @fn.global", arch=a, imports=False, links=[("d0", "d1", "Auto", "l0")])
            sc.want = w
            return sc
        scan(rep, eng, a, mk_, ob_target)


def toolong(sc, facts, disj):
    """does the path require a custom section whose name does not fit a section header?"""
    img = Image(sc.eng, (), sc.b.st.copy())
    img.st.facts = dict(facts)
    names = [secnames(F)[1] for tag, F in sc.foci if kind(F) == "Sect"]
    r, fl = sc.b.L.idef_roles()
    for w, seg in sc.pops:
        if w.startswith("sect"):
            for L in {e.a[1] for f in facts for e in subterms(f, set(), True) if e.op == "el" and e.a[0] is seg}:
                names.append(secname(typedname(sc.eng.elmk[seg](mk("el", seg, L)), r)))
    return any(img.truth(t.lt(t.length(n), I(17))) is False for n in names)


def p_emitted(rep, eng):
    for k, g in enumerate(GROUPS):
        E.emitted(rep, eng, "g%d" % k, lambda: MScen(eng, g), WHERE, toolong)
    for k, (g, ls) in enumerate(RSPEC):
        E.emitted(rep, eng, "r%d" % k, lambda: MScen(eng, g, links=ls), WHERE, toolong)


p_symbols = over(ob_symbols)
p_sections = over(ob_sections)
p_places = over(ob_places)
p_tables = over(ob_tables)


def p_commands(rep, eng):
    over(ob_commands)(rep, eng)
    for k, (g, ls) in enumerate(RSPEC):
        scan(rep, eng, "r%d" % k, lambda: MScen(eng, g, links=ls), ob_commands)

