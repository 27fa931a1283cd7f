"""ELF writer: the abstract file image of symbolic artifacts is read back with the format's own pointers."""
from engine import terms as t
from engine.terms import mk, I, S, ZERO, ONE, fld, discr
from engine.interp import Unsupported, Budget
from .front import *
from .back import Back, CLASSES, placement
from engine.evalm import Unknown, huge, satisfiable
from .image import Image, Miss, Checker, describe
from .elfread import byteorder, Elf, SHT, strip

WHERE = "src/elf.rs"
STT = dict(Func=2, Data=1)
STB = dict(Local=0, Global=1, Weak=2)
STV = dict(Default=0, Hidden=2, Protected=3)
POPL = ["fn.local", "ro.local", "data.local", "bss.local", "sect.debug"]
POPG = ["fn.global", "data.weak", "bss.global"]
# (foci in the local list, foci in the other list)
GROUPS = [
    (["fn.local", "sect.debug", "bss.local"], ["fn.global", "data.weak", "bss.global"]),
    (["ro.local", "sect.data", "datastr.local"], ["fn.weak", "ro.global", "bss.weak"]),
    (["rostr.local", "sect.textstr", "robss.local"], ["ro.weak", "rostr.global", "data.global"]),
    (["data.local", "sect.debugstr", "bssstr.local"], ["datastr.weak", "rostr.weak", "robss.weak"]),
    (["robssstr.local", "sect.text", "sect.datastr"], ["datastr.global", "bssstr.weak", "robss.global"]),
]


class Scen:
    """one scenario and its abstract results"""

    def __init__(self, eng, local, glob, arch="X86_64", links=(), pops=True, name=None):
        placement(eng)
        self.eng = eng
        self.b = b = Back(eng)
        self.arch = arch
        self.segs = []
        self.foci = []
        if pops:
            self.segs.append(b.popmix(POPL, "A"))
        for k, c in enumerate(local):
            self.foci.append(("L%d" % k, b.define(c, "L%d" % k)))
        if pops:
            self.segs.append(b.popmix(POPL, "B"))
            self.segs.append(b.popmix(POPG, "C"))
        for k, c in enumerate(glob):
            self.foci.append(("G%d" % k, b.define(c, "G%d" % k)))
        if pops:
            self.segs.append(b.popmix(POPG, "D"))
            self.segs.append(b.popimp("F", "I"))
        b.imp("F", "IF")
        if pops:
            self.segs.append(b.popimp("D", "J"))
        b.imp("D", "ID")
        if pops:
            self.segs.append(b.popimp("F", "K"))
        self.links, self.poplinks = [], []
        for l in links:
            if l[0] == "pop":
                seg = b.poplink(*l[1:])
                self.segs.append(seg)
                self.poplinks.append(dict(frm=l[1], to=l[2], kind=l[3], seg=seg))
            else:
                self.links.append(b.link(*l))
        self.ref = b.artifact(arch)
        self.name = name or arch

    def run(self, rep):
        eng = self.eng
        self.res = eng.run("elf::to_bytes", [self.ref], self.b.st)
        rep.eng(eng)
        rep.paths += len(self.res)
        self.res = split(self.res)
        self.out = []
        for s, r in self.res:
            it = image_items(r)
            self.out.append((s, it))
        return self.out


def split(res):
    """results that are a choice between an object file and an error, one by one"""
    out = []
    for s, r in res:
        if r.op == "ite" and any(x.op == "ite" or x.op == "adt" and x.a[0].endswith("Result") for x in r.a[1:]):
            for v in (1, 0):
                s2 = s.copy()
                if s2.assume(r.a[0], v) and not s2.refuted():
                    out += split([(s2, r.a[1] if v else r.a[2])])
        else:
            out.append((s, r))
    return out


def image_items(r):
    """written items of an Ok(vec) result"""
    if r.op == "adt" and r.a[0].endswith("Result"):
        if r.a[1] != 0:
            return "err"
        v = r.a[2][0]
        if v.op == "coll":
            return v.a[1]
        if v.op == "adt" and len(v.a[2]) and v.a[2][0].op == "coll":
            return v.a[2][0].a[1]
    return None


def scan(rep, eng, ob, scen, fn, tries=24, where=WHERE):
    """interpret a scenario and run the obligations on every resulting summary"""
    try:
        sc = scen()
        out = sc.run(rep)
    except (Unsupported, Budget) as e:
        rep.und(ob, repr(e)[:160])
        return None
    ck = Checker(rep, eng, where)
    got = False
    for k, (s, items) in enumerate(out):
        if items is None:
            rep.und(ob, "result not resolved")
            continue
        if items == "err":
            continue
        got = True
        ck.run(ob, items, s, lambda img, o: fn(sc, img, o), segs=sc.segs, tries=tries)
    if not got:
        rep.und(ob, "no object file on any path: %s" % [(p[0][-1], p[1]) for p in eng.panics[:2]])
    return sc


def emitted(rep, eng, ob, scen, where=WHERE, refuse=None):
    """no admissible artifact of the scenario makes the writer panic or fail"""
    try:
        sc = scen()
        out = sc.run(rep)
    except (Unsupported, Budget) as e:
        rep.und(ob, repr(e)[:160])
        return
    bad = [(p[3], p[4], "panics in %s" % (p[0][-1] if p[0] else "?"), "%s:%s" % (p[0][-1], p[1])) for p in eng.panics]
    bad += [(s.facts, s.disj, "fails with an error", "error") for s, it in out if it == "err"]
    n = 0
    for facts, disj, why, key in bad:
        if huge(facts) or key == "error" and refuse is not None and refuse(sc, facts, disj):
            continue
        n += 1
        if eng.notes:
            rep.und(ob + "/emitted", why + " (not fully interpreted)")
            continue
        m = satisfiable(eng, facts, disj, sc.segs)
        if m is None:
            rep.und(ob + "/emitted", why + " on a path that was not shown impossible: " + key)
        else:
            rep.bad(ob + "/emitted", "emission %s on a valid artifact (for example with %s)" % (why, describe(m)), where)
    if not any(it not in (None, "err") for s, it in out) and not n:
        rep.und(ob + "/emitted", "no object file")
    elif not n:
        rep.ok(ob + "/emitted", "%d result paths, %d panic sites refuted" % (len(out), len(eng.panics)))


def byvariant(eng, val, path, table, field):
    """expected value of an attribute as a table over the variants of a declaration field"""
    for i in eng.pathty.get(path, []):
        vs = eng.types[i].get("variants")
        if vs:
            out = None
            for j, v in reversed(list(enumerate(vs))):
                if v["n"] not in table:
                    raise Anchor("variant %s::%s" % (path, v["n"]))
                e = I(table[v["n"]])
                out = e if out is None else t.ite(t.eq(I(t.VARIANT_DISCR[0](path, j)), discr(val)), e, out)
            return out
    raise Anchor(path)


def attr(eng, F, name):
    """attribute of a focus definition's declaration, by field name"""
    d = F["decl"]
    inner = d.a[2][0]
    for i in eng.pathty.get(inner.a[0], []):
        vs = eng.types[i].get("variants")
        if vs:
            for j, f in enumerate(vs[0]["f"]):
                if f["n"] == name:
                    return inner.a[2][j], f["t"]
    raise Anchor("attribute %s" % name)


def vis(eng, F):
    v, ti = attr(eng, F, "visibility")
    return byvariant(eng, v, eng.types[ti]["path"], STV, "visibility")


def size_of(F):
    d = F["data"]
    return t.length(d.a[2][0]) if CLASSES[F["cls"]][1] == "Blob" else d.a[2][0]


def kind(F):
    return CLASSES[F["cls"]][0]


def fix(F, k):
    return CLASSES[F["cls"]][2].get(k)


# ---------------------------------------------------------------- the section of a focus definition
def secname(F):
    k = kind(F)
    if k == "Func":
        return t.cat(S(".text."), F["name"])
    if k == "Sect":
        return F["name"]
    if CLASSES[F["cls"]][1] == "ZeroInit":
        return t.cat(S(".bss."), F["name"])
    return t.cat(S(".data." if fix(F, "writable") else ".rodata."), F["name"])


def find_section(e, F):
    """(index, fields) of the one section named after a focus definition"""
    img = e.img
    want = img.ev(secname(F))
    hit, sure = [], True
    for idx, f, ch, x in e.secs:
        if ch:
            continue
        try:
            s = e.secname(f)
        except Miss as m:
            sure = sure and m.definite
            continue
        if s is want:
            hit.append((idx, f))
    if len(hit) == 1:
        return hit[0]
    raise Miss("%d sections named after %s" % (len(hit), F["cls"]), img.model is not None and sure or len(hit) > 1 and img.model is not None)


def section_by_symbol(e, F):
    """(index, fields) of the section that holds a focus function or data object: where its symbol points"""
    idx, f, x = e.one_symbol(F["name"], F["cls"])
    img = e.img
    if img.model is not None:
        i = e.section_of(f, x, F["cls"])
        try:
            return i, e.section(i)
        except Miss as m:
            if m.definite:
                raise
        # the index falls among the sections of other definitions
        j = find_section(e, F)[0]
        raise Miss("the symbol of %s refers to section %s, its section is %s" % (F["cls"], t.show(i), t.show(j)), img.eq(i, j) is False)
    # symbolic: the section header whose index the symbol carries
    for i, g, ch, y in e.secs:
        if not ch and e.check_shndx(f, x, i, F["cls"]) is True:
            return i, g
    raise Miss("section of %s not resolved" % F["cls"])


def section_for(e, F):
    return find_section(e, F) if kind(F) == "Sect" else section_by_symbol(e, F)


# ---------------------------------------------------------------- obligations
def ob_symbols(sc, img, ob):
    e = Elf(img)
    eng = sc.eng
    for tag, F in sc.foci:
        n = "%s" % F["cls"]
        if kind(F) == "Sect":
            continue
        try:
            idx, f, x = e.one_symbol(F["name"], F["cls"])
        except Miss as m:
            ob(n + "/symbol", False if m.definite else None, str(m))
            continue
        ob(n + "/symbol", True)
        info = STT[kind(F)] | STB[fix(F, "Scope")] << 4
        ob(n + "/type-and-binding", img.eq(f["st_info"], I(info)), "st_info of %s is %s, expected %d" % (n, t.show(f["st_info"])[:40], info))
        ob(n + "/visibility", img.eq(f["st_other"], vis(eng, F)), "st_other of %s is not the declared visibility" % n)
        ob(n + "/size", img.eq(f["st_size"], size_of(F)), "st_size of %s is %s" % (n, t.show(img.ev(f["st_size"]))[:60]))
        ob(n + "/value", img.eq(f["st_value"], ZERO), "st_value of %s is not 0" % n)
        ob(n + "/section", lambda: sect_of_symbol(e, F, f, x), "%s's symbol refers to another section" % n)
    for tag in ("IF", "ID"):
        F = sc.b.focus[tag]
        n = F["cls"]
        try:
            idx, f, x = e.one_symbol(F["name"], n)
        except Miss as m:
            ob(n + "/symbol", False if m.definite else None, str(m))
            continue
        ob(n + "/symbol", True)
        ob(n + "/global", img.eq(f["st_info"], I(0x10)), "st_info of an import is %s" % t.show(f["st_info"])[:40])
        ob(n + "/undefined", img.eq(f["st_shndx"], ZERO), "an import is not undefined")
        ob(n + "/zero", img.eq(t.add(f["st_value"], f["st_size"]), ZERO), "an import has a value or size")
    # the null symbol and the file symbol
    try:
        f0 = img.fields(img.flat[e.symbol_at(ZERO, "null")][0])
        ob("null-symbol", all3(img.eq(f0[k], ZERO) for k in ("st_name", "st_info", "st_other", "st_shndx", "st_size", "st_value")), "first symbol is not null")
        f1 = [img.fields(x) for x, ch in e.syms if not ch and img.fields(x)["st_info"] is I(4)]
        if len(f1) == 1:
            ob("file-symbol", lambda: tri_and(same(e.symname(f1[0]), img.ev(artname(sc))), img.eq(f1[0]["st_shndx"], I(0xfff1))), "file symbol does not carry the artifact's name")
        else:
            ob("file-symbol", False if img.model is not None else None, "%d file symbols" % len(f1))
    except Miss as m:
        ob("null-symbol", False if m.definite else None, str(m))


def artname(sc):
    return sc.b.art.a[2][sc.b.L.role["name"]]


def same(a, b):
    if a is None:
        return False
    return strip(a) is strip(b)


def all3(it):
    r = True
    for v in it:
        if v is False:
            return False
        if v is None:
            r = None
    return r


def tri_and(*vs):
    return all3(vs)


def sect_of_symbol(e, F, f, x):
    """the symbol's section is the one that holds the definition's contents (identified by its name)"""
    i, g = find_section(e, F)
    return e.check_shndx(f, x, i, F["cls"])


def ob_custom_symbols(sc, img, ob):
    """symbols placed inside custom sections"""
    e = Elf(img)
    for tag, F in sc.foci:
        if kind(F) != "Sect":
            continue
        n = F["cls"]
        seg = mk("many", F["symbols"])
        i, g = find_section(e, F)
        found = 0
        if img.model is None:
            for x, ch in e.syms:
                if len(ch) != 1 or t.LOOPS[ch[0][0]].source is not seg:
                    continue
                found += 1
                f = img.fields(x)
                L = ch[0][0]
                el = mk("el", seg, L)
                ob(n + "/symbol-info", img.eq(f["st_info"], ZERO), "symbol in %s has type or binding" % n)
                ob(n + "/symbol-value", img.eq(f["st_value"], valof(sc, el)), "symbol in %s has value %s" % (n, t.show(f["st_value"])[:60]))
                ob(n + "/symbol-section", e.check_shndx(f, x, i, n), "symbol in %s refers to another section" % n)
                ob(n + "/symbol-name", name_in_pop(e, f, seg, L, nameof(sc, el)), "symbol in %s has another name" % n)
            ob(n + "/symbol-count", True if found == 1 else None, "%d symbol runs for the symbols of %s" % (found, n))
        else:
            want = img.model.popsize(seg)
            for k in range(want if want <= 64 else 0):
                el = mk("el", seg, I(k))
                nm, v = img.ev(strip(nameof(sc, el))), img.ev(valof(sc, el))
                hit = [(f, x) for x, ch in e.syms for f in [img.fields(x)] if named(e, f, nm)]
                ob(n + "/symbol-count", len(hit) == 1, "%d symbols for a symbol of %s" % (len(hit), n))
                for f, x in hit[:1]:
                    ob(n + "/symbol-info", img.eq(f["st_info"], ZERO), "symbol in %s has type or binding" % n)
                    ob(n + "/symbol-value", img.eq(f["st_value"], v), "symbol in %s has value %s, expected %s" % (n, t.show(f["st_value"]), t.show(v)))
                    ob(n + "/symbol-section", e.check_shndx(f, x, i, n), "symbol in %s refers to another section" % n)


def named(e, f, nm):
    try:
        return strip(e.symname(f)) is nm
    except Miss:
        return False


def nameof(sc, el):
    return symparts(sc, el)[0]


def valof(sc, el):
    return symparts(sc, el)[1]


def symparts(sc, el):
    """name and offset of an element of a custom section's symbol map"""
    kt = sc.eng.M.ELTY[el.a[0]]
    return fld(el, 0, 0), fld(el, 0, 1)


def name_in_pop(e, f, seg, L, nm):
    """does the name offset of a population's symbol stand at the string written for the same element?"""
    img = e.img
    pos = t.add(e.str["sh_offset"], f["st_name"])
    for k, (x, ch) in enumerate(img.flat):
        if x.op == "w" and x.a[1] == "bytes" and len(ch) == 1 and t.LOOPS[ch[0][0]].source is seg:
            L1 = ch[0][0]
            if t.rename(strip(x.a[2]), L1, L) is strip(nm) and img.eq(t.rename(x.a[0], L1, L), pos) is True:
                y, ch2 = img.flat[k + 1]
                if ch2 == ch and y.a[1] == "u8" and y.a[2] is ZERO:
                    return True
    return None


def ob_sections(sc, img, ob):
    e = Elf(img)
    eng = sc.eng
    for tag, F in sc.foci:
        n = F["cls"]
        try:
            i, g = section_for(e, F)
        except Miss as m:
            ob(n + "/section", False if m.definite else None, str(m))
            continue
        ob(n + "/section", True)
        zero = CLASSES[n][1] == "ZeroInit"
        ob(n + "/name", lambda: same(e.secname(g), img.ev(secname(F))), "section of %s has another name" % n)
        ty = SHT["NOBITS"] if zero else SHT["PROGBITS"]
        ob(n + "/type", img.eq(g["sh_type"], I(ty)), "section of %s has type %s" % (n, t.show(g["sh_type"])[:30]))
        isstr = fix(F, "DataType") == "String" and not zero
        if kind(F) == "Func":
            fl = 6
        elif kind(F) == "Data":
            fl = 2 | (1 if fix(F, "writable") or zero else 0)
        else:
            fl = {"Debug": 0, "Data": 3, "Text": 2}[fix(F, "SectionKind")]
        if isstr:
            fl |= 0x30
        elif kind(F) == "Sect":
            # sections of these names hold strings whatever they are declared as
            fl = t.ite(t.eq(F["name"], S(".debug_str")), I(fl | 0x30), t.ite(t.eq(F["name"], S(".debug_line_str")), I(fl | 0x30), I(fl)))
        fl = fl if not isinstance(fl, int) else I(fl)
        if kind(F) == "Sect" and fix(F, "SectionKind") == "Data":
            ob(n + "/loaded", img.eq(t.mod(g["sh_flags"], I(4)), I(3)), "section of %s is not loaded as writable data (flags %s)" % (n, t.show(g["sh_flags"])[:30]))
            ob(n + "/flags", img.eq(t.sub(g["sh_flags"], t.mod(g["sh_flags"], I(4))), t.sub(fl, I(3))), "section of %s has flags %s" % (n, t.show(g["sh_flags"])[:30]))
        elif kind(F) == "Sect" and fix(F, "SectionKind") == "Text":
            wx = t.band(g["sh_flags"], I(7))
            ob(n + "/flags", tri_and(img.eq(t.sub(g["sh_flags"], wx), t.sub(fl, I(2))), img.eq(t.band(g["sh_flags"], I(1)), ZERO)), "section of %s has flags %s" % (n, t.show(g["sh_flags"])[:30]))
            ob(n + "/allocated", img.truth(t.not_(t.eq(t.mod(t.div(g["sh_flags"], I(2)), I(2)), ZERO))), "section of %s is not allocated (flags %s)" % (n, t.show(g["sh_flags"])[:30]))
        else:
            ob(n + "/flags", img.eq(g["sh_flags"], fl), "section of %s has flags %s, expected %s" % (n, t.show(g["sh_flags"])[:30], t.show(img.ev(fl))[:60]))
        al, ti = attr(eng, F, "align")
        default = 16 if kind(F) == "Func" else 8 if kind(F) == "Data" and fix(F, "writable") else 1
        want = t.ite(t.eq(discr(al), ONE), fld(al, 1, 0), I(default))
        ob(n + "/alignment", img.eq(g["sh_addralign"], want), "section of %s has alignment %s" % (n, t.show(g["sh_addralign"])[:60]))
        ob(n + "/address", img.eq(t.add(g["sh_addr"], t.add(g["sh_link"], g["sh_info"])), ZERO), "section of %s has an address, link or info" % n)


def ob_contents(sc, img, ob):
    e = Elf(img)
    for tag, F in sc.foci:
        n = F["cls"]
        try:
            i, g = section_for(e, F)
        except Miss as m:
            ob(n + "/section", False if m.definite else None, str(m))
            continue
        ob(n + "/size", img.eq(g["sh_size"], size_of(F)), "section of %s has size %s" % (n, t.show(img.ev(g["sh_size"]))[:60]))
        if CLASSES[n][1] == "Blob":
            ob(n + "/bytes", lambda: blob_at(img, g["sh_offset"], F), "section of %s does not hold its bytes" % n)
        else:
            ob(n + "/no-bytes", not any(strip(x.a[2]) is F["data"].a[2][0] for x, ch in img.flat if x.op == "w" and x.a[1] == "bytes"), "zero-initialised %s takes file space" % n)


def blob_at(img, off, F):
    want = strip(img.ev(F["data"].a[2][0]))
    k = img.at(off, None, "contents of " + F["cls"])
    for k in [k] + [j for j in img.bypos.get(img.ev(off), ())]:
        if strip(img.flat[k][0].a[2]) is want:
            return True
    return False if img.model is not None else None


def ob_order(sc, img, ob):
    """local symbols come first and sh_info is the index of the first other one"""
    e = Elf(img)
    info = e.symtab["sh_info"]
    n = 0
    for x, ch in e.syms:
        f = img.fields(x)
        st = f["st_info"]
        bind = t.div(st, I(16))
        loc = img.eq(bind, ZERO)
        if loc is None:
            ob("binding-known", None, "binding %s not resolved" % t.show(st)[:60])
            continue
        i = e.symindex(x)
        n += 1
        tag = "local" if loc else "nonlocal"
        if loc:
            ob("local-before-info", before(img, i, ch, info), "a local symbol has an index that is not below sh_info")
        else:
            ob("nonlocal-after-info", img.le(info, i), "a global or weak symbol has an index below sh_info")
    ob("symbols-seen", True if n else None)


def before(img, i, ch, info):
    """i < info for every iteration of the populations in ch"""
    p = img.peak(i, ch)
    return None if p is None else img.le(t.add(p, ONE), info)


def ob_layout(sc, img, ob):
    e = Elf(img)
    h = e.hdr
    ob("header-size", img.eq(h["e_ehsize"], e.hdritem.a[4]), "e_ehsize is not the size of the header")
    ob("shentsize", img.eq(h["e_shentsize"], e.shsize), "e_shentsize is not the size of a section header")
    ob("symentsize", img.eq(e.symtab["sh_entsize"], e.symsize), "sh_entsize of the symbol table is not the size of a symbol")
    # table sizes
    nsym = count(img, "elf.Sym")
    ob("symtab-size", img.eq(e.symtab["sh_size"], t.mul(nsym, e.symsize)) if nsym is not None else None, "size of the symbol table is not that of its symbols")
    first = e.syms[0][0]
    ob("symtab-start", img.eq(first.a[0], e.symtab["sh_offset"]), "symbol table does not start where its section header says")
    ob("shdr-start", img.eq(e.headers[0][0].a[0], e.shoff), "section headers do not start at e_shoff")
    word = e.hdritem.a[4]
    w = 8 if word is I(64) else 4
    ob("symtab-aligned", img.eq(t.mod(e.symtab["sh_offset"], I(w)), ZERO), "symbol table is not aligned")
    ob("shdr-aligned", img.eq(t.mod(e.shoff, I(w)), ZERO), "section headers are not aligned")
    # nothing is overwritten: the writer never seeks backwards
    for x, ch in img.flat:
        if x.op == "sk":
            ob("forward-seeks", img.le(x.a[0], x.a[1]), "the writer seeks back over bytes already written")
    # regions in increasing order
    end = t.add(e.shoff, t.mul(count(img, "elf.SectionHeader") or ZERO, e.shsize))
    regs = [("header", ZERO, e.hdritem.a[4])]
    regs.append(("strings", e.str["sh_offset"], e.str["sh_size"]))
    regs.append(("symbols", e.symtab["sh_offset"], e.symtab["sh_size"]))
    for i, f, ch, x in e.shndx:
        regs.append(("extended indices", f["sh_offset"], f["sh_size"]))
        ob("shndx-size", img.eq(f["sh_size"], t.mul(nsym, I(4))) if nsym is not None else None, "size of the extended section index table is not that of its entries")
        ob("shndx-aligned", img.divides(I(4), f["sh_offset"]), "extended section index table is not aligned")
        ob("shndx-link", img.eq(f["sh_link"], e.symtab_idx), "extended section index table is not linked to the symbol table")
    regs.append(("section headers", e.shoff, t.sub(end, e.shoff)))
    for tag, F in sc.foci:
        if CLASSES[F["cls"]][1] == "Blob":
            try:
                i, g = section_for(e, F)
            except Miss as m:
                ob("regions", False if m.definite else None, str(m))
                continue
            ob("contents-before-tables", tri_and(img.le(e.hdritem.a[4], g["sh_offset"]), img.le(t.add(g["sh_offset"], g["sh_size"]), e.str["sh_offset"])),
               "contents of a definition overlap the file header or the string table")
    for i in range(len(regs) - 1):
        a, b = regs[i], regs[i + 1]
        ob("regions", disjoint(img, a, b), "%s and %s overlap" % (a[0], b[0]))
    # relocation tables
    for i, f, ch, x in e.secs:
        if f["sh_type"] is I(SHT["RELA"]):
            ob("rela-aligned", img.divides(I(w), f["sh_offset"]), "relocations are not aligned")
        if f["sh_type"] is I(SHT["RELA"]) and not ch:
            ob("rela-region", tri_and(disjoint(img, ("symbols", e.symtab["sh_offset"], e.symtab["sh_size"]), ("rela", f["sh_offset"], f["sh_size"])),
                                      disjoint(img, ("rela", f["sh_offset"], f["sh_size"]), ("shdr", e.shoff, t.sub(end, e.shoff)))), "relocations overlap other tables")


def disjoint(img, a, b):
    r = img.le(t.add(a[1], a[2]), b[1])
    if r is True:
        return True
    q = img.le(t.add(b[1], b[2]), a[1])
    if q is True:
        return True
    return False if r is False and q is False else None


def count(img, typ):
    """number of written items of a type"""
    n = ZERO

    def go(items):
        c = ZERO
        for x in items:
            if x.op == "w":
                if x.a[1] == typ:
                    c = t.add(c, ONE)
            elif x.op == "rep":
                L, alts = x.a
                c = t.add(c, t.sumof(L, [go(al) for al in alts]))
        return c
    if img.gaps:
        # parts of long repetitions are left out of the evaluated image: count on the summary
        return img.ev(go(img.raw))
    return go(img.items)


def ob_counts(sc, img, ob):
    e = Elf(img)
    h = e.hdr
    n = count(img, "elf.SectionHeader")
    z = e.section(ZERO, "null")
    if n is not None:
        if img.model is not None:
            want = n if n.a[0] < 0xff00 else ZERO
            ob("e_shnum", img.eq(h["e_shnum"], want), "e_shnum is %s with %s section headers" % (t.show(h["e_shnum"]), t.show(n)))
            ob("null-size", img.eq(z["sh_size"], ZERO if n.a[0] < 0xff00 else n), "size of the null section header is %s with %s section headers" % (t.show(z["sh_size"]), t.show(n)))
        else:
            small = t.lt(n, I(0xff00))
            ob("e_shnum", img.eq(t.trunc(h["e_shnum"], 16) if h["e_shnum"].op == "lin" else h["e_shnum"], t.ite(small, t.trunc(n, 16) if n.op == "lin" else n, ZERO)), "e_shnum is not the number of section headers")
            ob("null-size", img.eq(z["sh_size"], t.ite(small, ZERO, n)), "size of the null section header is not the number of section headers")
    ob("null-header", all3(img.eq(z[k], ZERO) for k in ("sh_name", "sh_type", "sh_flags", "sh_addr", "sh_offset")), "first section header is not null")
    ob("shstrndx", img.eq(e.shstr["sh_type"], I(SHT["STRTAB"])), "e_shstrndx does not name a string table")
    ob("symtab-strings", img.eq(e.str["sh_type"], I(SHT["STRTAB"])), "the symbol table is not linked to a string table")
    last = None
    # extended section indices are available whenever an index does not fit
    if img.model is not None and n is not None and n.a[0] >= 0xff00 + 16:
        ob("extended-table", len(e.shndx) == 1, "%d extended section index tables with %s sections" % (len(e.shndx), t.show(n)))
    # one section symbol per content section, in the same order
    for tag, F in sc.foci:
        try:
            i, g = section_for(e, F)
        except Miss as m:
            ob("section-symbol", False if m.definite else None, str(m))
            continue
        hits = []
        for x, ch in e.syms:
            f = img.fields(x)
            if ch or f["st_info"] is not I(3):
                continue
            if e.check_shndx(f, x, i, "section symbol") is True:
                hits.append(f)
        ob(F["cls"] + "/section-symbol", True if len(hits) == 1 else (False if img.model is not None else None), "%d section symbols for the section of %s" % (len(hits), F["cls"]))


def ob_strings(sc, img, ob):
    e = Elf(img)
    for what, tab in (("section name table", e.shstr), ("symbol name table", e.str)):
        k = img.at(tab["sh_offset"], ("u8", "bytes"), what)
        ob("leading-nul", img.flat[k][0].a[1] == "u8" and img.flat[k][0].a[2] is ZERO, "string table does not start with a NUL")
    for x, ch in e.syms:
        if ch:
            continue
        f = img.fields(x)
        ob("symbol-names", lambda: in_table(e, e.str, f["st_name"]), "a symbol name is not a terminated string inside the string table")
    for i, f, ch, x in e.secs:
        if ch:
            continue
        ob("section-names", lambda: in_table(e, e.shstr, f["sh_name"]), "a section name is not a terminated string inside the string table")
    for i, f, ch, x in e.secs:
        if ch:
            continue
        want = {SHT["STRTAB"]: ".strtab", SHT["SYMTAB"]: ".symtab", SHT["SHNDX"]: ".symtab_shndx"}.get(f["sh_type"].a[0] if f["sh_type"].op == "int" else None)
        if want:
            ob("table-names", lambda: same(e.secname(f), S(want)), "table section is not named %s" % want)
        if f["sh_type"] is I(SHT["RELA"]):
            def rel():
                tgt = e.section(f["sh_info"], "relocated")
                return same(e.secname(f), t.cat(S(".rela"), e.secname(tgt)))
            ob("rela-names", rel, "relocation section is not named after the section it applies to")
    # names of population symbols
    if img.model is None:
        for x, ch in e.syms:
            if len(ch) == 1:
                f = img.fields(x)
                if img.eq(f["st_name"], ZERO) is True:
                    continue
                ob("population-names", pop_name(e, f["st_name"], ch), "a symbol name offset does not stand at its string")
    else:
        for x, ch in e.syms:
            f = img.fields(x)
            if not (f["st_name"] is ZERO):
                ob("population-names", lambda: in_table(e, e.str, f["st_name"]), "a symbol name offset does not stand at a string")
        for i, f, ch, x in e.secs:
            ob("section-names", lambda: in_table(e, e.shstr, f["sh_name"]), "a section name is not a terminated string inside the string table")


def in_table(e, tab, off):
    img = e.img
    s = e.string(tab, off)
    if s is None:
        return False if img.model is not None else None
    end = t.add(off, t.add(t.length(s), ONE))
    return img.le(end, tab["sh_size"])


def pop_name(e, off, ch):
    """a population symbol's name offset stands at a string written for the same element"""
    img = e.img
    L, alt = ch[0]
    src = t.LOOPS[L].source
    pos = t.add(e.str["sh_offset"], off)
    for k, (x, c2) in enumerate(img.flat):
        if x.op == "w" and x.a[1] == "bytes" and len(c2) == 1 and t.LOOPS[c2[0][0]].source is src and (c2[0][1] == alt or True):
            if img.eq(t.rename(x.a[0], c2[0][0], L), pos) is True:
                y, c3 = img.flat[k + 1]
                if c3 == c2 and y.a[1] == "u8" and y.a[2] is ZERO:
                    return True
    return None


# ---------------------------------------------------------------- relocations
def resolves(e, F, r_sym):
    """does a relocation's symbol index denote the target?  imports and weak definitions: by their own symbol; other
    definitions: by their own symbol, or by the symbol of the section that starts with them"""
    img = e.img
    k = e.symbol_at(r_sym, "of a relocation")
    x, ch = img.flat[k]
    if ch:
        return None
    f = img.fields(x)
    own = None
    if "data" not in F or kind(F) != "Sect":
        idx, g, y = e.one_symbol(F["name"], F["cls"])
        own = img.eq(r_sym, idx)
        if own is True or "data" not in F or fix(F, "Scope") == "Weak":
            return own
    st = img.eq(f["st_info"], I(3))
    if st is not True:
        return own if st is None else False
    i, g = section_for(e, F)
    return tri_and(e.check_shndx(f, x, i, "section symbol"), img.eq(f["st_value"], ZERO))


def ob_relocs(sc, img, ob):
    """every link is exactly one relocation, in the section of its origin, at its offset, against its target"""
    e = Elf(img)
    items = img.typed("elf.Reloc")
    relas = [(i, f) for i, f, ch, x in e.secs if f["sh_type"] is I(SHT["RELA"]) and not ch]
    rsize = items[0][0].a[4] if items else None
    froms = []
    for l in sc.links + sc.poplinks:
        if l["frm"] not in froms:
            froms.append(l["frm"])
    ob("sections", len(relas) == len(froms) if (img.model is not None or not any(ch for i, f, ch, x in e.secs if f["sh_type"] is I(SHT["RELA"]))) else None,
       "%d relocation sections for links from %d definitions" % (len(relas), len(froms)))
    n = count(img, "elf.Reloc")
    want = I(len(sc.links))
    for l in sc.poplinks:
        want = t.add(want, t.length(l["seg"].a[0]))
    ob("count", img.eq(n, want) if n is not None else None, "the number of relocations is not the number of links")
    tot = ZERO
    for i, f in relas:
        ob("rela-link", img.eq(f["sh_link"], e.symtab_idx), "relocation section is not linked to the symbol table")
        ob("rela-entsize", img.eq(f["sh_entsize"], rsize), "sh_entsize of a relocation section is not the size of an entry")
        tot = t.add(tot, f["sh_size"])
    ob("rela-size", img.eq(tot, t.mul(n, rsize)) if n is not None and rsize is not None else None, "sizes of the relocation sections do not add up to the relocations")

    def home(x, ch):
        """relocation section that contains an entry"""
        p = img.peak(x.a[0], ch)
        if p is None:
            raise Miss("relocation population not resolved")
        sure = True
        for i, f in relas:
            a = img.le(f["sh_offset"], x.a[0])
            b = img.le(t.add(p, x.a[4]), t.add(f["sh_offset"], f["sh_size"]))
            if a is True and b is True:
                return f
            sure = sure and (a is False or b is False)
        raise Miss("a relocation lies in no relocation section", sure and img.model is not None)

    def entries(l):
        """relocation entries of a link (or of a population of links)"""
        if "seg" not in l:
            at = img.ev(l["at"])
            if img.model is None:
                return [(x, ch, l["at"], None) for x, ch in items if not ch and img.fields(x)["r_offset"] is l["at"]]
            return None if at in dup else [(x, ch, at, None) for x, ch in items if img.fields(x)["r_offset"] is at]
        seg = l["seg"]
        if img.model is None:
            return [(x, ch, img.eng.elmk[seg](mk("el", seg, ch[0][0])), 1) for x, ch in items if len(ch) == 1 and t.LOOPS[ch[0][0]].source is seg]
        out = []
        m = img.model.popsize(seg)
        for k in (range(m) if m <= 64 else (0, 1, m - 2, m - 1)):
            v = img.ev(img.eng.elmk[seg](mk("el", seg, I(k))))
            at = img.ev(sc.b.linkparts(v)[0])
            if at not in dup:
                out += [(x, ch, v, 1) for x, ch in items if img.fields(x)["r_offset"] is at]
        return out

    dup = dups(ats(sc, img)) if img.model is not None else ()
    for j, l in enumerate(sc.links + sc.poplinks):
        FR, TO = sc.b.focus[l["frm"]], sc.b.focus[l["to"]]
        tag = "%s->%s/%s" % (FR["cls"], TO["cls"], l["kind"].split(":")[0]) + ("" if "seg" not in l else "/many")
        es = entries(l)
        if es is None:
            continue
        if "seg" not in l or img.model is None:
            ob(tag + "/relocation", True if len(es) == 1 else (False if img.model is not None else None), "%d relocations at the offset of a link" % len(es))
        for x, ch, v, m in es:
            f = img.fields(x)
            if m:
                at, rl = sc.b.linkparts(v)
                ob(tag + "/offset", img.eq(f["r_offset"], at), "relocation at another offset")
            ob(tag + "/symbol", lambda: resolves(e, TO, f["r_sym"]), "relocation refers to another symbol")
            ob(tag + "/section", lambda: img.eq(home(x, ch)["sh_info"], section_for(e, FR)[0]), "relocation applies to another section")


def dups(xs):
    """values that occur more than once: links at one offset cannot be told apart by it"""
    seen, d = set(), set()
    for x in xs:
        (d if x in seen else seen).add(x)
    return d


def ats(sc, img):
    out = [img.ev(l["at"]) for l in sc.links]
    for l in sc.poplinks:
        n = img.model.popsize(l["seg"])
        for k in (range(n) if n <= 64 else (0, 1, n - 2, n - 1)):
            out.append(img.ev(sc.b.linkparts(img.eng.elmk[l["seg"]](mk("el", l["seg"], I(k))))[0]))
    return out


# x86-64: (kind of origin, kind of target) -> (type, addend)
R64 = dict(PC32=2, PLT32=4, GOTPCREL=9, ABS64=1, ABS32=10)


def auto(sc, frm, to):
    FR, TO = sc.b.focus[frm], sc.b.focus[to]
    if kind(FR) == "Data" if "data" in FR else False:
        return R64["ABS64"], 0
    if TO["cls"].startswith("import"):
        return (R64["PLT32"] if TO["cls"] == "import.F" else R64["GOTPCREL"]), -4
    return (R64["PLT32"] if kind(TO) == "Func" else R64["PC32"]), -4


def ob_types(sc, img, ob):
    """relocation type and addend of every link (x86-64)"""
    e = Elf(img)
    items = img.typed("elf.Reloc")
    dup = dups(ats(sc, img)) if img.model is not None else ()
    for l in sc.links:
        FR, TO = sc.b.focus[l["frm"]], sc.b.focus[l["to"]]
        tag = "%s->%s/%s" % (FR["cls"], TO["cls"], l["kind"])
        at = img.ev(l["at"]) if img.model is not None else l["at"]
        if at in dup:
            continue
        es = [img.fields(x) for x, ch in items if not ch and img.fields(x)["r_offset"] is at]
        if len(es) != 1:
            ob(tag + "/relocation", False if img.model is not None else None, "%d relocations at the offset of a link" % len(es))
            continue
        f = es[0]
        ad = f["r_addend"]
        some = ad.op == "adt" and ad.a[1] == 1
        ob(tag + "/explicit-addend", True if some else (False if ad.op == "adt" else None), "relocation has no addend")
        if not some:
            continue
        ad = ad.a[2][0]
        k = l["kind"].split(":")[0]
        if k == "Auto":
            ty, av = auto(sc, l["frm"], l["to"])
            ty, av = I(ty), I(av)
        elif k == "Raw":
            ty, av = relocfield(sc, l, "reloc"), relocfield(sc, l, "addend")
        else:
            ty = I({4: R64["ABS32"], 8: R64["ABS64"]}[int(l["kind"].split(":")[1])])
            av = relocfield(sc, l, "addend")
        ob(tag + "/type", img.eq(f["r_type"], ty), "relocation type is %s, expected %s" % (t.show(f["r_type"])[:40], t.show(ty)[:20]))
        ob(tag + "/addend", img.eq(ad, av), "addend is %s, expected %s" % (t.show(ad)[:40], t.show(av)[:20]))


def relocfield(sc, l, name):
    rty = next(i for i in sc.eng.pathty[RELOC] if sc.eng.types[i].get("variants"))
    v = sc.eng.types[rty]["variants"][l["reloc"].a[1]]
    for j, f in enumerate(v["f"]):
        if f["n"] == name:
            return l["reloc"].a[2][j]
    raise Anchor("relocation field %s" % name)


# ---------------------------------------------------------------- target identity
# architecture -> (e_machine, class, data encoding), from the ELF registry and the processor supplements
MACHINES = {
    "X86_64": (62, 2, 1), "X86_32": (3, 1, 1), "Aarch64(Aarch64)": (183, 2, 1), "Aarch64(Aarch64be)": (183, 2, 2),
    "Mips32(Mips)": (8, 1, 2), "Mips32(Mipsel)": (8, 1, 1), "Mips32(MipsIsa32r6)": (8, 1, 2), "Mips32(MipsIsa32r6el)": (8, 1, 1),
    "Mips64(Mips64)": (8, 2, 2), "Mips64(Mips64el)": (8, 2, 1), "Mips64(MipsIsa64r6)": (8, 2, 2), "Mips64(MipsIsa64r6el)": (8, 2, 1),
    "Powerpc": (20, 1, 2), "Powerpc64": (21, 2, 2), "Powerpc64le": (21, 2, 1), "Riscv32": (243, 1, 1), "Riscv64": (243, 2, 1),
    "S390x": (22, 2, 2), "Sparc": (2, 1, 2), "Sparc64": (43, 2, 2), "Sparcv9": (43, 2, 2), "Arm": (40, 1, None),
}


def arches(eng):
    """(name, expected) for every architecture of the target description that the table knows, one per sub-architecture"""
    path = next(p for p in eng.pathty if p.endswith("::Architecture") or p == "Architecture")
    ty = eng.types[next(i for i in eng.pathty[path] if eng.types[i].get("variants"))]
    for v in ty["variants"]:
        subs = [None]
        if v["f"]:
            sv = eng.types[v["f"][0]["t"]].get("variants")
            subs = [x["n"] for x in sv] if sv else []
        for s in subs:
            n = v["n"] if s is None else "%s(%s)" % (v["n"], s)
            w = MACHINES.get(n) or MACHINES.get(v["n"])
            if w is None:
                continue
            if w[2] is None:
                w = (w[0], w[1], 2 if "eb" in s and not s.startswith("Armv8") else 1)
            yield n, w


def ob_target(sc, img, ob):
    e = Elf(img)
    want = sc.want
    h = e.hdr
    ob("machine", img.eq(h["e_machine"], I(want[0])), "e_machine is %s, expected %d" % (t.show(h["e_machine"])[:30], want[0]))
    ob("class", img.eq(e.ident[4], I(want[1])), "file class is %s, expected %d" % (t.show(e.ident[4])[:30], want[1]))
    ob("encoding", img.eq(e.ident[5], I(want[2])), "data encoding is %s, expected %d" % (t.show(e.ident[5])[:30], want[2]))
    ob("magic", all3(img.eq(e.ident[k], I(b)) for k, b in enumerate(b"\x7fELF")), "wrong magic number")
    ob("relocatable", img.eq(h["e_type"], I(1)), "not a relocatable file")
    ob("version", tri_and(img.eq(h["e_version"], ONE), img.eq(e.ident[6], ONE)), "wrong version")
    bad = None
    n = 0
    for x, ch in img.flat:
        if x.op == "w" and x.a[1].startswith("elf."):
            n += 1
            c, en = ctxof(img.eng, x.a[3])
            if c is None:
                ob("item-context", None, "context of %s not resolved" % x.a[1])
            else:
                ob("item-context", c == (2 if want[1] == 2 else 1) and en == want[2], "%s is not written in the file's class and encoding" % x.a[1])
        elif x.op == "w" and x.a[1] not in ("u8", "i8", "bytes", "zeros") and x.a[2].op != "coll":
            en = byteorder(img.eng, x.a[3])
            ob("scalar-order", None if en is None else en == want[2], "%s is not written in the file's byte order" % x.a[1])
        elif x.op == "w" and x.a[2].op == "coll":
            for y in pwrites(x.a[2].a[2]):
                if y.a[1] in ("u8", "i8"):
                    continue
                en = byteorder(img.eng, y.a[3])
                ob("scalar-order", None if en is None else en == want[2], "%s of a preallocated table is not written in the file's byte order" % y.a[1])


def pwrites(log):
    """scalars stored into a preallocated buffer"""
    for y in log:
        if y.op == "pw":
            yield y
        elif y.op == "rep":
            for al in y.a[1]:
                yield from pwrites(al)


def ctxof(eng, c):
    """(class, encoding) a structure is written with"""
    while c.op == "tup" and c.a[0]:
        c = c.a[0][-1]
    if c.op != "adt" or len(c.a[2]) != 2 or any(y.op != "adt" for y in c.a[2]):
        return None, None
    nm = []
    for y in c.a[2]:
        ty = next(eng.types[i] for i in eng.pathty[y.a[0]] if eng.types[i].get("variants"))
        nm.append(ty["variants"][y.a[1]]["n"])
    return {"Big": 2, "Little": 1}[nm[0]], {"Little": 1, "Big": 2}[nm[1]]


# ---------------------------------------------------------------- properties
def fnlinks(g):
    return [("L0", "IF", "Auto", "l0")] if g[0][0].startswith("fn") else ()


def groups(rep, eng, fn, arch="X86_64", pick=None):
    for k, g in enumerate(GROUPS):
        if pick is not None and k not in pick:
            continue
        scan(rep, eng, "g%d%s" % (k, "" if arch == "X86_64" else "." + arch), lambda: Scen(eng, g[0], g[1], arch=arch, links=fnlinks(g)), fn)


def over(fn, other=("Powerpc",)):
    def p(rep, eng):
        groups(rep, eng, fn)
        for a in other:
            groups(rep, eng, fn, a, (0,) if rep.tier == "quick" else None)
        if rep.tier != "quick":
            for a in ("S390x", "Arm(Arm)"):
                groups(rep, eng, fn, a)
    p.__doc__ = fn.__doc__
    return p


RELSETS = [
    (["fn.local", "data.local", "sect.debug"], ["fn.global", "data.weak", "bss.global"],
     [("L0", "IF", "Auto", "l0"), ("pop", "L0", "ID", "Auto", "p0"), ("L1", "G0", "Auto", "l1"), ("L2", "G1", "Debug:8", "l2"),
      ("pop", "L1", "G1", "Auto", "p1"), ("L0", "G0", "Auto", "l3"), ("L2", "L2", "Debug:4", "l4"), ("L0", "L1", "Raw", "l5")]),
    (["ro.local", "sect.data", "bss.local"], ["fn.weak", "ro.global", "datastr.weak"],
     [("G0", "L2", "Auto", "l0"), ("G0", "G0", "Auto", "l1"), ("L0", "ID", "Auto", "l2"), ("pop", "G0", "IF", "Auto", "p0"),
      ("G2", "L0", "Auto", "l3"), ("L1", "G1", "Raw", "l4"), ("L1", "G0", "Debug:8", "l5"), ("pop", "L1", "L2", "Debug:4", "p1"), ("L0", "L1", "Raw", "l6")]),
    (["fn.local", "rostr.local", "sect.text"], ["fn.global", "fn.weak", "bss.weak"],
     [("G0", "G1", "Auto", "l0"), ("G1", "G0", "Auto", "l1"), ("L0", "L0", "Auto", "l2"), ("L0", "G2", "Auto", "l3"), ("L1", "G2", "Auto", "l4"),
      ("pop", "L1", "L0", "Auto", "p0"), ("G0", "L1", "Auto", "l5"), ("pop", "G0", "G1", "Raw", "p1"), ("L2", "ID", "Raw", "l6"), ("L2", "L0", "Debug:8", "l7")]),
]


def p_relocs(rep, eng):
    for k, (l, g, ls) in enumerate(RELSETS):
        scan(rep, eng, "r%d" % k, lambda: Scen(eng, l, g, links=ls), ob_relocs)
    l, g, ls = RELSETS[0]
    scan(rep, eng, "r0.Powerpc", lambda: Scen(eng, l, g, arch="Powerpc", links=ls), ob_relocs)
    if rep.tier != "quick":
        for a in ("Powerpc", "S390x", "Arm(Arm)"):
            for k, (l, g, ls) in enumerate(RELSETS):
                scan(rep, eng, "r%d.%s" % (k, a), lambda: Scen(eng, l, g, arch=a, links=ls), ob_relocs)


def p_types(rep, eng):
    fr = ["fn.local", "fn.global", "fn.weak", "data.local", "ro.global", "datastr.weak"]
    to = fr + ["bss.global", "robss.local", "rostr.weak"]
    names = {}
    l = [c for c in to + ["sect.debug", "sect.data"] if c.endswith(".local") or c.startswith("sect")]
    g = [c for c in to if not c.endswith(".local")]
    for k, c in enumerate(l):
        names[c] = "L%d" % k
    for k, c in enumerate(g):
        names[c] = "G%d" % k
    n = 0
    links = []
    for a in fr:
        for b in to:
            links.append((names[a], names[b], "Auto", "a%d" % len(links)))
        for b in ("IF", "ID"):
            links.append((names[a], b, "Auto", "a%d" % len(links)))
    for a in ("sect.debug", "sect.data", "fn.local", "data.local"):
        for b in ("fn.global", "data.local", "sect.debug"):
            for kd in ("Raw", "Debug:4", "Debug:8"):
                links.append((names[a], names[b], kd, "a%d" % len(links)))
    for k in range(0, len(links), 50):
        scan(rep, eng, "x86-64", lambda: Scen(eng, l, g, links=links[k:k + 50], pops=False), ob_types)
    # the machine's own absolute pointer relocation, on the other machines
    for a, ty in (("X86_32(I686)", 1), ("Arm(Armv7)", 2), ("Aarch64(Aarch64)", 257)):
        def ob_abs(sc, img, ob):
            es = [img.fields(x) for x, ch in img.typed("elf.Reloc")]
            ob("pointer", img.eq(es[0]["r_type"], I(ty)) if len(es) == 1 else None, "pointer relocation for %s has type %s, expected %d" % (a.split("(")[0], t.show(es[0]["r_type"]) if es else "-", ty))
        scan(rep, eng, a.split("(")[0], lambda: Scen(eng, ["data.local"], ["fn.global"], arch=a, links=[("L0", "G0", "Auto", "l")], pops=False), ob_abs)


def p_target(rep, eng):
    for a, w in arches(eng):
        def mk_():
            sc = Scen(eng, ["fn.local", "data.local"], ["fn.global"], arch=a, links=[("L0", "IF", "Auto", "l")], pops=False)
            sc.want = w
            return sc
        scan(rep, eng, a, mk_, ob_target)
    # with unbounded populations: more structures (extended section indices) come into play
    for a, w in arches(eng):
        if a in ("X86_64", "Powerpc64"):
            def mk_():
                sc = Scen(eng, ["fn.local", "data.local"], ["fn.global"], arch=a, links=[("L0", "IF", "Auto", "l")])
                sc.want = w
                return sc
            scan(rep, eng, "pop." + a, mk_, ob_target)


def p_emitted(rep, eng):
    for k, g in enumerate(GROUPS):
        emitted(rep, eng, "g%d" % k, lambda: Scen(eng, g[0], g[1], links=fnlinks(g)))
    for k, (l, g, ls) in enumerate(RELSETS):
        emitted(rep, eng, "r%d" % k, lambda: Scen(eng, l, g, links=ls))
    l, g, ls = RELSETS[0]
    for a in ("Powerpc",) if rep.tier == "quick" else ("Powerpc", "Arm(Arm)", "S390x"):
        emitted(rep, eng, "r0." + a, lambda: Scen(eng, l, g, arch=a, links=ls))


def p_symbols(rep, eng):
    over(ob_symbols)(rep, eng)
    for k in (0, 1, 2, 3, 4):
        g = GROUPS[k]
        scan(rep, eng, "g%d" % k, lambda: Scen(eng, g[0], g[1], links=fnlinks(g)), ob_custom_symbols)


p_sections = over(ob_sections)
p_contents = over(ob_contents)
p_order = over(ob_order)
p_layout = over(ob_layout)
p_counts = over(ob_counts)
p_strings = over(ob_strings)
