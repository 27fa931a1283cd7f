"""Back ends: the object file writers are interpreted on artifacts made of *populations* (any number of unknown definitions,
imports and links of one class) around a few focus definitions whose file image is then read back abstractly."""
from engine import terms as t
from engine.terms import mk, one, coll, adt, tup, vref, ZERO, ONE, UNIT, I, S, eq, fld, TY, typed
from engine.interp import State, Unsupported, Budget, LoopRec, Alt, DOM
from engine.evalm import LFTY
from .front import *

# class -> (declaration kind, contents, fixed attributes)
CLASSES = {
    "fn.local": ("Func", "Blob", {"Scope": "Local"}),
    "fn.global": ("Func", "Blob", {"Scope": "Global"}),
    "fn.weak": ("Func", "Blob", {"Scope": "Weak"}),
    "sect.data": ("Sect", "Blob", {"SectionKind": "Data", "DataType": "Bytes"}),
    "sect.text": ("Sect", "Blob", {"SectionKind": "Text", "DataType": "Bytes"}),
    "sect.debug": ("Sect", "Blob", {"SectionKind": "Debug", "DataType": "Bytes"}),
    "sect.datastr": ("Sect", "Blob", {"SectionKind": "Data", "DataType": "String"}),
    "sect.textstr": ("Sect", "Blob", {"SectionKind": "Text", "DataType": "String"}),
    "sect.debugstr": ("Sect", "Blob", {"SectionKind": "Debug", "DataType": "String"}),
}
for _w, _n in ((0, "ro"), (1, "data")):
    for _sc in ("local", "global", "weak"):
        for _dt, _m in (("Bytes", ""), ("String", "str")):
            CLASSES["%s%s.%s" % (_n, _m, _sc)] = ("Data", "Blob", {"Scope": _sc.capitalize(), "writable": _w, "DataType": _dt})
            CLASSES["%s%s.%s" % ("bss" if _w else "robss", _m, _sc)] = ("Data", "ZeroInit", {"Scope": _sc.capitalize(), "writable": _w, "DataType": _dt})

ALIGNTY = "core::option::Option<u64>"    # declared alignments: powers of two (asserted by the API)


class Back:
    """one scenario for a back end"""

    def __init__(self, eng):
        eng.reset(sensitive=False)
        eng.nocoll = True
        t.NCLS.clear()
        t.KINDX.clear()
        self.eng = eng
        self.L = Layout(eng)
        self.st = State()
        self.lab = mk("label", eng.sym("STR", self.L.fty("strings")))
        self.segs = {r: [] for r in ("local", "nonlocal", "imports", "links", "decls")}
        self.strseg = mk("many", eng.sym("STRS"))
        eng.M.ELTY.setdefault(self.strseg, ("str", None))
        self.generic = set()
        eng.keyhook = lambda st, seg, key: (False if seg in self.generic else True if seg is self.strseg else None)
        self.strty = eng.type_by_s("str")
        self.focus = {}
        self.place = {}

    # ---------------------------------------------------------------- values
    def fvalue(self, ti, tag, mkleaf, over, depth=4, fname=""):
        """value of a type with structs and chosen enums made concrete; `over` maps enum type name / field name -> variant or value"""
        eng = self.eng
        ty = eng.types[ti]
        short = ty.get("path", "").split("::")[-1]
        if fname in over and isinstance(over[fname], int):
            return I(over[fname])
        if fname in over and isinstance(over[fname], t.T):
            return over[fname]
        if short in over and ty["k"] == "enum":
            for j, v in enumerate(ty["variants"]):
                if v["n"] == over[short]:
                    return adt(ty["path"], j)
            raise Anchor("%s::%s" % (short, over[short]))
        if ty["k"] == "struct" and ty.get("variants") and ty.get("crate") == eng.D["crate"] and depth:
            return adt(ty["path"], 0, *[self.fvalue(f["t"], tag + "." + f["n"], mkleaf, over, depth - 1, f["n"]) for f in ty["variants"][0]["f"]])
        return mkleaf(tag, ti)

    def symleaf(self, tag, ti):
        x = self.eng.sym(tag, ti)
        if self.eng.types[ti]["s"] == ALIGNTY:
            t.POW2.add(fld(x, 1, 0))
        return x

    def popleaf(self, e):
        def f(tag, ti):
            x = mk("lf", e, tag)
            typed(x, ti)
            LFTY[(e.a[0], tag)] = ti
            if self.eng.types[ti]["s"] == ALIGNTY:
                t.POW2TAGS.add(tag)
            self.eng.dom_of(x, ti)
            return x
        return f

    def ddecl(self, kind, tag, mkleaf, over):
        _, k, g = variant(self.eng, DDECL, {"Func": "Function", "Data": "Data", "Sect": "Section"}[kind])
        return adt(DDECL, k, self.fvalue(g[0]["t"], tag, mkleaf, over))

    def idef(self, cls, tag, name, mkleaf, over=None, symbols=None):
        """an internal definition record of class `cls`"""
        eng = self.eng
        kind, data, fix = CLASSES[cls]
        fix = dict(fix, **(over or {}))
        r, fl = self.L.idef_roles()
        _, dj, df = variant(eng, DATA, data)
        vals = [None] * len(fl)
        for i, f in enumerate(fl):
            if i == r["decl"]:
                vals[i] = self.ddecl(kind, tag + ".decl", mkleaf, fix)
            elif i == r["name"]:
                vals[i] = self.id(name)
            elif i == r["data"]:
                vals[i] = adt(DATA, dj, mkleaf(tag + ".data", df[0]["t"]))
            elif i == r["symbols"]:
                if symbols is not None:
                    vals[i] = symbols
                elif kind == "Sect" and mkleaf == self.symleaf:
                    vals[i] = mkleaf(tag + ".symbols", f["t"])
                else:
                    vals[i] = coll(eng.M.ckind(eng, f["t"])[0])
            else:
                raise Anchor("unknown field %s in a definition record" % f["n"])
        return adt(eng.types[self.L.idef]["path"], 0, *vals)

    def id(self, s):
        return t.intid(self.lab, s)

    def nm(self, tag):
        return self.eng.sym(tag, self.strty)

    # ---------------------------------------------------------------- contents
    def listof(self, cls):
        """which definition list records of this class are kept in (decided by the front end's own code)"""
        return placement(self.eng)[cls]

    def pop(self, cls, tag):
        """any number of definitions of class cls"""
        seg = mk("many", self.eng.sym("POP." + tag))
        self.eng.M.ELTY.setdefault(seg, ("seq", self.L.idef))

        def mkel(e):
            nm = typed(mk("name", e), self.strty)
            return self.idef(cls, tag, nm, self.popleaf(e))
        self.eng.elmk[seg] = mkel
        self.segs[self.listof(cls)].append(seg)
        return seg

    def popmix(self, classes, tag):
        """any number of definitions, each of any of the classes (all kept in the same list), in any order"""
        eng = self.eng
        seg = mk("many", eng.sym("POP." + tag))
        L = eng.newL()
        rec = LoopRec(L)
        rec.where, rec.entry = ("population", 0), self.st
        rec.source, rec.n = seg, t.length(seg.a[0])
        e = mk("el", seg, L)
        c = mk("cls", e)
        DOM[c] = tuple(range(len(classes)))
        t.NCLS[seg] = len(classes)
        alts = []
        for k, cls in enumerate(classes):
            st = self.st.copy()
            st.facts[c] = ("eq", k)
            rec.alts.append(Alt({c: ("eq", k)}, st))
            alts.append((one(self.idef(cls, tag, typed(mk("name", e), self.strty), self.popleaf(e))),))
        t.LOOPS[L] = rec
        lists = {self.listof(c) for c in classes}
        if len(lists) != 1:
            raise Anchor("classes of one population kept in different lists")
        self.segs[lists.pop()].append(mk("rep", L, tuple(alts)))
        return seg

    def define(self, cls, tag, over=None, name=None, symbols=None):
        """one focus definition"""
        nm = name if name is not None else self.nm(tag)
        d = self.idef(cls, tag, nm, self.symleaf, over, symbols)
        self.segs[self.listof(cls)].append(one(d))
        r, fl = self.L.idef_roles()
        _, j, _ = variant(self.eng, DECL, "Defined")
        decl = adt(DECL, j, d.a[2][r["decl"]])
        self.segs["decls"].append(one(tup(self.id(nm), self.L.mkidecl(decl, ONE))))
        F = dict(cls=cls, name=nm, decl=d.a[2][r["decl"]], data=d.a[2][r["data"]], symbols=d.a[2][r["symbols"]], rec=d)
        self.focus[tag] = F
        return F

    def imp(self, kind, tag, name=None):
        nm = name if name is not None else self.nm(tag)
        d = mkdecl(self.eng, "Import" + kind, tag)
        self.segs["decls"].append(one(tup(self.id(nm), self.L.mkidecl(d, ZERO))))
        self.segs["imports"].append(one(tup(self.id(nm), d.a[2][0])))
        self.focus[tag] = dict(cls="import." + kind, name=nm, decl=d)
        return self.focus[tag]

    def popimp(self, kind, tag):
        seg = mk("many", self.eng.sym("POPI." + tag))
        self.eng.M.ELTY.setdefault(seg, self.L.impet)
        _, k, _ = variant(self.eng, IKIND, "Function" if kind == "F" else "Data")
        self.eng.elmk[seg] = lambda e: tup(self.id(typed(mk("name", e), self.strty)), adt(IKIND, k))
        self.segs["imports"].append(seg)
        return seg

    def reloc(self, kind, tag, mkleaf):
        eng = self.eng
        rty = next(i for i in eng.pathty[RELOC] if eng.types[i].get("variants"))
        _, j, fs = variant(eng, RELOC, kind.split(":")[0])
        return adt(RELOC, j, *[I(int(kind.split(":")[1])) if (":" in kind and f["n"] == "size") else mkleaf(tag + "." + f["n"], f["t"]) for f in fs])

    def linkval(self, frm, to, kind, tag, mkleaf):
        eng, L = self.eng, self.L
        r, fl = L.link_roles()
        vals = [None] * len(fl)
        for i, f in enumerate(fl):
            if i == r["from"]:
                vals[i] = self.id(self.focus[frm]["name"])
            elif i == r["to"]:
                vals[i] = self.id(self.focus[to]["name"])
            elif i == r["at"]:
                vals[i] = mkleaf(tag + ".at", f["t"])
            elif i == r["reloc"]:
                vals[i] = self.reloc(kind, tag, mkleaf)
            else:
                raise Anchor("unknown field in a link record")
        ty = eng.types[L.linkty]
        return tup(*vals) if ty["k"] == "tuple" else adt(ty["path"], 0, *vals)

    def link(self, frm, to, kind, tag):
        v = self.linkval(frm, to, kind, tag, self.symleaf)
        self.segs["links"].append(one(v))
        r, fl = self.L.link_roles()
        g = (v.a[0] if v.op == "tup" else v.a[2])
        return dict(frm=frm, to=to, at=g[r["at"]], reloc=g[r["reloc"]], kind=kind)

    def linkparts(self, v):
        """(offset, relocation) of a link record"""
        r, fl = self.L.link_roles()
        g = v.a[0] if v.op == "tup" else v.a[2]
        return g[r["at"]], g[r["reloc"]]

    def poplink(self, frm, to, kind, tag):
        seg = mk("many", self.eng.sym("POPL." + tag))
        self.eng.M.ELTY.setdefault(seg, ("seq", self.L.linkty))
        self.eng.elmk[seg] = lambda e: self.linkval(frm, to, kind, tag, self.popleaf(e))
        self.segs["links"].append(seg)
        return seg

    def target(self, arch):
        """a target triple for one architecture ('X86_64', 'Arm(Armebv7r)'); its other parts stay unknown"""
        eng = self.eng
        ti = self.L.fty("target")
        ty = eng.types[ti]
        fs = ty["variants"][0]["f"]
        vals = []
        for f in fs:
            if f["n"] == "architecture":
                a, _, sub = arch.partition("(")
                ap = eng.types[f["t"]]["path"]
                j, vf = vidx(eng, ap, a)
                if sub:
                    sp = eng.types[vf[0]["t"]]["path"]
                    vals.append(adt(ap, j, adt(sp, vidx(eng, sp, sub[:-1])[0])))
                else:
                    vals.append(adt(ap, j))
            elif f["n"] == "environment":
                # the ABI environment does not influence the file format except through the pointer width of x32-like ones
                vals.append(adt(eng.types[f["t"]]["path"], vidx(eng, eng.types[f["t"]]["path"], "Gnu")[0]))
            else:
                vals.append(eng.sym("art.target." + f["n"], f["t"]))
        return adt(ty["path"], 0, *vals)

    def artifact(self, arch="X86_64", **over):
        eng, L = self.eng, self.L
        if arch is not None and "target" not in over:
            over["target"] = self.target(arch)
        kk = lambda r: eng.M.ckind(eng, L.fty(r))[0]
        vals = [eng.sym("art." + f["n"], f["t"]) for f in L.fs]
        R = L.role
        g = mk("many", eng.sym("DECLS"))
        eng.M.ELTY.setdefault(g, eng.M.ckind(eng, L.fty("decls"))[1])
        self.generic.add(g)
        vals[R["decls"]] = coll(kk("decls"), [g] + self.segs["decls"])
        vals[R["imports"]] = coll(L.impk, self.segs["imports"])
        vals[R["links"]] = coll(kk("links"), self.segs["links"])
        vals[R["local"]] = coll(kk("local"), self.segs["local"])
        vals[R["nonlocal"]] = coll(kk("nonlocal"), self.segs["nonlocal"])
        vals[R["strings"]] = coll("interner", [self.strseg], [self.lab])
        for k, v in over.items():
            vals[R[k]] = v
        self.art = adt(ART, 0, *vals)
        self.cell = eng.heap(self.st, self.art)
        return mk("ref", self.cell, ())


def vidx(eng, path, name):
    for i in eng.pathty.get(path, []):
        for j, v in enumerate(eng.types[i].get("variants") or []):
            if v["n"] == name:
                return j, v["f"]
    raise Anchor("%s::%s" % (path, name))


_PL = {}


def placement(eng):
    """definition list used for each class, found by interpreting define() on a fresh artifact"""
    if id(eng.D) in _PL:
        return _PL[id(eng.D)]
    saved = {k: v for k, v in eng.__dict__.items()}
    out = {}
    try:
        key = method(eng, "define_with_symbols")
        for cls, (kind, data, fix) in CLASSES.items():
            sc = Sc(eng)
            b = Back.__new__(Back)
            b.eng, b.L = eng, sc.L
            nm = sc.name()
            _, j, _ = variant(eng, DECL, "Defined")
            dv = adt(DECL, j, b.ddecl(kind, "d", b.symleaf, fix))
            ref = sc.build([(nm, "Func", ZERO, dv)])
            _, dj, df = variant(eng, DATA, data)
            body = eng.body(key)
            smap = coll("bmap")
            for st, r in sc.run(key, [ref, vref(nm), adt(DATA, dj, eng.sym("bytes", df[0]["t"])), smap]):
                if r.op == "adt" and r.a[1] == 0:
                    f = sc.final(st)
                    for role in ("local", "nonlocal"):
                        if any(s.op == "one" for s in sc.role(f, role).a[1]):
                            if out.setdefault(cls, role) != role:
                                raise Anchor("definition list of %s not unique" % cls)
            if cls not in out:
                raise Anchor("definition list of %s not found" % cls)
    finally:
        eng.__dict__.update(saved)
    _PL[id(eng.D)] = out
    return out
