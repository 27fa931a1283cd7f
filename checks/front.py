"""Front end (Artifact): transition-function analysis of declare / define / link / emit from the MIR.

Each public operation is interpreted abstractly on an arbitrary artifact: every collection is an unknown
run of elements plus, when the case split says so, the entry for the name at hand.  The resulting abstract
post-states are compared with the documented transition."""
import itertools

from engine import terms as t
from engine.terms import mk, one, coll, adt, tup, vref, ZERO, ONE, UNIT, I, eq, fld, TY, S
from engine.interp import Engine, State, Unsupported, Budget, SOME, NONE, OK, ERR

ART = "artifact::Artifact"
DECL = "artifact::decl::Decl"
DDECL = "artifact::decl::DefinedDecl"
IKIND = "artifact::decl::ImportKind"
ERRT = "artifact::ArtifactError"
DATA = "artifact::Data"
RELOC = "artifact::Reloc"


class Anchor(Exception):
    pass


def variant(eng, path, name):
    for i in eng.pathty.get(path, []):
        for j, v in enumerate(eng.types[i].get("variants", [])):
            if v["n"] == name:
                return i, j, v["f"]
    raise Anchor("%s::%s not found" % (path, name))


def vname(eng, v):
    """variant name of an adt value"""
    for i in eng.pathty.get(v.a[0], []):
        vs = eng.types[i].get("variants")
        if vs:
            return vs[v.a[1]]["n"]
    return "?"


def contains_type(eng, ti, path, seen=None):
    seen = seen if seen is not None else set()
    if ti in seen:
        return False
    seen.add(ti)
    ty = eng.types[ti]
    if ty.get("path") == path:
        return True
    subs = list(ty.get("args") or [])
    if "inner" in ty:
        subs.append(ty["inner"])
    if ty.get("crate") == eng.D["crate"] or ty["k"] == "tuple":
        for v in ty.get("variants") or []:
            subs += [f["t"] for f in v["f"]]
    return any(contains_type(eng, x, path, seen) for x in subs if isinstance(x, int))


def symval(eng, ti, tag, depth=3):
    """symbolic value of a type with structs expanded"""
    ty = eng.types[ti]
    if ty["k"] == "struct" and ty.get("variants") and ty.get("crate") == eng.D["crate"] and depth > 0:
        return adt(ty["path"], 0, *[symval(eng, f["t"], tag + "." + f["n"], depth - 1) for f in ty["variants"][0]["f"]])
    return eng.sym(tag, ti)


KINDS = ("ImportF", "ImportD", "Func", "Data", "Sect")


def mkdecl(eng, kind, tag):
    if kind.startswith("Import"):
        _, j, f = variant(eng, DECL, "Import")
        _, k, _ = variant(eng, IKIND, "Function" if kind[-1] == "F" else "Data")
        return adt(DECL, j, adt(IKIND, k))
    _, j, f = variant(eng, DECL, "Defined")
    _, k, g = variant(eng, DDECL, {"Func": "Function", "Data": "Data", "Sect": "Section"}[kind])
    return adt(DECL, j, adt(DDECL, k, symval(eng, g[0]["t"], tag)))


def iskind(kind):
    return kind.startswith("Import")


class Layout:
    """where the abstract state lives in struct Artifact"""

    def __init__(self, eng):
        self.eng = eng
        self.ti = eng.type_by_s(ART)
        if self.ti is None:
            raise Anchor("type artifact::Artifact not found")
        ty = eng.types[self.ti]
        self.fs = ty["variants"][0]["f"]
        self.role = {}
        for i, f in enumerate(self.fs):
            p = eng.types[f["t"]].get("path", "")
            if f["n"] in ("name", "target", "is_library") and f["vis"]:
                self.role[f["n"]] = i
            elif "StringInterner" in p:
                self.role["strings"] = i
            elif contains_type(eng, f["t"], DATA):
                self.role["nonlocal" if ("non" in f["n"] or "global" in f["n"]) else "local"] = i
            elif contains_type(eng, f["t"], RELOC):
                self.role["links"] = i
            elif contains_type(eng, f["t"], DECL):
                self.role["decls"] = i
            elif contains_type(eng, f["t"], IKIND):
                self.role["imports"] = i
        need = ["name", "target", "strings", "nonlocal", "local", "links", "decls", "imports"]
        miss = [r for r in need if r not in self.role]
        if miss:
            raise Anchor("Artifact state not recognised: no field for " + ", ".join(miss))
        M = eng.M
        k, et = M.ckind(eng, self.fs[self.role["decls"]]["t"])
        if k not in M.MAPS:
            raise Anchor("declarations are not a map")
        self.idecl = et[2]
        self.keyty = et[1]
        k, et = M.ckind(eng, self.fs[self.role["local"]]["t"])
        self.idef = et[1] if et[0] == "seq" else et[2]
        k, et = M.ckind(eng, self.fs[self.role["links"]]["t"])
        self.linkty = et[1]
        self.impk, self.impet = M.ckind(eng, self.fs[self.role["imports"]]["t"])

    def fty(self, role):
        return self.fs[self.role[role]]["t"]

    def roles_in(self, ti, want):
        """fields of a struct by type: want = {role: predicate(type, fieldname)}"""
        ty = self.eng.types[ti]
        if ty["k"] == "tuple":
            fl = [{"n": str(i), "t": a} for i, a in enumerate(ty["args"])]
        else:
            fl = ty["variants"][0]["f"]
        out = {}
        for r, p in want.items():
            for i, f in enumerate(fl):
                if i not in out.values() and p(self.eng.types[f["t"]], f["n"]):
                    out[r] = i
                    break
            else:
                raise Anchor("no field %s in %s" % (r, ty["s"]))
        return out, fl

    def mkidecl(self, decl, defined):
        r, fl = self.roles_in(self.idecl, {"decl": lambda y, n: y.get("path") == DECL, "defined": lambda y, n: y["k"] == "bool"})
        vals = [None] * len(fl)
        for i, f in enumerate(fl):
            vals[i] = decl if i == r["decl"] else defined if i == r["defined"] else self.eng.sym("idecl." + f["n"], f["t"])
        return adt(self.eng.types[self.idecl]["path"], 0, *vals)

    def idecl_parts(self, v):
        r, fl = self.roles_in(self.idecl, {"decl": lambda y, n: y.get("path") == DECL, "defined": lambda y, n: y["k"] == "bool"})
        g = lambda i: self.eng.fld(v, 0, i, fl[i]["t"])
        return g(r["decl"]), g(r["defined"])

    def idef_roles(self):
        return self.roles_in(self.idef, {
            "decl": lambda y, n: y.get("path") == DDECL, "name": lambda y, n: y["k"] == "int",
            "symbols": lambda y, n: "BTreeMap" in y.get("path", "") or "Map" in y.get("path", ""),
            "data": lambda y, n: y.get("path") == DATA})

    def link_roles(self):
        ty = self.eng.types[self.linkty]
        if ty["k"] == "tuple":
            return self.roles_in(self.linkty, {
                "from": lambda y, n: y["k"] == "int", "to": lambda y, n: y["k"] == "int",
                "at": lambda y, n: y["k"] == "int", "reloc": lambda y, n: y.get("path") == RELOC})
        return self.roles_in(self.linkty, {
            "from": lambda y, n: "from" in n, "to": lambda y, n: "to" in n,
            "at": lambda y, n: y["k"] == "int" and "from" not in n and "to" not in n, "reloc": lambda y, n: y.get("path") == RELOC})


class Sc:
    """a scenario: initial abstract artifact"""

    def __init__(self, eng, sensitive=True):
        eng.reset(sensitive=sensitive)
        self.eng = eng
        self.L = Layout(eng)
        self.st = State()
        self.NAME = {}
        self.present = {}
        self.absentkeys = []
        eng.keyhook = self.keyhook
        eng.isnew = self.isnew
        self.lab = mk("label", eng.sym("STR", self.L.fty("strings")))
        self.gen = set()

    def name(self, tag="NAME"):
        s = self.eng.sym(tag, self.eng.type_by_s("str"))
        self.NAME[tag] = s
        return s

    def id(self, s):
        return t.intid(self.lab, s)

    def keyhook(self, st, seg, key):
        if seg in self.gen:
            return False
        return None

    def isnew(self, st, c, s):
        if s in self.present:
            return ZERO
        return None

    def many(self, tag, et):
        s = mk("many", self.eng.sym(tag))
        self.gen.add(s)
        self.eng.M.ELTY.setdefault(s, et)
        return s

    def build(self, entries):
        """entries: list of (name sym, kind or None, defined flag term).  Names with kind None are undeclared."""
        eng, L = self.eng, self.L
        dsegs, isegs = [], []
        det = eng.M.ckind(eng, L.fty("decls"))[1]
        iet = L.impet
        n = 0
        keys = [self.id(nm) for nm, k, d, dv in entries]
        dsegs.append(self.many("D0", det))
        isegs.append(self.many("I0", iet))
        for nm, kind, defined, dv in entries:
            if kind is None:
                continue
            self.present[nm] = kind
            dsegs.append(one(tup(self.id(nm), L.mkidecl(dv, defined))))
            n += 1
            dsegs.append(self.many("D%d" % n, det))
            if iskind(kind):
                isegs.append(one(self.impelem(self.id(nm), dv.a[2][0])))
                isegs.append(self.many("I%d" % n, iet))
        lsegs = [self.many("K0", ("seq", L.linkty))]
        loc = [self.many("LD", ("seq", L.idef))]
        non = [self.many("ND", ("seq", L.idef))]
        kk = eng.M.ckind
        vals = [None] * len(L.fs)
        for i, f in enumerate(L.fs):
            vals[i] = eng.sym("art." + f["n"], f["t"])
        R = L.role
        vals[R["decls"]] = coll(kk(eng, L.fty("decls"))[0], dsegs)
        vals[R["imports"]] = coll(L.impk, isegs)
        vals[R["links"]] = coll(kk(eng, L.fty("links"))[0], lsegs)
        vals[R["local"]] = coll(kk(eng, L.fty("local"))[0], loc)
        vals[R["nonlocal"]] = coll(kk(eng, L.fty("nonlocal"))[0], non)
        vals[R["strings"]] = coll("interner", [self.many("STRS", ("str", None))], [self.lab])
        self.vals = vals
        self.art = adt(ART, 0, *vals)
        self.cell = eng.heap(self.st, self.art)
        # entries of the anonymous runs carry other names
        for seg in list(self.gen):
            et = eng.M.ELTY.get(seg)
            if seg in dsegs or seg in isegs:
                eng.cons[seg] = self.notkey(keys)
        return mk("ref", self.cell, ())

    def constrain(self, seg, g):
        f = self.eng.cons.get(seg)
        if f is None:
            self.eng.cons[seg] = g
        else:
            self.eng.cons[seg] = lambda eng, st, e: [y for s in f(eng, st, e) for y in g(eng, s, e)]

    def notkey(self, keys):
        def f(eng, st, e):
            k = e.a[0][0] if e.op == "tup" else eng.fld(e, 0, 0, self.L.keyty)
            for kk in keys:
                if not st.assume(eq(k, kk), 0):
                    return []
            return [st]
        return f

    def impelem(self, idt, kind):
        return tup(idt, kind)

    def final(self, st):
        return st.store[self.cell]

    def role(self, v, r):
        return v.a[2][self.L.role[r]]

    def run(self, key, args):
        return self.eng.run(key, args, self.st)


def methods(eng, prefix):
    return [k for k in eng.D["bodies"] if k.startswith(prefix)]


def method(eng, name, owner=ART):
    c = methods(eng, "%s::%s" % (owner, name))
    c = [k for k in c if k[len(owner) + 2 + len(name):].split("{")[0][:1] in ("", ":") and "{" not in k]
    if not c:
        raise Anchor("%s::%s has no body" % (owner, name))
    return c[0]


def multiset(c):
    from collections import Counter
    return Counter(s for s in c.a[1])


def samecoll(a, b):
    """same elements (order ignored)"""
    return a is b or (a.op == b.op == "coll" and multiset(a) == multiset(b) and
                      [x for x in a.a[2] if x.op not in ("swapped", "label")] == [x for x in b.a[2] if x.op not in ("swapped", "label")])


def mergespec(a, b):
    """documented rule for redeclaring `a` as `b`: -> 'upgrade' | 'keep' | 'err' | 'ifeq'"""
    if a == "ImportD":
        return "upgrade" if b == "Data" else "keep" if b == "ImportD" else "err"
    if a == "ImportF":
        return "upgrade" if b == "Func" else "keep" if b == "ImportF" else "err"
    if a == "Data" and b == "ImportD":
        return "keep"
    if a == "Func" and b == "ImportF":
        return "keep"
    return "ifeq" if a == b else "err"


def unchanged(sc, before, after, roles):
    """names of state components (other than the interner) that differ"""
    out = []
    for r, i in sc.L.role.items():
        if r in roles or r == "strings":
            continue
        if before.a[2][i] is not after.a[2][i] and not samecoll(before.a[2][i], after.a[2][i]):
            out.append(r)
    return out


def opaque_in(*ts):
    return any(t.contains_op(x, ("app", "havoc", "opq", "opqseg", "loopval", "undef", "uninit", "opaquec", "lgv", "slotv")) for x in ts)


def declare_runs(eng):
    """every (previous state of the name) x (new declaration): abstract outcomes of Artifact::declare"""
    key = method(eng, "declare")
    out = []
    for a in (None,) + KINDS:
        for b in KINDS:
            for dfl in ((None,) if a is None or iskind(a) else (0, 1)):
                sc = Sc(eng)
                nm = sc.name()
                dv = mkdecl(eng, a, "old") if a else None
                nb = mkdecl(eng, b, "new")
                ref = sc.build([(nm, a, ZERO if not dfl else ONE, dv)])
                err = None
                try:
                    res = sc.run(key, [ref, vref(nm), nb])
                except (Unsupported, Budget) as e:
                    res, err = [], repr(e)
                out.append((sc, a, b, dfl, dv, nb, nm, res, err, list(eng.notes), list(eng.panics), set(eng.inlined)))
    return out
