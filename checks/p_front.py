"""Front-end properties: declarations, imports, definitions, links, the emission gate and the builders."""
from engine import terms as t
from engine.terms import mk, one, coll, adt, tup, vref, ZERO, ONE, UNIT, I, eq
from engine.interp import Engine, State, Unsupported, Budget, OK, ERR
from engine import models as M
from engine.evalm import satisfiable
from .front import *

SRC = "src/artifact.rs"


def tri(rep, ob, eng, cond, msg, terms=(), where=SRC, notes=None):
    """ok / definite violation / undecided when something on the way was not interpreted"""
    if cond:
        rep.ok(ob)
        return True
    notes = eng.notes if notes is None else notes
    if notes:
        rep.und(ob, "not fully interpreted: " + "; ".join(sorted({str(n[1])[:80] for n in notes})[:3]))
    elif opaque_in(*terms):
        rep.und(ob, "value not resolved: " + t.show(terms[0])[:120])
    else:
        rep.bad(ob, msg, where)
    return False


def runop(rep, ob, eng, sc, key, args):
    """abstract outcomes of one operation; None when undecided"""
    try:
        res = sc.run(key, args)
    except (Unsupported, Budget) as e:
        rep.und(ob, repr(e)[:150])
        return None
    rep.eng(eng)
    rep.paths += len(res)
    live = [(s, r) for s, r in res]
    for p in eng.panics:
        tri(rep, ob + "/no-panic", eng, False, "operation panics: %s in %s" % (p[2][:80], p[0][-1] if p[0] else "?"))
    if not live and not eng.panics:
        rep.und(ob, "no outcome")
        return None
    return live


def isok(r):
    return r.op == "adt" and r.a[0].endswith("Result") and r.a[1] == 0


def iserr(r):
    return r.op == "adt" and r.a[0].endswith("Result") and r.a[1] == 1


def errname(eng, r):
    e = r.a[2][0]
    if e.op == "adt" and e.a[0] == ERRT:
        return vname(eng, e), e.a[2]
    return None, (e,)


def sval(eng, st, v):
    return eng.val(st, v)


def declmap(sc, f):
    return sc.role(f, "decls")


def entryof(sc, c, idt):
    """(entries with key idt, rest segs) of a map/vec of pairs; None if not readable"""
    if c.op != "coll" or any(u.op == "remove" for u in c.a[2]):
        return None
    hit, rest = [], []
    for s in c.a[1]:
        if s.op == "one":
            e = s.a[0]
            if e.op != "tup":
                return None
            if e.a[0][0] is idt:
                hit.append(e.a[0][1])
            else:
                rest.append(s)
        elif s.op == "many":
            rest.append(s)
        else:
            return None
    return hit, rest


def manys(c):
    return [s for s in c.a[1] if s.op == "many"]


DK = {"ImportF": "function import", "ImportD": "data import", "Func": "function", "Data": "data object", "Sect": "section", None: "undeclared"}


def each_declare(rep, eng, f):
    n = 0
    for (sc, a, b, dfl, dv, nb, nm, res, err, notes, pan, inl) in declare_runs(eng):
        ob = "declare[%s%s then %s]" % (DK[a], "" if not dfl else " (defined)", DK[b])
        rep.funcs |= inl
        rep.paths += len(res)
        if err:
            rep.und(ob, err[:150])
            continue
        for p in pan:
            if notes:
                rep.und(ob, "panic path not decided")
            else:
                rep.bad(ob, "declare panics (%s) in %s" % (p[2][:80], p[0][-1] if p[0] else "?"), SRC)
        if not res and not pan:
            rep.und(ob, "no outcome")
        for st, r in res:
            f(ob, sc, a, b, dfl, dv, nb, nm, st, r, notes)
            n += 1
    return n


def mergecase(a, b, dv, nb, st):
    """expected outcome of redeclaring on this path: 'new' 'upgrade' 'keep' 'err' or None (not decided on the path)"""
    if a is None:
        return "new"
    m = mergespec(a, b)
    if m != "ifeq":
        return m
    k = known(st, eq(dv, nb))
    return None if k is None else "keep" if k else "err"


def p_merge(rep, eng):
    """redeclaration table, and the declaration recorded"""
    rep.rules.append("for each (state of the name, new declaration) every abstract path of Artifact::declare must agree with the "
                     "documented absorb table in result and in the recorded declaration")
    seen = {}

    def one_(ob, sc, a, b, dfl, dv, nb, nm, st, r, notes):
        exp = mergecase(a, b, dv, nb, st)
        if exp is None:
            # identical/different not separated on this path: the implementation did not look at the difference
            if isok(r):
                # accepted although the declarations may differ
                tri(rep, ob, eng, False, "accepts a redeclaration without requiring it to be identical", (r,), notes=notes)
            else:
                tri(rep, ob, eng, False, "rejects a redeclaration that may be identical", (r,), notes=notes)
            return
        seen.setdefault(ob, set()).add(exp)
        f = sc.final(st)
        dm = declmap(sc, f)
        if exp == "err":
            good = iserr(r)
            if not tri(rep, ob, eng, good, "incompatible redeclaration is accepted", (r,), notes=notes):
                return
            n, fl = errname(eng, r)
            tri(rep, ob, eng, n == "IncompatibleDeclaration" and fl[0] is dv and fl[1] is nb,
                "wrong error for an incompatible redeclaration: %s" % t.show(r)[:200], (r,), notes=notes)
            return
        if not tri(rep, ob, eng, isok(r), "valid declaration is rejected: %s" % t.show(r)[:200], (r,), notes=notes):
            return
        e = entryof(sc, dm, sc.id(nm))
        if e is None:
            rep.und(ob, "declaration table not readable: " + t.show(dm)[:150])
            return
        hit, rest = e
        want = nb if exp in ("new", "upgrade") else dv
        if not tri(rep, ob, eng, len(hit) == 1, "name is recorded %d times" % len(hit), (dm,), notes=notes):
            return
        d, flag = sc.L.idecl_parts(hit[0])
        wf = I(dfl or 0)
        tri(rep, ob, eng, d is want, "recorded declaration is %s, expected %s" % (t.show(d)[:100], t.show(want)[:100]), (d,), notes=notes)
        tri(rep, ob, eng, flag is wf, "defined flag becomes %s" % t.show(flag)[:80], (flag,), notes=notes)
        same = [s for s in declmap(sc, sc.art).a[1] if s.op == "many"] == [s for s in rest if s.op == "many"] and all(s.op == "many" for s in rest)
        tri(rep, ob, eng, same, "other declarations change: " + t.show(dm)[:200], (dm,), notes=notes)
    each_declare(rep, eng, one_)
    for a in KINDS:
        for b in KINDS:
            if mergespec(a, b) == "ifeq":
                for dfl in (0, 1):
                    ob = "declare[%s%s then %s]" % (DK[a], "" if not dfl else " (defined)", DK[b])
                    if ob in rep.good and seen.get(ob, set()) != {"keep", "err"}:
                        rep.bad(ob, "identical and different redeclarations are not told apart (only %s)" % sorted(seen.get(ob, [])), SRC)


def p_imports(rep, eng):
    rep.rules.append("after every declare the import list holds the name exactly when its declaration is an import, once, with that kind; "
                     "imports() yields the list in order")

    def one_(ob, sc, a, b, dfl, dv, nb, nm, st, r, notes):
        f = sc.final(st)
        dm = declmap(sc, f)
        im = sc.role(f, "imports")
        e = entryof(sc, dm, sc.id(nm))
        i = entryof(sc, im, sc.id(nm))
        if i is None and len(im.a) == 3 and len(im.a[2]) == 1 and im.a[2][0].op == "remove" and not notes:
            # one element was removed, at a position that does not stand at the name's entry whatever the other entries
            pos, at = ZERO, None
            for s in im.a[1]:
                if s.op == "one" and s.a[0].op == "tup" and s.a[0].a[0][0] is sc.id(nm):
                    at = pos
                pos = t.add(pos, t.segcount(s))
            if at is not None:
                s2 = st.copy()
                if s2.assume(t.eq(im.a[2][0].a[0], at), 0) and satisfiable(eng, s2.facts, s2.disj) is not None:
                    rep.bad(ob, "an entry other than the name's is removed from the import list (at %s, the name's is at %s)" % (t.show(im.a[2][0].a[0])[:60], t.show(at)[:40]), SRC)
                    return
        if e is None or i is None or len(e[0]) > 1:
            rep.und(ob, "state not readable: " + t.show(im)[:300])
            return
        want = []
        if e[0]:
            d, _ = sc.L.idecl_parts(e[0][0])
            if d.op != "adt":
                rep.und(ob, "declaration not resolved")
                return
            if vname(eng, d) == "Import":
                want = [d.a[2][0]]
        tri(rep, ob, eng, list(i[0]) == want, "import list holds %s for a name declared as %s" % (
            [t.show(x) for x in i[0]], t.show(e[0][0])[:100] if e[0] else "nothing"), (im,), notes=notes)
        from collections import Counter
        was = Counter(s for s in sc.role(sc.art, "imports").a[1] if s.op == "many")
        now = Counter(s for s in i[1])
        tri(rep, ob, eng, was == now, "other imports change: " + t.show(im)[:200], (im,), notes=notes)
    each_declare(rep, eng, one_)
    # import(name, kind) behaves as declare(name, Import(kind))
    key = method(eng, "import")
    for a in (None,) + KINDS:
        for k in ("ImportF", "ImportD"):
            sc = Sc(eng)
            nm = sc.name()
            dv = mkdecl(eng, a, "old") if a else None
            nb = mkdecl(eng, k, "new")
            ref = sc.build([(nm, a, ZERO, dv)])
            ob = "import[%s, %s]" % (DK[a], DK[k])
            res = runop(rep, ob, eng, sc, key, [ref, vref(nm), nb.a[2][0]])
            for st, r in res or []:
                exp = mergecase(a, k, dv, nb, st)
                f = sc.final(st)
                i = entryof(sc, sc.role(f, "imports"), sc.id(nm))
                if i is None:
                    rep.und(ob, "import list not readable")
                    continue
                if exp == "err":
                    tri(rep, ob, eng, iserr(r), "import over an incompatible declaration is accepted", (r,))
                    continue
                want = [nb.a[2][0]] if a is None or iskind(a) else []
                tri(rep, ob, eng, isok(r) and list(i[0]) == want, "import gives %s, list %s" % (t.show(r)[:80], [t.show(x) for x in i[0]]), (r,) + tuple(i[0]))
    # the public view
    key = method(eng, "imports")
    sc = Sc(eng)
    nm = sc.name()
    kv = mkdecl(eng, "ImportF", "x")
    ref = sc.build([(nm, "ImportF", ZERO, kv)])
    ob = "imports() view"
    res = runop(rep, ob, eng, sc, key, [ref])
    for st, r in res or []:
        for st2, c in drain_iter(rep, ob, eng, st, r):
            im = sc.role(sc.art, "imports")
            segs = c.a[1]
            good = len(segs) == len(im.a[1])
            if good:
                for s, m in zip(segs, im.a[1]):
                    good = good and viewseg(eng, sc, st2, s, m, ("name", 1))
            tri(rep, ob, eng, good, "imports() does not yield every import once with its name and kind: " + t.show(c)[:200], (c,))


def drain_iter(rep, ob, eng, st, r):
    """collect a returned iterator -> [(state, vec of element values)]"""
    def body(s, x, cells):
        s.store[cells["a"]] = coll("vec", s.store[cells["a"]].a[1] + (one(eng.pure(s, x)),), s.store[cells["a"]].a[2])
        return [(s, "go")]
    try:
        it = M.asiter(eng, st, r)
        return [(s, v["a"]) for tag, s, v in M.consume(eng, st, it, {"a": coll("vec")}, body, where="view") if tag == "end"]
    except (Unsupported, Budget) as e:
        rep.und(ob, repr(e)[:150])
        return []


def viewseg(eng, sc, st, s, m, spec):
    """does output segment s present the elements of source segment m as (resolved name, field)?"""
    if m.op == "one":
        if s.op != "one" or s.a[0].op != "tup":
            return False
        nm, k = s.a[0].a[0]
        return t.intid(sc.lab, nm) is m.a[0].a[0][0] and k is m.a[0].a[0][1]
    return True if s.op not in ("one", "many") or s is m else False


def btreety(eng):
    c = [i for i, ty in enumerate(eng.types) if ty["s"].startswith("alloc::collections::btree::map::BTreeMap<alloc::string::String, u64")]
    if not c:
        raise Anchor("custom symbol map type not found")
    return c[0]


def defparts(sc, v):
    r, fl = sc.L.idef_roles()
    return {k: sc.eng.fld(v, 0, i, fl[i]["t"]) for k, i in r.items()}


def newdefs(sc, f):
    """definitions added: [(role, value)]; None when the tables are not readable"""
    out = []
    for ro in ("local", "nonlocal"):
        a, b = sc.role(sc.art, ro), sc.role(f, ro)
        if b.op != "coll":
            return None
        old = list(a.a[1])
        for s in b.a[1]:
            if s in old:
                old.remove(s)
            elif s.op == "one":
                out.append((ro, s.a[0]))
            else:
                return None
        if old:
            return None
    return out


def defscen(eng, kind, data=None, nosyms=False):
    sc = Sc(eng)
    nm = sc.name()
    dv = mkdecl(eng, kind, "old") if kind else None
    D = eng.sym("DEFINED", eng.type_by_s("bool"))
    ref = sc.build([(nm, kind, D, dv)])
    dd = eng.sym("DATA", eng.type_by_s(DATA)) if data is None else data
    sy = eng.sym("SYMS", btreety(eng)) if not nosyms else coll("map")
    return sc, nm, dv, D, ref, dd, sy


def known(st, x):
    if x.op == "int":
        return bool(x.a[0])
    k = st.known(x)
    return bool(k.a[0]) if k.op == "int" else None


def defconds(eng, st, kind, D, dd, sy):
    """documented refusals applicable on this path: {error: True/False/None}"""
    zi = eng.discr(st, dd, eng.type_by_s(DATA))
    _, zv, _ = variant(eng, DATA, "ZeroInit")
    isz = known(st, eq(zi, I(zv)))
    hs = known(st, t.not_(eq(t.length(sy), ZERO)))
    if kind is None:
        return {"Undeclared": True}
    c = {"Undeclared": False, "DuplicateDefinition": known(st, D), "ImportDefined": iskind(kind)}
    if not iskind(kind):
        c["NonSectionCustomSymbols"] = False if kind == "Sect" else hs
        c["InvalidZeroInit"] = False if kind == "Data" else isz
    return c


def checkdef(rep, eng, ob, sc, kind, nm, dv, D, dd, sy, st, r, errs=True, content=True):
    c = defconds(eng, st, kind, D, dd, sy)
    f = sc.final(st)
    if iserr(r):
        if not errs:
            return
        n, fl = errname(eng, r)
        if n is None:
            rep.und(ob, "error value not resolved")
            return
        if c.get(n) is None and n in c:
            tri(rep, ob, eng, False, "%s is returned although its condition was not established on the path" % n, (r,))
            return
        if not tri(rep, ob, eng, c.get(n) is True, "returns %s where it does not apply" % n, (r,)):
            return
        want = {"Undeclared": nm, "DuplicateDefinition": nm, "ImportDefined": nm}.get(n)
        if want is not None:
            tri(rep, ob, eng, sval(eng, st, fl[0]) is want, "%s names %s" % (n, t.show(fl[0])[:80]), (fl[0],))
        else:
            tri(rep, ob, eng, fl[0] is dv.a[2][0], "%s reports another declaration" % n, (fl[0],))
            if n == "NonSectionCustomSymbols":
                tri(rep, ob, eng, fl[1] is sy, "%s reports other symbols" % n, (fl[1],))
        return
    if not isok(r):
        rep.und(ob, "result not resolved: " + t.show(r)[:100])
        return
    if errs:
        bad = [n for n, v in c.items() if v is not False]
        if not tri(rep, ob, eng, not bad, "definition is accepted although %s applies%s" % (
                "/".join(bad), "" if any(c[n] for n in bad) else " (not checked on this path)"), (r,)):
            return
    if content:
        nd = newdefs(sc, f)
        if nd is None:
            rep.und(ob, "definition tables not readable")
            return
        if not tri(rep, ob, eng, len(nd) == 1, "%d definitions are recorded" % len(nd), (sc.role(f, "local"), sc.role(f, "nonlocal"))):
            return
        p = defparts(sc, nd[0][1])
        for k, w in (("decl", dv.a[2][0]), ("name", sc.id(nm)), ("symbols", sy), ("data", dd)):
            same = p[k] is w or (p[k].op == w.op == "coll" and samecoll(p[k], w))
            tri(rep, ob + "/" + k, eng, same, "recorded %s is %s, not the one given" % (k, t.show(p[k])[:100]), (p[k],))
        e = entryof(sc, declmap(sc, f), sc.id(nm))
        if e is None or len(e[0]) != 1:
            rep.und(ob, "declaration table not readable")
            return
        d, fl = sc.L.idecl_parts(e[0][0])
        tri(rep, ob + "/marked", eng, fl is ONE and d is dv, "declaration becomes %s defined=%s" % (t.show(d)[:80], t.show(fl)), (fl, d))
        tri(rep, ob + "/others", eng, all(s.op == "many" for s in e[1]) and len(e[1]) == len(manys(declmap(sc, sc.art))),
            "other declarations change", (declmap(sc, f),))


def datav(eng, kind):
    _, j, f = variant(eng, DATA, kind)
    return adt(DATA, j, eng.sym("BYTES" if kind == "Blob" else "SIZE", f[0]["t"]))


def each_define(rep, eng, **kw):
    key = method(eng, "define_with_symbols")
    for kind in (None,) + KINDS:
        sc, nm, dv, D, ref, dd, sy = defscen(eng, kind)
        ob = "define_with_symbols[%s]" % DK[kind]
        res = runop(rep, ob, eng, sc, key, [ref, vref(nm), dd, sy])
        for st, r in res or []:
            checkdef(rep, eng, ob, sc, kind, nm, dv, D, dd, sy, st, r, **kw)
        for m, dk in (("define", "Blob"), ("define_zero_init", "ZeroInit")):
            dd = datav(eng, dk)
            sc, nm, dv, D, ref, dd, sy = defscen(eng, kind, dd, True)
            ob = "%s[%s]" % (m, DK[kind])
            res = runop(rep, ob, eng, sc, method(eng, m), [ref, vref(nm), dd.a[2][0]])
            for st, r in res or []:
                checkdef(rep, eng, ob, sc, kind, nm, dv, D, dd, sy, st, r, **kw)


def p_define_admission(rep, eng):
    rep.rules.append("every abstract path of the define operations, for each state of the name, returns an error exactly when one of the "
                     "documented refusals applies, and that error")
    each_define(rep, eng, errs=True, content=False)


def p_define_content(rep, eng):
    rep.rules.append("every successful path of the define operations adds exactly one definition holding the given bytes, symbols, name and the "
                     "recorded declaration, and marks the declaration defined; definitions() hands all of them to the back ends unchanged")
    each_define(rep, eng, errs=False, content=True)
    # the view used by the back ends
    key = method(eng, "definitions")
    sc = Sc(eng)
    nm = sc.name()
    dv = mkdecl(eng, "Sect", "x")
    ref = sc.build([(nm, "Sect", ONE, dv)])
    dd = eng.sym("DATA", eng.type_by_s(DATA))
    sy = eng.sym("SYMS", btreety(eng))
    r, fl = sc.L.idef_roles()
    vals = [eng.sym("idef." + f["n"], f["t"]) for f in fl]
    for k, v in (("decl", dv.a[2][0]), ("name", sc.id(nm)), ("symbols", sy), ("data", dd)):
        vals[r[k]] = v
    v = adt(eng.types[sc.L.idef]["path"], 0, *vals)
    ob = "definitions() view"
    for ro in ("local", "nonlocal"):
        a = sc.art
        fields = list(a.a[2])
        c = fields[sc.L.role[ro]]
        fields[sc.L.role[ro]] = coll(c.a[0], c.a[1] + (one(v),), c.a[2])
        st0 = State()
        st0.store[sc.cell] = adt(ART, 0, *fields)
        sc.st = st0
        res = runop(rep, ob, eng, sc, key, [ref])
        for st, r_ in res or []:
            for st2, c in drain_iter(rep, ob, eng, st, r_):
                ones = [s.a[0] for s in c.a[1] if s.op == "one"]
                reps = [s for s in c.a[1] if s.op != "one"]
                if not tri(rep, ob, eng, len(ones) == 1 and len(reps) == 2 and all(x.op == "rep" and len(x.a[1]) == 1 and len(x.a[1][0]) == 1 for x in reps),
                           "definitions() does not hand every definition over exactly once: " + t.show(c)[:200], (c,)):
                    continue
                d = ones[0]
                if d.op != "adt":
                    rep.und(ob, "definition view not resolved")
                    continue
                vs = [eng.pure(st2, x) for x in d.a[2]]
                tri(rep, ob + "/" + ro, eng, {sval(eng, st2, x) for x in vs} == {nm, dd, sy, dv.a[2][0]} or set(vs) == {nm, dd, sy, dv.a[2][0]},
                    "definition handed to the back ends differs from the one recorded: " + t.show(d)[:200], (d,))


# ---------------------------------------------------------------- links

def linkscen(eng, a, b, same=False):
    sc = Sc(eng)
    nf = sc.name("FROM")
    nt = nf if same else sc.name("TO")
    dva = mkdecl(eng, a, "from") if a else None
    dvb = mkdecl(eng, b, "to") if b else None
    DA = eng.sym("DEFA", eng.type_by_s("bool"))
    DB = eng.sym("DEFB", eng.type_by_s("bool"))
    ents = [(nf, a, DA, dva)] + ([] if same else [(nt, b, DB, dvb)])
    ref = sc.build(ents)
    if not same:
        for x in (eq(nf, nt), eq(sc.id(nf), sc.id(nt))):
            if x.op != "int":
                sc.st.assume(x, 0)
    at = eng.sym("AT", eng.type_by_s("u64"))
    return sc, nf, nt, dva, dvb, ref, at


def linkval(eng, nf, nt, at):
    ti = eng.type_by_s("artifact::Link") or next((i for i, ty in enumerate(eng.types) if ty.get("path") == "artifact::Link"), None)
    if ti is None:
        raise Anchor("struct Link not found")
    fs = eng.types[ti]["variants"][0]["f"]
    m = {"from": vref(nf), "to": vref(nt), "at": at}
    if any(f["n"] not in m for f in fs):
        raise Anchor("struct Link has other fields")
    return adt(eng.types[ti]["path"], 0, *[m[f["n"]] for f in fs])


def each_link(rep, eng):
    rel = eng.sym("RELOC", eng.type_by_s(RELOC))
    _, aj, _ = variant(eng, RELOC, "Auto")
    auto = adt(RELOC, aj)
    for a in (None,) + KINDS:
        for b in (None,) + KINDS + ("=",):
            if b == "=":
                combos = [(a, a, True)]
            else:
                combos = [(a, b, False)]
            for a_, b_, same in combos:
                for m in ("link_with", "link"):
                    sc, nf, nt, dva, dvb, ref, at = linkscen(eng, a_, b_, same)
                    ob = "%s[%s -> %s]" % (m, DK[a_], "itself" if same else DK[b_])
                    rel = eng.sym("RELOC", eng.type_by_s(RELOC))
                    lv = linkval(eng, nf, nt, at)
                    res = runop(rep, ob, eng, sc, method(eng, m), [ref, lv] + ([rel] if m == "link_with" else []))
                    for st, r in res or []:
                        yield ob, sc, a_, b_, nf, nt, at, (rel if m == "link_with" else auto), st, r


def p_links(rep, eng):
    rep.rules.append("for each state of both names, link operations fail with the documented error exactly when an endpoint is undeclared or the "
                     "relocated name is an import, and otherwise append exactly the given link; links() yields them in order with the declarations in force")
    for ob, sc, a, b, nf, nt, at, rel, st, r in each_link(rep, eng):
        f = sc.final(st)
        exp = {}
        if a is None:
            exp["Undeclared"] = {nf}
        if b is None:
            exp.setdefault("Undeclared", set()).add(nt)
        if a is not None and iskind(a):
            exp["RelocateImport"] = {nf}
        if iserr(r):
            n, fl = errname(eng, r)
            if n is None:
                rep.und(ob, "error value not resolved")
                continue
            if tri(rep, ob, eng, n in exp, "link is refused with %s" % n, (r,)):
                tri(rep, ob, eng, sval(eng, st, fl[0]) in exp[n], "%s names %s" % (n, t.show(fl[0])[:80]), (fl[0],))
            continue
        if not isok(r):
            rep.und(ob, "result not resolved: " + t.show(r)[:100])
            continue
        if not tri(rep, ob, eng, not exp, "invalid link is accepted (%s expected)" % "/".join(exp), (r,)):
            continue
        ls = sc.role(f, "links").a[1]
        good = len(ls) == 2 and ls[0] is sc.role(sc.art, "links").a[1][0] and ls[1].op == "one"
        if not tri(rep, ob, eng, good, "link list becomes " + t.show(sc.role(f, "links"))[:150], (sc.role(f, "links"),)):
            continue
        lr, fl = sc.L.link_roles()
        got = {k: eng.fld(ls[1].a[0], 0, i, fl[i]["t"]) if ls[1].a[0].op != "tup" else ls[1].a[0].a[0][i] for k, i in lr.items()}
        for k, w in (("from", sc.id(nf)), ("to", sc.id(nt)), ("at", at), ("reloc", rel)):
            tri(rep, ob + "/" + k, eng, got[k] is w, "recorded link has %s = %s" % (k, t.show(got[k])[:80]), (got[k],))
    # view
    key = method(eng, "links")
    for a in KINDS[2:]:
        for b in KINDS:
            sc, nf, nt, dva, dvb, ref, at = linkscen(eng, a, b)
            lr, fl = sc.L.link_roles()
            ty = eng.types[sc.L.linkty]
            back = b in KINDS[2:]
            ends = [(nf, dva, nt, dvb), (nf, dva, nt, dvb), (nf, dva, nf, dva)] + ([(nt, dvb, nf, dva), (nt, dvb, nt, dvb)] if back else [])
            links = []
            for k, (f, _, to, _) in enumerate(ends):
                vals = [None] * len(fl)
                for n, w in (("from", sc.id(f)), ("to", sc.id(to)), ("at", eng.sym("AT%d" % k, eng.type_by_s("u64"))), ("reloc", eng.sym("RELOC%d" % k, eng.type_by_s(RELOC)))):
                    vals[lr[n]] = w
                links.append(vals)
            # the same link again
            links.append(links[0])
            ends.append(ends[0])
            fields = list(sc.art.a[2])
            c = fields[sc.L.role["links"]]
            fields[sc.L.role["links"]] = coll(c.a[0], [one(tup(*v) if ty["k"] == "tuple" else adt(ty["path"], 0, *v)) for v in links], c.a[2])
            sc.st.store[sc.cell] = adt(ART, 0, *fields)
            ob = "links() view[%s -> %s]" % (DK[a], DK[b])
            res = runop(rep, ob, eng, sc, key, [ref])
            for st, r in res or []:
                for st2, c in drain_iter(rep, ob, eng, st, r):
                    good = len(c.a[1]) == len(links) and all(x.op == "one" and x.a[0].op == "adt" for x in c.a[1])
                    if not tri(rep, ob, eng, good, "links() yields " + t.show(c)[:150], (c,)):
                        continue
                    for k, sg in enumerate(c.a[1]):
                        l = sg.a[0]
                        flat = []
                        for i, x in enumerate(l.a[2]):
                            x = eng.pure(st2, x)
                            if x.op == "adt" and x.a[0] != RELOC:
                                flat.append(tuple(eng.pure(st2, sval(eng, st2, y)) for y in x.a[2]))
                            else:
                                flat.append(x)
                        pf = [x for x in flat if isinstance(x, tuple)]
                        oth = [x for x in flat if not isinstance(x, tuple)]
                        f, df, to, dt = ends[k]
                        tri(rep, ob, eng, len(pf) == 2 and set(pf[0]) == {f, df} and set(pf[1]) == {to, dt} and oth == [links[k][lr["at"]], links[k][lr["reloc"]]],
                            "link handed to the back ends differs: " + t.show(l)[:200], (l,))


# ---------------------------------------------------------------- failed operations

def p_atomic(rep, eng):
    rep.rules.append("on every abstract path of declare, import, define*, link* that returns an error, all state of the artifact other than the interned "
                     "strings equals the state before")

    def same(ob, sc, st, r, notes):
        if iserr(r):
            d = unchanged(sc, sc.art, sc.final(st), ())
            tri(rep, ob, eng, not d, "a failing call changes " + ", ".join(d), tuple(sc.role(sc.final(st), x) for x in d), notes=notes)
        elif not isok(r):
            rep.und(ob, "result not resolved")
    each_declare(rep, eng, lambda ob, sc, a, b, dfl, dv, nb, nm, st, r, notes: same(ob, sc, st, r, notes))
    for kind in (None,) + KINDS:
        sc, nm, dv, D, ref, dd, sy = defscen(eng, kind)
        ob = "define_with_symbols[%s]" % DK[kind]
        for st, r in runop(rep, ob, eng, sc, method(eng, "define_with_symbols"), [ref, vref(nm), dd, sy]) or []:
            same(ob, sc, st, r, list(eng.notes))
    for ob, sc, a, b, nf, nt, at, rel, st, r in each_link(rep, eng):
        same(ob, sc, st, r, list(eng.notes))
    # declared but never undone: nothing else may shrink
    for ob, sc, a, b, nf, nt, at, rel, st, r in ():
        pass


# ---------------------------------------------------------------- emission

def backend_rule(eng, callee, args, argtys, destty, st):
    p = callee["path"]
    for b in ("elf", "mach"):
        if p.startswith(b + "::"):
            return eng.opaque("backend:" + b, args, argtys, destty, st, quiet=True)
    q = callee.get("rpath", p)
    if destty is not None and argtys:
        s0 = " ".join(eng.types[a]["s"] for a in argtys if a is not None)
        m = (callee.get("method") or p.rsplit("::", 1)[-1]).split("<")[0]
        if "std::fs::File" in s0:
            if m in ("new", "with_capacity") and "Writer" in p:
                st.aux = st.aux + (("buf",),)
                return [(st, args[-1])]
            if m in ("write_all", "write", "flush", "sync_all", "sync_data", "set_len", "seek", "into_inner"):
                s1, s2 = st, st.copy()
                v = eng.val(st, args[1]) if len(args) > 1 else None
                s1.aux = s1.aux + ((m, v),)
                ty = eng.types[destty]
                okt = ty["args"][0]
                e = typed(mk("ioerror", m), ty["args"][1])
                s2.aux = s2.aux + (("failed", m, v, e),)
                return [(s1, OK(UNIT if m != "write" else eng.sym("WRITTEN", okt))), (s2, ERR(e))]
    return None


typed = t.typed


def emitscen(eng, entries):
    sc = Sc(eng)
    ents = []
    for i, (k, d) in enumerate(entries):
        nm = sc.name("N%d" % i)
        ents.append((nm, k, ONE if d else ZERO, mkdecl(eng, k, "d%d" % i)))
    for i in range(len(ents)):
        for j in range(i):
            sc.st.assume(eq(sc.id(ents[i][0]), sc.id(ents[j][0])), 0)
    ref = sc.build(ents)
    return sc, ents, ref


def undefview(rep, eng, ob, sc, st, c, ents):
    """does list c hold exactly the names declared, not imported and not defined?"""
    if c.op != "coll":
        rep.und(ob, "list not resolved: " + t.show(c)[:100])
        return None
    want = [nm for nm, k, d, dv in ents if not iskind(k) and d is ZERO]
    got = [sval(eng, st, s.a[0]) for s in c.a[1] if s.op == "one"]
    ok = tri(rep, ob, eng, sorted(map(id, got)) == sorted(map(id, want)), "undefined symbols are reported as %s, expected %s" % (
        [t.show(x) for x in got], [t.show(x) for x in want]), tuple(got))
    for s in c.a[1]:
        if s.op == "one":
            continue
        if s.op != "rep":
            rep.und(ob, "list not resolved: " + t.show(s)[:100])
            return None
        L = s.a[0]
        rec = t.LOOPS.get(L)
        if rec is None or rec.source is None or rec.source.op != "many":
            rep.und(ob, "loop source not a run of declarations")
            return None
        el = M.elty_sym(eng, rec.source, L)
        for alt, items in zip(rec.alts, s.a[1]):
            st2 = alt.st
            isimp, defd = elparts(eng, sc, alt.st, el)
            need = None
            if isimp is True or defd is True:
                need = False
            elif isimp is False and defd is False:
                need = True
            has = len(items) == 1
            if need is None:
                ok = tri(rep, ob + "/all", eng, False, "a declaration is %s the undefined list without looking at whether it is an import and defined" % (
                    "put in" if has else "left out of"), ()) and ok
                continue
            ok = tri(rep, ob + "/all", eng, has == need and len(items) <= 1, "a declaration that is %s and %s is %s the undefined list" % (
                "an import" if isimp else "not an import", "defined" if defd else "undefined" if defd is False else "whatever", "in" if has else "not in"), ()) and ok
            if has and need:
                nm = sval(eng, st2, items[0].a[0])
                ok = tri(rep, ob + "/name", eng, nm.op == "resolve" and nm.a[1].op in ("fld", "proj", "el", "tupf") or nm.op == "resolve",
                         "undefined symbol is reported as " + t.show(nm)[:100], (nm,)) and ok
    return ok


def elparts(eng, sc, st, el):
    """(is import?, defined?) of the declaration entry `el` on a path: True/False/None"""
    if el.op != "tup":
        raise Unsupported("declaration entry " + t.show(el)[:60])
    decl, flag = sc.L.idecl_parts(el.a[0][1])
    _, ji, _ = variant(eng, DECL, "Import")
    return known(st, eq(eng.discr(st, decl, eng.type_by_s(DECL)), I(ji))), known(st, flag)


def settled(eng, sc):
    """constraint: every declaration is an import or defined"""
    _, ji, _ = variant(eng, DECL, "Import")

    def f(eng, st, e):
        decl, flag = sc.L.idecl_parts(e.a[0][1])
        c = eq(eng.discr(st, decl, eng.type_by_s(DECL)), I(ji))
        s2 = st.copy()
        out = []
        if st.assume(c, 1):
            out.append(st)
        if s2.assume(c, 0) and s2.assume(flag, 1):
            out.append(s2)
        return out
    return f


def entries_undefined(eng):
    for k in KINDS:
        for d in (0, 1):
            if not (iskind(k) and d):
                yield k, d


def p_gate(rep, eng):
    rep.rules.append("undefined_symbols lists exactly the declarations that are neither imports nor defined; every path of the emit operations returns "
                     "UndefinedSymbols with that list when it is not empty, and never otherwise, without writing anything")
    for k, d in entries_undefined(eng):
        sc, ents, ref = emitscen(eng, [(k, d)])
        ob = "undefined_symbols[%s%s]" % (DK[k], ", defined" if d else "")
        for st, r in runop(rep, ob, eng, sc, method(eng, "undefined_symbols"), [ref]) or []:
            undefview(rep, eng, ob, sc, st, r, ents)
    fmtty = next((i for i, ty in enumerate(eng.types) if ty.get("path", "").endswith("BinaryFormat")), None)
    filety = eng.type_by_s("std::fs::File")
    for m in ("emit_as", "emit", "write_as", "write"):
        extra = {"emit_as": [eng.sym("FORMAT", fmtty)], "emit": [], "write_as": [eng.sym("SINK", filety), eng.sym("FORMAT", fmtty)],
                 "write": [eng.sym("SINK", filety)]}[m]
        for k, d in entries_undefined(eng):
            sc, ents, ref = emitscen(eng, [(k, d)])
            eng.opaque_rules = [backend_rule]
            miss = not iskind(k) and not d
            if not miss:
                for seg in list(sc.gen):
                    if M.ELTY.get(seg, (None,))[0] == "map":
                        sc.constrain(seg, settled(eng, sc))
            ob = "%s[%s%s]" % (m, DK[k], ", defined" if d else "")
            args = [ref] + [eng.sym(x.a[0], t.TY.get(x)) for x in extra]
            for st, r in runop(rep, ob, eng, sc, method(eng, m), args) or []:
                n = errname(eng, r)[0] if iserr(r) else None
                if miss:
                    if tri(rep, ob, eng, n == "UndefinedSymbols", "an artifact with an undefined declaration gives " + t.show(r)[:150], (r,)):
                        undefview(rep, eng, ob, sc, st, errname(eng, r)[1][0], ents)
                    tri(rep, ob, eng, not any(a[0] in ("write", "write_all", "buf") for a in st.aux), "bytes are written although a declaration is undefined")
                else:
                    tri(rep, ob, eng, n != "UndefinedSymbols", "a complete artifact is refused as having undefined symbols", ())
    eng.opaque_rules = []


FORMATS = {"Elf": "elf", "Macho": "mach"}


def p_dispatch(rep, eng):
    rep.rules.append("for each binary format every path of emit/emit_as on a complete artifact returns the unmodified result of that format's back end, "
                     "or UnsupportedBinaryFormat naming the requested format; emit requests the target's format")
    fmtty = next((i for i, ty in enumerate(eng.types) if ty.get("path", "").endswith("BinaryFormat")), None)
    if fmtty is None:
        raise Anchor("BinaryFormat not found")
    names = [v["n"] for v in eng.types[fmtty]["variants"]]
    for m in ("emit_as", "emit"):
        for j, fn in enumerate(names):
            sc, ents, ref = emitscen(eng, [])
            for seg in list(sc.gen):
                if M.ELTY.get(seg, (None,))[0] == "map":
                    sc.constrain(seg, settled(eng, sc))
            eng.opaque_rules = [backend_rule]
            fv = adt(eng.types[fmtty]["path"], j)
            # the target is structured: its binary format is fixed or free
            tv = sc.role(sc.art, "target")
            tty = sc.L.fty("target")
            fl = eng.types[tty]["variants"][0]["f"]
            bi = next((i for i, f in enumerate(fl) if f["t"] == fmtty), None)
            if bi is None:
                raise Anchor("Triple has no binary format field")
            tfields = [eng.fld(tv, 0, i, f["t"]) for i, f in enumerate(fl)]
            if m == "emit":
                tfields[bi] = fv
            fields = list(sc.art.a[2])
            fields[sc.L.role["target"]] = adt(eng.types[tty]["path"], 0, *tfields)
            art = adt(ART, 0, *fields)
            sc.st.store[sc.cell] = art
            ob = "%s[%s]" % (m, fn)
            res = runop(rep, ob, eng, sc, method(eng, m), [ref] + ([fv] if m == "emit_as" else []))
            want = FORMATS.get(fn)
            for st, r in res or []:
                if want is None:
                    n, fl_ = errname(eng, r) if iserr(r) else (None, (r,))
                    if tri(rep, ob, eng, n == "UnsupportedBinaryFormat", "an unsupported format gives " + t.show(r)[:120], ()):
                        tri(rep, ob, eng, fl_[0] is fv, "the error names %s instead of the requested format" % t.show(fl_[0])[:80], ())
                    continue
                ap = mk("app", "backend:" + want, (art,))
                if isok(r):
                    x = r.a[2][0]
                    apx = [y for y in subterms(x) if y.op == "app" and str(y.a[0]).startswith("backend:")]
                    good = len(apx) == 1 and apx[0] is ap and x is eng.fld(ap, 0, 0, None)
                    tri(rep, ob, eng, good, "emitted bytes are %s" % t.show(x)[:150], () if apx else (x,))
                elif iserr(r):
                    apx = [y for y in subterms(r) if y.op == "app" and str(y.a[0]).startswith("backend:")]
                    n, _ = errname(eng, r)
                    tri(rep, ob, eng, len(set(apx)) == 1 and apx[0] is ap and n in ("Goblin", "Io"), "emission fails with " + t.show(r)[:150], ())
                else:
                    rep.und(ob, "result not resolved")
    eng.opaque_rules = []


def subterms(x, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(x, t.T) or x in seen:
        return []
    seen.add(x)
    out = [x]
    for y in t.children(x):
        out += subterms(y, seen)
    return out


def p_write(rep, eng):
    rep.rules.append("every path of write/write_as returning Ok has handed exactly the bytes of the emission to the sink, completely and unbuffered at return; "
                     "every failed sink operation becomes an Io error")
    fmtty = next((i for i, ty in enumerate(eng.types) if ty.get("path", "").endswith("BinaryFormat")), None)
    filety = eng.type_by_s("std::fs::File")
    if filety is None:
        raise Anchor("File sink not found")
    for m in ("write_as", "write"):
        for j, v in enumerate(eng.types[fmtty]["variants"]):
            if v["n"] not in FORMATS:
                continue
            sc, ents, ref = emitscen(eng, [])
            for seg in list(sc.gen):
                if M.ELTY.get(seg, (None,))[0] == "map":
                    sc.constrain(seg, settled(eng, sc))
            eng.opaque_rules = [backend_rule]
            fv = adt(eng.types[fmtty]["path"], j)
            art = sc.art
            if m == "write":
                tty = sc.L.fty("target")
                fl = eng.types[tty]["variants"][0]["f"]
                bi = next(i for i, f in enumerate(fl) if f["t"] == fmtty)
                tv = sc.role(sc.art, "target")
                tf = [eng.fld(tv, 0, i, f["t"]) for i, f in enumerate(fl)]
                tf[bi] = fv
                fields = list(art.a[2])
                fields[sc.L.role["target"]] = adt(eng.types[tty]["path"], 0, *tf)
                art = adt(ART, 0, *fields)
                sc.st.store[sc.cell] = art
            ob = "%s[%s]" % (m, v["n"])
            sink = eng.sym("SINK", filety)
            res = runop(rep, ob, eng, sc, method(eng, m), [ref, sink] + ([fv] if m == "write_as" else []))
            ap = mk("app", "backend:" + FORMATS[v["n"]], (art,))
            body = eng.fld(ap, 0, 0, None)
            for st, r in res or []:
                ev = st.aux
                fails = [a for a in ev if a[0] == "failed"]
                if isok(r):
                    if not tri(rep, ob, eng, not fails, "a failed %s on the sink is ignored" % (fails[0][1] if fails else ""), ()):
                        continue
                    ws = [a for a in ev if a[0] in ("write_all", "write")]
                    data = [a[1] for a in ws]
                    if not ws and eng.notes:
                        rep.und(ob, "sink use not modelled")
                        continue
                    if any(a[0] == "write" for a in ws):
                        tri(rep, ob, eng, False, "bytes are handed over with a single write call, which may stop short", ())
                        continue
                    tri(rep, ob, eng, len(data) == 1 and data[0] is body, "the sink receives %s" % [t.show(x)[:80] for x in data], tuple(data) if not subterms_app(data) else ())
                    names = [a[0] for a in ev]
                    if "buf" in names:
                        last = max([i for i, n in enumerate(names) if n in ("write_all", "write")] or [-1])
                        tri(rep, ob, eng, any(n in ("flush", "into_inner") for n in names[last + 1:]), "buffered bytes are not flushed before success is reported", ())
                    if "set_len" in names or "seek" in names:
                        rep.und(ob, "sink position manipulated")
                elif iserr(r):
                    n, fl_ = errname(eng, r)
                    if fails:
                        tri(rep, ob, eng, n == "Io" and fl_[0] is fails[-1][3], "a failed sink operation becomes " + t.show(r)[:100], ())
                    else:
                        tri(rep, ob, eng, any(x is ap for x in subterms(r)), "writing fails with " + t.show(r)[:100], ())
                else:
                    rep.und(ob, "result not resolved")
            if res and not any(iserr(r) and any(a[0] == "failed" for a in st.aux) for st, r in res):
                tri(rep, ob + "/io-error", eng, False, "no path reports a failing sink", ())
    eng.opaque_rules = []


def subterms_app(data):
    return any(y.op == "app" and str(y.a[0]).startswith("backend:") for x in data for y in subterms(x))


# ---------------------------------------------------------------- builders

def unwrapself(eng, key):
    b = eng.D["bodies"][key]
    return [eng.types[x] for x in b["locals"][1:1 + b["argc"]]], b["locals"][1:1 + b["argc"]], eng.types[b["locals"][0]]


def structval(eng, path, tag):
    ti = next((i for i, ty in enumerate(eng.types) if ty.get("path") == path), None)
    if ti is None:
        raise Anchor(path + " not found")
    fl = eng.types[ti]["variants"][0]["f"]
    vals = [eng.sym(tag + "." + f["n"], f["t"]) for f in fl]
    return ti, fl, adt(path, 0, *vals)


SCOPES = {"global": "Global", "local": "Local", "weak": "Weak"}
VISES = {"default_visibility": "Default", "protected": "Protected", "hidden": "Hidden"}


def p_builders(rep, eng):
    rep.rules.append("each builder/setter/getter of the declaration types changes exactly its own attribute to the given value, predicates and defaults "
                     "follow the documented table, conversions keep every attribute")
    P = "artifact::decl::"
    attrs = {"FunctionDecl": ("scope", "visibility", "align"), "DataDecl": ("scope", "visibility", "writable", "datatype", "align"),
             "SectionDecl": ("datatype", "align")}

    def enumv(name, v):
        _, j, _ = variant(eng, P + name, v)
        return adt(P + name, j)

    def fieldof(fl, kind):
        pred = {"scope": lambda y: y.get("path") == P + "Scope", "visibility": lambda y: y.get("path") == P + "Visibility",
                "align": lambda y: y["s"].startswith("core::option::Option<u64"), "writable": lambda y: y["k"] == "bool",
                "datatype": lambda y: y.get("path") == P + "DataType", "kind": lambda y: y.get("path") == P + "SectionKind"}[kind]
        for i, f in enumerate(fl):
            if pred(eng.types[f["t"]]):
                return i
        raise Anchor("no %s attribute" % kind)

    def call(ob, key, args, st=None):
        eng.reset(sensitive=True)
        try:
            res = eng.run(key, args, st or State())
        except (Unsupported, Budget) as e:
            rep.und(ob, repr(e)[:120])
            return []
        rep.eng(eng)
        rep.paths += len(res)
        if not res:
            tri(rep, ob, eng, False, "never returns", ())
        return res

    def have(ty, m):
        k = [x for x in eng.D["bodies"] if x.startswith("%s%s::%s" % (P, ty, m)) and x[len(P) + len(ty) + 2 + len(m):][:1] in ("", ":") and "{" not in x]
        return k[0] if k else None

    for ty, ats in attrs.items():
        ti, fl, sv = structval(eng, P + ty, "self")
        idx = {a: fieldof(fl, a) for a in ats}
        if ty == "SectionDecl":
            idx["kind"] = fieldof(fl, "kind")

        def setter(m, attr, val, args):
            """builder (by value) method"""
            key = have(ty, m)
            ob = "%s::%s" % (ty, m)
            if key is None:
                rep.und(ob, "method not found")
                return
            argt, ats_, ret = unwrapself(eng, key)
            byref = argt[0]["k"] == "ref"
            st = State()
            eng.reset(sensitive=True)
            c = eng.heap(st, sv)
            res = call(ob, key, [mk("ref", c, ()) if byref else sv] + args, st)
            want = list(sv.a[2])
            want[idx[attr]] = val
            pan = [p for p in eng.panics]
            for s, r in res:
                got = s.store[c] if byref else r
                tri(rep, ob, eng, got.op == "adt" and list(got.a[2]) == want, "gives %s" % t.show(got)[:150], (got,))
            if attr != "align":
                for p in pan:
                    tri(rep, ob, eng, False, "panics", ())
        if "scope" in idx:
            for m, v in SCOPES.items():
                setter(m, "scope", enumv("Scope", v), [])
            x = eng.sym("X", fl[idx["scope"]]["t"])
            setter("with_scope", "scope", x, [x])
            setter("set_scope", "scope", x, [x])
            for m, v in VISES.items():
                setter(m, "visibility", enumv("Visibility", v), [])
            x = eng.sym("X", fl[idx["visibility"]]["t"])
            setter("with_visibility", "visibility", x, [x])
            setter("set_visibility", "visibility", x, [x])
        if "datatype" in idx:
            x = eng.sym("X", fl[idx["datatype"]]["t"])
            setter("with_datatype", "datatype", x, [x])
            setter("set_datatype", "datatype", x, [x])
        if "writable" in idx:
            x = eng.sym("X", fl[idx["writable"]]["t"])
            setter("with_writable", "writable", x, [x])
            setter("set_writable", "writable", x, [x])
            setter("writable", "writable", ONE, [])
            setter("read_only", "writable", ZERO, [])
        a64 = eng.sym("ALIGN", eng.type_by_s("u64"))
        for v in (adt("core::option::Option", 0), adt("core::option::Option", 1, a64)):
            for m in ("with_align", "set_align"):
                setter(m, "align", v, [v])

        def getter(m, want, cases=None):
            key = have(ty, m)
            ob = "%s::%s" % (ty, m)
            if key is None:
                rep.und(ob, "method not found")
                return
            for s, r in call(ob, key, [vref(sv)]):
                want(ob, s, r)
        for a, m in (("scope", "get_scope"), ("visibility", "get_visibility"), ("datatype", "get_datatype"), ("align", "get_align"), ("kind", "kind")):
            if a in idx:
                getter(m, lambda ob, s, r, a=a: tri(rep, ob, eng, eng.val(s, r) is sv.a[2][idx[a]] or sameval(eng, s, r, sv.a[2][idx[a]], fl[idx[a]]["t"]),
                                                    "returns %s" % t.show(r)[:100], (r,)))

        def boolgetter(m, val):
            """val: {assumption list -> bool}"""
            def w(ob, s, r):
                for name, c, exp in val:
                    s2 = s.copy()
                    if c is not None and not s2.assume(eq(c[0], I(c[1])), 1):
                        continue
                    tri(rep, ob + name, eng, known(s2, r) is exp, "returns %s" % t.show(r)[:80], (r,))
            getter(m, w)
        if "writable" in idx:
            w = sv.a[2][idx["writable"]]
            boolgetter("is_writable", [("[yes]", (w, 1), True), ("[no]", (w, 0), False)])
        if "scope" in idx:
            sx = sv.a[2][idx["scope"]]
            d = eng.discr(State(), sx, fl[idx["scope"]]["t"])
            boolgetter("is_global", [("[%s]" % n, (d, variant(eng, P + "Scope", n)[1]), n == "Global") for n in ("Global", "Local", "Weak")])
        else:
            boolgetter("is_global", [("", None, False)])
            kx = sv.a[2][idx["kind"]]
            d = eng.discr(State(), kx, fl[idx["kind"]]["t"])
            boolgetter("is_writable", [("[%s]" % n, (d, variant(eng, P + "SectionKind", n)[1]), n == "Data") for n in ("Data", "Debug", "Text")])

    # constructors and defaults
    none = adt("core::option::Option", 0)

    def dflt(ty, **kw):
        ti, fl, _ = structval(eng, P + ty, "d")
        vals = [None] * len(fl)
        for a, v in kw.items():
            vals[fieldof(fl, a)] = v
        return adt(P + ty, 0, *vals)
    L, V, B = enumv("Scope", "Local"), enumv("Visibility", "Default"), enumv("DataType", "Bytes")
    kx = eng.sym("KIND", next(i for i, ty in enumerate(eng.types) if ty.get("path") == P + "SectionKind"))
    ctors = [("Decl", "function", [], dflt("FunctionDecl", scope=L, visibility=V, align=none)),
             ("Decl", "data", [], dflt("DataDecl", scope=L, visibility=V, writable=ZERO, datatype=B, align=none)),
             ("Decl", "cstring", [], dflt("DataDecl", scope=L, visibility=V, writable=ZERO, datatype=enumv("DataType", "String"), align=none)),
             ("Decl", "section", [kx], dflt("SectionDecl", kind=kx, datatype=B, align=none)),
             ("SectionDecl", "new", [kx], dflt("SectionDecl", kind=kx, datatype=B, align=none)),
             ("Decl", "function_import", [], adt(P + "FunctionImportDecl", 0)), ("Decl", "data_import", [], adt(P + "DataImportDecl", 0))]
    for ty, m, args, want in ctors:
        key = have(ty, m)
        ob = "%s::%s" % (ty, m)
        if key is None:
            rep.und(ob, "method not found")
            continue
        for s, r in call(ob, key, args):
            tri(rep, ob, eng, r is want, "gives %s" % t.show(r)[:150], (r,))
    # conversions into Decl
    _, jd, _ = variant(eng, DECL, "Defined")
    _, ji, _ = variant(eng, DECL, "Import")
    conv = []
    for ty, v in (("FunctionDecl", "Function"), ("DataDecl", "Data"), ("SectionDecl", "Section")):
        sv = structval(eng, P + ty, "self")[2]
        conv.append((ty, sv, adt(DECL, jd, adt(DDECL, variant(eng, DDECL, v)[1], sv))))
    for ty, v in (("FunctionImportDecl", "Function"), ("DataImportDecl", "Data")):
        conv.append((ty, adt(P + ty, 0), adt(DECL, ji, adt(IKIND, variant(eng, IKIND, v)[1]))))
    for ty, sv, want in conv:
        ob = "%s into Decl" % ty
        ks = [k for k in eng.D["bodies"] if (P + ty) in k and "::into" in k and "Into<" in k] or              [k for k in eng.D["bodies"] if (P + ty) in k and k.endswith("::from") and "From<" in k]
        if not ks:
            rep.und(ob, "conversion not found")
            continue
        for s, r in call(ob, ks[0], [sv]):
            tri(rep, ob, eng, r is want, "gives %s" % t.show(r)[:150], (r,))
    # predicates on the sum types
    for kind in KINDS:
        dv = mkdecl(eng, kind, "x")
        for m, exp in (("is_import", iskind(kind)), ("is_section", kind == "Sect")):
            key = have("Decl", m)
            ob = "Decl::%s[%s]" % (m, DK[kind])
            if key is None:
                rep.und(ob, "method not found")
                continue
            for s, r in call(ob, key, [vref(dv)]):
                tri(rep, ob, eng, known(s, r) is exp, "returns %s" % t.show(r)[:80], (r,))
        if iskind(kind):
            continue
        dd = dv.a[2][0]
        inner = dd.a[2][0]
        ty = {"Func": "FunctionDecl", "Data": "DataDecl", "Sect": "SectionDecl"}[kind]
        ti, fl, _ = structval(eng, P + ty, "x")
        for m, exp in (("is_function", kind == "Func"), ("is_data", kind == "Data"), ("is_section", kind == "Sect")):
            key = have("DefinedDecl", m)
            ob = "DefinedDecl::%s[%s]" % (m, DK[kind])
            if key is None:
                rep.und(ob, "method not found")
                continue
            for s, r in call(ob, key, [vref(dd)]):
                tri(rep, ob, eng, known(s, r) is exp, "returns %s" % t.show(r)[:80], (r,))
        key = have("DefinedDecl", "get_align")
        for s, r in call("DefinedDecl::get_align", key, [vref(dd)]) if key else []:
            a = inner.a[2][fieldof(fl, "align")]
            tri(rep, "DefinedDecl::get_align[%s]" % DK[kind], eng, eng.val(s, r) is a or sameval(eng, s, r, a, fl[fieldof(fl, "align")]["t"]),
                "returns %s" % t.show(r)[:80], (r,))
        key = have("DefinedDecl", "is_writable")
        for s, r in call("DefinedDecl::is_writable", key, [vref(dd)]) if key else []:
            ob = "DefinedDecl::is_writable[%s]" % DK[kind]
            if kind == "Func":
                tri(rep, ob, eng, known(s, r) is False, "returns %s" % t.show(r)[:80], (r,))
            else:
                f = fieldof(fl, "writable" if kind == "Data" else "kind")
                x = inner.a[2][f]
                cases = [(x, 1, True), (x, 0, False)] if kind == "Data" else [
                    (eng.discr(s, x, fl[f]["t"]), variant(eng, P + "SectionKind", n)[1], n == "Data") for n in ("Data", "Debug", "Text")]
                for c, v, exp in cases:
                    s2 = s.copy()
                    if s2.assume(eq(c, I(v)), 1):
                        tri(rep, ob, eng, known(s2, r) is exp, "returns %s" % t.show(r)[:80], (r,))


def sameval(eng, s, r, want, ti):
    """r equals want on path s (enums compared by discriminant)"""
    if r is want:
        return True
    if r.op == "adt" and want.op != "adt":
        d = known(s, eq(eng.discr(s, want, ti), eng.discr(s, r, ti)))
        return d is True and all(eng.fld(want, r.a[1], i, None) is x for i, x in enumerate(r.a[2]))
    return False


# ---------------------------------------------------------------- sugar

def p_sugar(rep, eng):
    rep.rules.append("a new artifact is empty with the given name and target; the builder passes name, target and the library flag on; declare_with is "
                     "declare then define, stopping at the first error")
    sc = Sc(eng)
    eng.reset(sensitive=True)
    key = method(eng, "new")
    L = sc.L
    tv = eng.sym("TARGET", L.fty("target"))
    nv = eng.sym("NAME", L.fty("name"))

    def fresh(ob, v, name, target, lib):
        for ro in ("decls", "imports", "links", "local", "nonlocal"):
            c = sc.role(v, ro)
            tri(rep, ob + "/" + ro, eng, c.op == "coll" and not c.a[1], "starts with %s = %s" % (ro, t.show(c)[:100]), (c,))
        tri(rep, ob + "/name", eng, sc.role(v, "name") is name, "name becomes %s" % t.show(sc.role(v, "name"))[:80], (sc.role(v, "name"),))
        tri(rep, ob + "/target", eng, sc.role(v, "target") is target, "target becomes %s" % t.show(sc.role(v, "target"))[:80], (sc.role(v, "target"),))
        if "is_library" in L.role:
            tri(rep, ob + "/library", eng, sc.role(v, "is_library") is lib, "is_library becomes %s" % t.show(sc.role(v, "is_library"))[:80], (sc.role(v, "is_library"),))
    for s, r in eng.run(key, [tv, nv], State()):
        rep.paths += 1
        rep.eng(eng)
        fresh("Artifact::new", r, nv, tv, ZERO)
    B = "artifact::ArtifactBuilder"

    def bm(m):
        return method(eng, m, B)
    lib = eng.sym("LIB", eng.type_by_s("bool"))
    for withname in (0, 1):
        for withlib in (0, 1):
            eng.reset(sensitive=True)
            tv = eng.sym("TARGET", L.fty("target"))
            nv = eng.sym("NAME", L.fty("name"))
            lib = eng.sym("LIB", eng.type_by_s("bool"))
            ob = "ArtifactBuilder[%s%s]" % ("name" if withname else "", " library" if withlib else "")
            sts = [(s, r) for s, r in eng.run(bm("new"), [tv], State())]
            if withname:
                sts = [y for s, r in sts for y in eng.run(bm("name"), [r, nv], s)]
            if withlib:
                sts = [y for s, r in sts for y in eng.run(bm("library"), [r, lib], s)]
            sts = [y for s, r in sts for y in eng.run(bm("finish"), [r], s)]
            rep.eng(eng)
            rep.paths += len(sts)
            if not sts:
                rep.und(ob, "no outcome")
            for s, r in sts:
                fresh(ob, r, nv if withname else t.S("faerie.o"), tv, lib if withlib else ZERO)
    # declare_with
    key = method(eng, "declare_with")
    for a in (None,) + KINDS:
        for b in KINDS:
            for dfl in ((0,) if a is None or iskind(a) else (0, 1)):
                sc = Sc(eng)
                nm = sc.name()
                dv = mkdecl(eng, a, "old") if a else None
                nb = mkdecl(eng, b, "new")
                ref = sc.build([(nm, a, ONE if dfl else ZERO, dv)])
                by = datav(eng, "Blob")
                ob = "declare_with[%s%s, %s]" % (DK[a], " defined" if dfl else "", DK[b])
                for st, r in runop(rep, ob, eng, sc, key, [ref, vref(nm), nb, by.a[2][0]]) or []:
                    exp = mergecase(a, b, dv, nb, st)
                    if exp is None:
                        rep.und(ob, "redeclaration not separated")
                        continue
                    f = sc.final(st)
                    cur = nb if exp in ("new", "upgrade") else dv
                    if exp == "err":
                        want = "IncompatibleDeclaration"
                    elif cur.a[1] == variant(eng, DECL, "Import")[1]:
                        want = "ImportDefined"
                    elif dfl:
                        want = "DuplicateDefinition"
                    else:
                        want = None
                    if want:
                        n = errname(eng, r)[0] if iserr(r) else None
                        tri(rep, ob, eng, n == want, "gives %s, expected %s" % (t.show(r)[:100], want), (r,))
                        continue
                    if not tri(rep, ob, eng, isok(r), "gives %s" % t.show(r)[:100], (r,)):
                        continue
                    nd = newdefs(sc, f)
                    if nd is None:
                        rep.und(ob, "definitions not readable")
                        continue
                    good = len(nd) == 1
                    if good:
                        p = defparts(sc, nd[0][1])
                        good = p["decl"] is cur.a[2][0] and p["name"] is sc.id(nm) and p["data"] is by and p["symbols"].op == "coll" and not p["symbols"].a[1]
                    tri(rep, ob, eng, good, "records %s" % [t.show(x)[:100] for _, x in nd], tuple(x for _, x in nd))
