"""Abstract semantics of the library functions the analysed crate calls (collections, iterators,
strings, formatting, integer helpers, byte sinks).  Each model maps (state, abstract arguments) to
abstract results; anything without a model and without compiler IR becomes an uninterpreted value."""
from . import terms as t
from .terms import T, I, S, B, ZERO, ONE, UNIT, mk, tup, vref, coll, one, adt, fld, TY, typed, eq, not_

MODELS = {}
OPT = "core::option::Option"
RES = "core::result::Result"


def Uns(m):
    from .interp import Unsupported
    return Unsupported(m)


def NONE():
    return adt(OPT, 0)


def SOME(x):
    return adt(OPT, 1, x)


def OK(x=UNIT):
    return adt(RES, 0, x)


def ERR(x):
    return adt(RES, 1, x)


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ types of collections
KINDS = {
    "alloc::vec::Vec": "vec", "indexmap::map::IndexMap": "map", "std::collections::hash::map::HashMap": "hmap",
    "alloc::collections::btree::map::BTreeMap": "bmap", "alloc::collections::btree::set::BTreeSet": "set",
    "string_interner::interner::StringInterner": "interner", "indexmap::set::IndexSet": "set",
    "std::collections::hash::set::HashSet": "hset", "alloc::collections::vec_deque::VecDeque": "vec",
}
MAPS = ("map", "hmap", "bmap")
ELTY = {}      # seg -> ('seq', ty) or ('map', kty, vty)


def ckind(eng, ti):
    ti = eng.strip(ti)
    if ti is None:
        return None, None
    ty = eng.types[ti]
    if ty["k"] in ("slice", "array"):
        return "vec", ("seq", ty.get("inner"))
    k = KINDS.get(ty.get("path"))
    if k is None:
        return None, None
    a = ty.get("args", [])
    if k in MAPS:
        return k, ("map", a[0], a[1])
    if k == "interner":
        return k, ("str", None)
    return k, ("seq", a[0] if a else None)


def ascoll(eng, v, ti=None):
    if v.op == "coll":
        return v
    if v.op == "arr":
        return coll("vec", [one(x) for x in v.a[0]])
    if v.op == "arep":
        n = v.a[1]
        return coll("vec", [mk("fill", v.a[0], n if isinstance(n, T) else I(n))])
    if v.op == "bytes":
        return coll("vec", [one(I(b)) for b in v.a[0]]) if len(v.a[0]) <= 64 else coll("vec", [mk("many", v)])
    if v.op == "ite":
        raise Uns("collection under ite")
    ti = TY.get(v, ti)
    k, et = ckind(eng, ti) if ti is not None else (None, None)
    if k is None:
        if ti is not None and eng.types[eng.strip(ti)]["k"] == "str":
            return coll("vec", [mk("run", v)])
        raise Uns("not a collection: " + t.show(v)[:60])
    s = mk("many", v)
    ELTY.setdefault(s, et)
    if k == "interner":
        return coll("interner", [s], [mk("label", v)])
    return coll(k, [s])


def place(eng, st, v):
    return eng.resolve(st, v)


def getc(eng, st, v, ti=None):
    pl = eng.resolve(st, v)
    x = eng.load(st, pl)
    return pl, ascoll(eng, x, eng.strip(ti) if ti is not None else None)


def tysplit(eng, ti):
    k, et = ckind(eng, ti)
    return et


# ------------------------------------------------------------------ element access (places)
SLOT = {}


def coll_at(eng, st, v, e):
    """value of path element e inside collection v"""
    k = e[0]
    if k == "seg":
        return v.a[1][e[1]].a[0]
    if k == "slot":
        seg, key = e[1], e[2]
        if v.op == "coll":
            for u in reversed(v.a[2]):
                if u.op == "upd" and u.a[0] is seg and u.a[1] is key:
                    return u.a[2]
                if u.op == "upd" and u.a[0] is seg or u.op in ("replog", "prelog"):
                    x = mk("slotv", seg, key, u)
                    b = SLOT.get((seg, key))
                    return t.keepty(b, x) if b is not None else x
        return SLOT[(seg, key)]
    if k == "at":
        idx = st.known(e[1]) if st is not None else e[1]
        if v.op in ("str", "bytes") and idx.op == "int":
            b = v.a[0] if v.op == "bytes" else v.a[0].encode()
            return I(b[idx.a[0]])
        c = ascoll(eng, v)
        f = seqfind(eng, st, c, idx)
        if f is None:
            x = mk("idx", v, idx)
            for s in c.a[1]:
                et = ELTY.get(s)
                if et and et[0] == "seq":
                    typed(x, et[1])
            return x
        return f[1]
    raise Uns("coll path " + str(k))


def coll_set(eng, st, v, e, rest, val):
    k = e[0]
    if k == "seg":
        segs = list(v.a[1])
        segs[e[1]] = one(eng.setp(st, segs[e[1]].a[0], rest, val))
        return mk("coll", v.a[0], tuple(segs), v.a[2])
    if k == "slot":
        c = ascoll(eng, v)
        old = coll_at(eng, st, c, e)
        new = eng.setp(st, old, rest, val)
        log = c.a[2]
        if log and log[-1].op == "upd" and log[-1].a[0] is e[1] and log[-1].a[1] is e[2]:
            log = log[:-1]
        return mk("coll", c.a[0], c.a[1], log + (mk("upd", e[1], e[2], new),))
    if k == "at":
        idx = st.known(e[1]) if st is not None else e[1]
        if v.op == "arep" and idx.op == "int" and isinstance(v.a[1], int) and v.a[1] <= 64:
            v = mk("arr", tuple([v.a[0]] * v.a[1]))
        if v.op == "arr" and idx.op == "int":
            fs = list(v.a[0])
            fs[idx.a[0]] = eng.setp(st, fs[idx.a[0]], rest, val)
            return mk("arr", tuple(fs))
        c = ascoll(eng, v)
        f = seqfind(eng, st, c, idx)
        if f is not None and f[0] is not None:
            return coll_set(eng, st, c, ("seg", f[0]), rest, val)
        seg = mk("whole", c.a[0], c.a[1])
        SLOT.setdefault((seg, idx), coll_at(eng, st, c, ("at", idx)))
        return coll_set(eng, st, c, ("slot", seg, idx), rest, val)
    raise Uns("coll store " + str(k))


def seqfind(eng, st, c, idx):
    """element number idx -> (segment position or None, value) or None"""
    pos = ZERO
    for j, s in enumerate(c.a[1]):
        n = t.segcount(s)
        d = t.sub(idx, pos)
        if st is not None:
            d = st.known(d)
        if s.op == "one":
            if d is ZERO:
                return j, s.a[0]
            pos = t.add(pos, ONE)
            continue
        lim = t.lt(d, n)
        if st is not None:
            lim = st.known(lim)
        if d.op == "int" and n.op == "int":
            if 0 <= d.a[0] < n.a[0] and s.op == "fill":
                return None, s.a[0]
        elif s.op == "fill" and len(c.a[1]) == 1:
            return None, s.a[0]
        elif lim is ZERO:
            pass
        elif d.op != "int" or not (d.a[0] < 0):
            # cannot tell in which segment
            e = element_at(eng, st, s, d)
            return (None, e) if e is not None and len(c.a[1]) == j + 1 else None
        pos = t.add(pos, n)
    return None


def element_at(eng, st, s, d):
    """element number d of a segment, when it can be named by an iteration symbol"""
    if s.op == "rep":
        L, alts = s.a
        if all(len(a) == 1 and a[0].op == "one" for a in alts) and len(set(alts)) == 1:
            v = alts[0][0].a[0]
            if not t.mentions(v, L):
                return v
    return None


# ------------------------------------------------------------------ lookup by key
def match(p, k, L):
    """is k the term p with the index symbols of loop L renamed to some N? -> N"""
    found = []
    seen = set()

    def m(a, b):
        if (a, b) in seen:
            return True
        if not t.mentions(a, L):
            return a is b
        if not m1(a, b):
            return False
        seen.add((a, b))
        return True

    def m1(a, b):
        if not isinstance(b, T) or a.op != b.op or len(a.a) != len(b.a):
            return False
        if a.op in t.INDEX_OPS:
            q = t.INDEX_OPS[a.op]
            if a.a[q] is L:
                N = b.a[q]
                if found and found[0] is not N:
                    return False
                if not found:
                    found.append(N)
                return all(i == q or mm(x, y) for i, (x, y) in enumerate(zip(a.a, b.a)))
        return all(mm(x, y) for x, y in zip(a.a, b.a))

    def mm(x, y):
        if isinstance(x, T):
            return isinstance(y, T) and m(x, y)
        if isinstance(x, tuple):
            return isinstance(y, tuple) and len(x) == len(y) and all(mm(p, q) for p, q in zip(x, y))
        return x == y
    if m(p, k) and found:
        return found[0]
    return None


def lookupval(eng, seg, key, et):
    k = (seg, key)
    if k in SLOT:
        return SLOT[k]
    x = mk("lookup", seg, key)
    if et is not None:
        typed(x, et[2] if et[0] == "map" else et[1])
    SLOT[k] = x
    return x


def etof(eng, c, et):
    if et is not None:
        return et
    for s in c.a[1]:
        if s in ELTY:
            return ELTY[s]
    return None


def strkey(k):
    """the string a key stands for: interned positions and strings; None for other keys"""
    if k.op == "vref":
        k = k.a[0]
    if k.op == "id":
        return k.a[0], k.a[1]
    if t.stringy(k) or (k in TY and ISSTR(k)):
        return None, k
    return None


ISSTR = lambda x: False


def distinct(eng, k1, k2):
    """under the no-collision assumption: are two string keys equal? ONE / ZERO / None (not string keys)"""
    if not eng.nocoll:
        return None
    a, b = strkey(k1), strkey(k2)
    if a is None and b is not None and k1.op == "int":
        a = (b[0], t.INTID.get((b[0], k1.a[0])))
    if b is None and a is not None and k2.op == "int":
        b = (a[0], t.INTID.get((a[0], k2.a[0])))
    if a is None or b is None or a[1] is None or b[1] is None:
        return None
    return B(a[1] is b[1])


def keyeq(eng, st, a, b):
    """are two keys equal?  names are distinct"""
    a, b = (x.a[0] if x.op == "vref" else x for x in (a, b))
    e = distinct(eng, a, b)
    if e is not None:
        return e
    if a.op == b.op == "tup" and len(a.a[0]) == len(b.a[0]):
        r = ONE
        for x, y in zip(a.a[0], b.a[0]):
            r = t.and_(r, keyeq(eng, st, x, y))
        return st.known(r)
    return st.known(eng.eqv(st, eng.val(st, a), b))


def candidates(eng, st, c, key):
    """-> (definite hit or None, [possible segment positions])"""
    cand = []
    for j, s in enumerate(c.a[1]):
        if s.op == "one":
            kk = s.a[0].a[0][0] if c.a[0] in MAPS else s.a[0]
            e = keyeq(eng, st, kk, key)
            if e is ONE:
                return ("seg", j), []
            if e is not ZERO:
                cand.append((j, e))
            continue
        if s.op == "rep":
            L, alts = s.a
            rec = t.LOOPS.get(L)
            may = False
            found = [None] * len(alts)      # value of the entry each alternative leaves under this key
            at = None
            dead = set()
            for ai, items in enumerate(alts):
                for it in items:
                    if it.op != "one":
                        may = True
                        continue
                    kk = it.a[0].a[0][0] if c.a[0] in MAPS else it.a[0]
                    kk = kk.a[0] if kk.op == "vref" else kk
                    N = match(kk, key, L)
                    if N is not None and N is not L:
                        s2 = st.copy()
                        if not assume_alt(eng, s2, rec, ai, [(L, N)]):
                            dead.add(ai)
                        elif at is None or at is N:
                            at = N
                            found[ai] = it.a[0].a[0][1] if c.a[0] in MAPS else it.a[0]
                        else:
                            may = True
                        continue
                    if distinct(eng, kk, key) is not None or kk.op == "tup" and keyeq(eng, st, kk, key) is ZERO:
                        continue
                    N2 = mk("Lany", L)
                    if eq(t.rename(kk, L, N2), key) is ZERO:
                        continue
                    may = True
            if at is not None:
                live = [ai for ai in range(len(alts)) if ai not in dead]
                if len(live) > 1:
                    # alternatives that leave no entry must be excluded here
                    for ai in list(live):
                        if found[ai] is None and not assume_alt(eng, st.copy(), rec, ai, [(L, at)]):
                            live.remove(ai)
                if not may and all(found[ai] is not None for ai in live):
                    vs = [found[ai] for ai in live]
                    v = vs[0]
                    if any(x is not v for x in vs):
                        v = t.gate(rec, [x if x is not None else vs[0] for x in found])
                    if v is not None:
                        return ("rep", j, live[0], at, t.rename(v, L, at)), []
                may = True
            if may:
                cand.append((j, None))
            continue
        h = eng.keyhook(st, s, key) if eng.keyhook else None
        if h is False:
            continue
        if h is True:
            return ("sym", j), []
        if s.op == "pre" and eng.nocoll and strkey(key) is not None and t.mentions(key, s.a[0]):
            # entries of earlier iterations are keyed by other elements
            continue
        # element drawn from this very segment
        if key.op == "fld" and key.a[0].op == "el" and key.a[0].a[0] is s or (key.op == "el" and key.a[0] is s):
            return ("elem", j, key), []
        hs = st.known(mk("has", s, key))
        if hs is ONE:
            return ("sym", j), []
        if hs is ZERO:
            continue
        cand.append((j, None))
    return None, cand


def assume_alt(eng, st, rec, ai, ren):
    if rec is None:
        return True
    for f, v in rec.alts[ai].facts.items():
        for L, N in ren:
            f = t.rename(f, L, N)
        if not assume_fact(st, f, v):
            return False
    for c in rec.alts[ai].disj:
        ls = []
        for l in c:
            for L, N in ren:
                l = t.rename(l, L, N)
            ls.append(l)
        if c and t.ONE in ls:
            continue
        st.disj = st.disj | {frozenset(l for l in ls if l is not t.ZERO)} if ls and not all(l is t.ZERO for l in ls) or not c else st.disj
        if c and all(l is t.ZERO for l in ls):
            return False
    return not st.refuted()


def assume_fact(st, f, v):
    if f.op == "int":
        return (f.a[0] == v[1]) if v[0] == "eq" else f.a[0] not in v[1]
    if v[0] == "eq":
        if t.isbool(f):
            return st.assume(f, v[1])
        return st.setint(f, v[1], 1)
    for n in v[1]:
        if not st.setint(f, n, 0):
            return False
    return True


def idx_of(eng, c, hit):
    """position of a hit inside an ordered map"""
    j = hit[1]
    pos = t.addl(*[t.segcount(s) for s in c.a[1][:j]]) if j else ZERO
    if hit[0] == "seg":
        return pos
    return None


def mapfind(eng, st, c, key, et=None):
    """[(state, hit or None, value, path element, index)]"""
    et = etof(eng, c, et)
    key = st.known(key) if key.op not in ("adt",) else key
    hit, cand = candidates(eng, st, c, key)
    if hit is not None:
        return [(st,) + hitval(eng, st, c, hit, key, et)]
    if not cand:
        return [(st, None, None, None, None)]
    if all(e is not None for _, e in cand):
        # concrete entries only
        out = []
        cur = [st]
        for j, e in cand:
            nxt = []
            for s in cur:
                for b, s2 in eng.fork(s, e):
                    if b:
                        out.append((s2,) + hitval(eng, s2, c, ("seg", j), key, et))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, None, None, None, None) for s in cur]
    seg = c.a[1][cand[0][0]] if len(cand) == 1 else mk("whole", c.a[0], c.a[1])
    pos = t.addl(*[t.segcount(s) for s in c.a[1][:cand[0][0]]]) if len(cand) == 1 and cand[0][0] else ZERO
    out = []
    for b, s in eng.fork(st, mk("has", seg, key)):
        if b:
            v = lookupval(eng, seg, key, et)
            out.append((s, "slot", coll_at(eng, s, c, ("slot", seg, key)), ("slot", seg, key),
                        t.add(pos, mk("idxof", seg, key))))
        else:
            out.append((s, None, None, None, None))
    return out


def hitval(eng, st, c, hit, key, et):
    j = hit[1]
    s = c.a[1][j]
    ismap = c.a[0] in MAPS
    pos = t.addl(*[t.segcount(x) for x in c.a[1][:j]]) if j else ZERO
    if hit[0] == "seg":
        e = s.a[0]
        return "seg", (e.a[0][1] if ismap else e), ("seg", j), pos
    if hit[0] == "rep":
        SLOT.setdefault((s, key), hit[4])
        return "slot", coll_at(eng, st, c, ("slot", s, key)), ("slot", s, key), t.add(pos, mk("idxof", s, key))
    if hit[0] == "elem":
        if ismap:
            v = eng.fld(key.a[0], 0, 1, et[2] if et else None)
            SLOT.setdefault((s, key), v)
        else:
            SLOT.setdefault((s, key), key)
        return "slot", coll_at(eng, st, c, ("slot", s, key)), ("slot", s, key), t.add(pos, mk("idxof", s, key))
    lookupval(eng, s, key, et)
    return "slot", coll_at(eng, st, c, ("slot", s, key)), ("slot", s, key), t.add(pos, mk("idxof", s, key))


def valpath(c, pe):
    """path elements from the collection to the map value / sequence element"""
    if pe[0] == "seg" and c.a[0] in MAPS:
        return (pe, ("pf", 1, None))
    return (pe,)


def subref(eng, pl, c, pe, val):
    if pl[0] == "c":
        return mk("ref", pl[1], tuple(pl[2]) + valpath(c, pe))
    return vref(val)


def writeback(eng, st, pl, c):
    if pl[0] == "c":
        eng.storeto(st, pl, c)
    else:
        raise Uns("mutation of immutable collection")


def kval(eng, st, v):
    return eng.val(st, v)


# ------------------------------------------------------------------ constructors
def newc(kind):
    def f(eng, st, args, call):
        return [(st, coll(kind))]
    return f


for _p, _k in KINDS.items():
    if _k != "interner":
        for _m in ("new", "with_capacity", "default"):
            MODELS[_p + "::" + _m] = newc(_k)

_lab = [0]


@model("string_interner::interner::StringInterner::new", "string_interner::interner::StringInterner::with_capacity")
def interner_new(eng, st, args, call):
    _lab[0] += 1
    return [(st, coll("interner", (), (mk("label", _lab[0]),)))]


@model("core::default::Default::default")
def default(eng, st, args, call):
    k, _ = ckind(eng, call.destty)
    if k == "interner":
        return interner_new(eng, st, args, call)
    if k is not None:
        return [(st, coll(k))]
    ty = eng.types[call.destty]
    if ty["k"] == "int":
        return [(st, ZERO)]
    if ty["k"] == "bool":
        return [(st, ZERO)]
    if ty.get("path") == "alloc::string::String":
        return [(st, S(""))]
    if ty.get("path") == OPT:
        return [(st, NONE())]
    if ty.get("path") == "core::marker::PhantomData":
        return [(st, adt(ty["path"], 0))]
    if ty.get("path") == "scroll::endian::Endian":
        # the host's byte order; this analysis is for a little-endian 64-bit host
        return [(st, adt(ty["path"], 0))]
    if ty["k"] == "array":
        return None
    return None


# ------------------------------------------------------------------ sequences
VEC = "alloc::vec::Vec::"


@model(VEC + "push", "alloc::collections::vec_deque::VecDeque::push_back")
def vec_push(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    writeback(eng, st, pl, mk("coll", c.a[0], c.a[1] + (one(args[1]),), c.a[2]))
    return [(st, UNIT)]


def clen(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    x = eng.load(st, pl)
    n = t.length(x)
    if n.op != "int" and x.op == "coll" and x.a[0] not in MAPS and not x.a[2] and not all(onetoone(s) for s in x.a[1]):
        LENS[n] = x
    return [(st, n)]


# a length -> the sequence it was asked of, for sequences whose positions have no closed form
LENS = {}


for _p in list(KINDS) + ["core::slice", "core::str", "alloc::string::String"]:
    MODELS[_p + "::len"] = clen


def cempty(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    x = eng.load(st, pl)
    return [(st, eq(t.length(x), ZERO))]


for _p in list(KINDS) + ["core::slice", "core::str", "alloc::string::String"]:
    MODELS[_p + "::is_empty"] = cempty


@model(VEC + "swap_remove", VEC + "remove", "indexmap::map::IndexMap::shift_remove_index", "indexmap::map::IndexMap::swap_remove_index")
def vec_remove(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    idx = st.known(args[1])
    if idx.op == "posin":
        # the position of an element met while counting through this very sequence
        e = eng.val(st, idx.a[1])
        f = [(st, j) for j, s in enumerate(c.a[1]) if s.op == "one" and s.a[0] is e] if c is idx.a[0] else []
        if len(f) != 1:
            raise Uns("remove at a position that is not resolved")
    else:
        f = seqfind_fork(eng, st, c, idx)
    swap = "swap" in call.np
    out = []
    for s, j in f:
        segs = list(c.a[1])
        if j is None:
            v = coll_at(eng, s, c, ("at", idx))
            s2 = s
            log = c.a[2] + (mk("remove", idx),)
            writeback(eng, s2, pl, mk("coll", c.a[0], tuple(segs), log))
            out.append((s2, v))
            continue
        v = segs.pop(j).a[0]
        if swap and j < len(segs):
            log = c.a[2] + (mk("swapped", I(j)),)
        else:
            log = c.a[2]
        # order of a swap-removed vector is not tracked beyond this marker
        writeback(eng, s, pl, mk("coll", c.a[0], tuple(segs), log))
        if call.np.startswith("indexmap"):
            v = SOME(v)
        out.append((s, v))
    return out


def seqfind_fork(eng, st, c, idx):
    r = seqfind(eng, st, c, idx)
    if r is not None:
        return [(st, r[0])]
    # idx may be an enumerate counter: compare with the position of every concrete element
    pos = ZERO
    for j, s in enumerate(c.a[1]):
        if s.op == "one" and eq(idx, pos) is ONE:
            return [(st, j)]
        pos = t.add(pos, t.segcount(s))
    return [(st, None)]


def running(eng, st, L, n):
    """is an iterator over n elements at its iteration L?"""
    for v in st.store.values():
        todo = [v]
        while todo:
            x = todo.pop()
            if x.op == "iter" and len(x.a) == 3:
                if x.a[2].op == "took" and x.a[2].a[0] is L and x.a[0]:
                    m = superiters(x.a[0][0].a[0])
                    if m is n or eq(m, n) is ONE:
                        return True
            elif x.op in ("adt", "tup"):
                todo += [y for y in x.a[-1] if isinstance(y, T)]
    return False


def slotat(eng, st, segs, idx):
    """element number idx of a sequence, by what is known of the index: [(state, element | None: past the end)] or None"""
    if not segs:
        return [(st, None)]
    s = segs[0]
    n = t.segcount(s)
    d = st.known(idx)
    if s.op == "one":
        if d is ZERO:
            return [(st, s.a[0])]
        if st.known(t.lt(d, ONE)) is ZERO:
            return slotat(eng, st, segs[1:], t.sub(d, ONE))
        return None
    if s.op not in ("many", "run", "fill", "range", "rep", "lg") or not onetoone(s):
        return None
    if st.known(t.lt(d, n)) is ZERO:
        return slotat(eng, st, segs[1:], t.sub(d, n))
    if d is ZERO:
        out = []
        for b, s1 in eng.fork(st, eq(n, ZERO)):
            if b:
                r = slotat(eng, s1, segs[1:], ZERO)
                if r is None:
                    return None
                out += r
            else:
                out += elems(eng, s1, s, ZERO)
        return out
    c, m = t._lin(d)
    L = next((x.a[0] for x, k in m.items() if x.op == "iter" and k == 1), None)
    if L is None or len(m) != 1 or c not in (0, 1) or not running(eng, st, L, n):
        return None
    if c == 0:
        return elems(eng, st, s, L)
    out = []
    for b, s1 in eng.fork(st, eq(d, n)):
        if b:
            r = slotat(eng, s1, segs[1:], ZERO)
            if r is None:
                return None
            out += r
        else:
            out += elems(eng, s1, s, mk("Lnext", L))
    return out


def seqslot(eng, st, v, ti, idx):
    pl, c = getc(eng, st, v, ti)
    if c.op != "coll" or c.a[0] in MAPS or c.a[2] or idx.op not in t.NUMOPS and idx.op != "int":
        return None
    et = tysplit(eng, eng.strip(ti)) if ti is not None else None
    for s in c.a[1]:
        if et is not None and s not in ELTY:
            ELTY[s] = et
    return slotat(eng, st, c.a[1], idx)


@model("core::slice::last", VEC + "last")
def slice_last(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    if c.op != "coll" or c.a[0] in MAPS or c.a[2]:
        return None
    et = tysplit(eng, eng.strip(call.argtys[0]))
    out, cur = [], [st]
    for s in reversed(c.a[1]):
        nxt = []
        for s0 in cur:
            if s.op == "one":
                out.append((s0, SOME(vref(s.a[0]))))
                continue
            if s.op not in ("many", "run"):
                return None
            if et is not None and s not in ELTY:
                ELTY[s] = et
            n = t.segcount(s)
            for b, s1 in eng.fork(s0, eq(n, ZERO)):
                if b:
                    nxt.append(s1)
                else:
                    out += [(s2, SOME(vref(e))) for s2, e in elems(eng, s1, s, t.sub(n, ONE))]
        cur = nxt
    return out + [(s0, NONE()) for s0 in cur]


@model(VEC + "truncate", "alloc::string::String::truncate")
def vec_truncate(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    c = eng.load(st, pl)
    out = []
    for b, s in eng.fork(st, t.lt(args[1], t.length(c))):
        if b:
            if c.op != "coll" or c.a[0] in MAPS:
                return None
            if st.known(args[1]).op != "int":
                eng.note("truncate", "truncated at an unknown length")
            writeback(eng, s, pl, mk("coll", c.a[0], (mk("run", mk("cutoff", c, args[1])),), ()))
        out.append((s, UNIT))
    return out


@model("core::slice::get", "core::slice::first", VEC + "get", VEC + "first")
def slice_get(eng, st, args, call):
    idx = ZERO if call.np.endswith("first") else args[1]
    if len(args) > 1 and eng.types[call.argtys[1]]["k"] != "int":
        if idx.op == "adt" and "Range" in idx.a[0]:
            return [(s, NONE() if v is None else SOME(vref(v))) for s, v in subslice(eng, st, eng.val(st, args[0]), idx, call.line, False)]
        return None
    if idx.op == "posin" and getc(eng, st, args[0], call.argtys[0])[1] is idx.a[0]:
        return [(st, SOME(idx.a[1]))]
    r = seqslot(eng, st, args[0], call.argtys[0], idx)
    if r is None:
        return None
    return [(s, NONE() if e is None else SOME(vref(e))) for s, e in r]


@model("core::slice::iter", "core::slice::iter::Iter::next_", VEC + "iter")
def slice_iter(eng, st, args, call):
    return mkiter(eng, st, args[0], "ref", call)


def mkiter(eng, st, v, shape, call, consume=False):
    ti = eng.strip(call.argtys[0])
    pl, c = getc(eng, st, v, ti)
    et = tysplit(eng, ti) if ti is not None else None
    if c.a[0] in ("hmap", "hset"):
        eng.hashiter.append((tuple(eng.stack), getattr(eng, "line", 0)))
    it = iterof(eng, c, shape, et, pl)
    return [(st, it)]


def iterof(eng, c, shape, et, pl=None):
    segs = []
    for j, s in enumerate(c.a[1]):
        if et is not None and s not in ELTY:
            ELTY[s] = et
        if s.op != "one" and any(u.op in ("upd", "replog", "prelog", "remove") for u in c.a[2]):
            s2 = mk("lg", s, c.a[2])
            if s in ELTY:
                ELTY[s2] = ELTY[s]
            s = s2
        if shape in ("mut", "kvmut", "vmut"):
            if s.op != "one" or pl is None or pl[0] != "c":
                raise Uns("iter_mut over symbolic collection")
            r = mk("ref", pl[1], tuple(pl[2]) + valpath(c, ("seg", j)))
            e = r if shape != "kvmut" else tup(vref(s.a[0].a[0][0]), r)
            segs.append(mk("is", one(e), ()))
            continue
        if c.a[0] in MAPS:
            sh = {"ref": "kvref", "own": "own"}.get(shape, shape)
        elif c.a[0] == "interner":
            sh = "stri"
        else:
            sh = shape
        segs.append(mk("is", s, (mk("sh", sh),)))
    return mk("iter", tuple(segs), (), mk("fresh"))


for _p in list(KINDS):
    def _mki(shape):
        return lambda eng, st, args, call: mkiter(eng, st, args[0], shape, call)
    MODELS[_p + "::iter"] = _mki("ref")
    MODELS[_p + "::values"] = _mki("vref")
    MODELS[_p + "::keys"] = _mki("kref")
    MODELS[_p + "::into_values"] = _mki("vown")
    MODELS[_p + "::into_keys"] = _mki("kown")
    MODELS[_p + "::iter_mut"] = lambda eng, st, args, call: mkiter(
        eng, st, args[0], "kvmut" if ckind(eng, call.argtys[0])[0] in MAPS else "mut", call)
    MODELS[_p + "::values_mut"] = _mki("vmut")
MODELS["core::slice::iter_mut"] = _mki("mut")


def drain(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    r = mkiter(eng, st, args[0], "own", call)
    if len(args) > 1 and args[1].op == "adt" and "RangeFull" not in args[1].a[0]:
        raise Uns("partial drain")
    writeback(eng, st, pl, mk("coll", c.a[0], (), ()))
    return r


for _p in list(KINDS):
    MODELS[_p + "::drain"] = drain


def unrep(s):
    """a repetition that takes every element of a population as it is, is the population"""
    if s.op == "rep" and len(s.a[1]) == 1 and len(s.a[1][0]) == 1 and s.a[1][0][0].op == "one":
        e = s.a[1][0][0].a[0]
        rec = t.LOOPS.get(s.a[0])
        if e.op == "el" and e.a[1] is s.a[0] and e.a[0].op == "many" and rec is not None and rec.n is t.segcount(e.a[0]):
            return e.a[0]
    return s


@model(VEC + "retain")
def vec_retain(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    ti = eng.strip(call.argtys[0])
    it = iterof(eng, c, "own", tysplit(eng, ti) if ti is not None else None, pl)
    it = mk("iter", it.a[0], it.a[1] + (mk("op_filter", args[1]),), it.a[2])

    def body(s, x, cells):
        s.store[cells["a"]] = appendto(eng, s, "vec", s.store[cells["a"]], x)
        return [(s, "go")]
    out = []
    for _, s, v in consume(eng, st, it, {"a": coll("vec")}, body):
        v = v["a"]
        writeback(eng, s, pl, mk("coll", v.a[0], tuple(unrep(x) for x in v.a[1]), v.a[2]))
        out.append((s, UNIT))
    return out


def cclear(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    writeback(eng, st, pl, mk("coll", c.a[0], (), tuple(x for x in c.a[2] if x.op == "label")))
    return [(st, UNIT)]


for _p in list(KINDS):
    MODELS[_p + "::clear"] = cclear
for _m in ("reserve", "shrink_to_fit", "reserve_exact"):
    for _p in list(KINDS) + ["alloc::string::String"]:
        MODELS[_p + "::" + _m] = lambda eng, st, args, call: [(st, UNIT)]


@model("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(eng, st, args, call):
    v = args[0]
    if v.op == "iter":
        return [(st, v)]
    ti = call.argtys[0]
    ty = eng.types[ti]
    if ty["k"] == "ref":
        x = eng.val(st, v)
        if x.op == "iter":
            return [(st, v)]
        if ty.get("mut"):
            k = ckind(eng, ti)[0]
            return mkiter(eng, st, v, "kvmut" if k in MAPS else "mut", call)
        return mkiter(eng, st, v, "ref", call)
    if ty.get("path", "").startswith("core::ops::range::Range"):
        return [(st, rangeiter(v))]
    if ty.get("path") == OPT:
        out = []
        d = eng.discr(st, v, ti)
        for b, s in eng.fork(st, eq(d, ONE)):
            segs = (mk("is", one(eng.fld(v, 1, 0, ty["args"][0])), (mk("sh", "own"),)),) if b else ()
            out.append((s, mk("iter", segs, (), mk("fresh"))))
        return out
    if ckind(eng, ti)[0] is not None:
        return mkiter(eng, st, v, "own", call)
    return [(st, v)]


def rangeiter(v):
    if len(v.a[2]) == 1:
        return mk("iter", (mk("is", mk("range", v.a[2][0], mk("inf")), (mk("sh", "own"),)),), (), mk("fresh"))
    a, b = v.a[2][0], v.a[2][1]
    if "Inclusive" in v.a[0]:
        b = t.add(b, ONE)
    c = LENS.get(b) if a is ZERO else None
    if c is not None:
        # counting through a sequence: the counter stands for the element it selects
        return mk("iter", tuple(mk("is", s, (mk("sh", "ref"), mk("op_pos", c))) for s in c.a[1]), (), mk("fresh"))
    if a.op == "int" and b.op == "int" and b.a[0] - a.a[0] <= 96:
        segs = tuple(mk("is", one(I(i)), (mk("sh", "own"),)) for i in range(a.a[0], max(a.a[0], b.a[0])))
    else:
        segs = (mk("is", mk("range", a, b), (mk("sh", "own"),)),)
    return mk("iter", segs, (), mk("fresh"))


@model("core::ops::range::RangeInclusive::new")
def rinc(eng, st, args, call):
    return [(st, adt("core::ops::range::RangeInclusive", 0, args[0], args[1], ZERO))]


# adapters
IT = "core::iter::traits::iterator::Iterator::"


def asiter(eng, st, v):
    if v.op in ("ref", "vref"):
        v = eng.val(st, v)
    if v.op == "adt" and v.a[0].startswith("core::ops::range::Range"):
        v = rangeiter(v)
    if v.op != "iter":
        raise Uns("not an iterator: " + v.op)
    return v


def addop(op):
    def f(eng, st, args, call):
        it = asiter(eng, st, args[0])
        return [(st, mk("iter", it.a[0], it.a[1] + (op(*args[1:]),), it.a[2]))]
    return f


MODELS[IT + "map"] = addop(lambda f: mk("op_map", f))
MODELS[IT + "filter"] = addop(lambda f: mk("op_filter", f))
MODELS[IT + "filter_map"] = addop(lambda f: mk("op_fmap", f))
MODELS[IT + "inspect"] = addop(lambda f: mk("op_inspect", f))
MODELS[IT + "take_while"] = addop(lambda f: mk("op_takew", f))
MODELS[IT + "enumerate"] = addop(lambda: mk("op_enum", ZERO))
MODELS[IT + "cloned"] = addop(lambda: mk("op_cloned"))
MODELS[IT + "copied"] = addop(lambda: mk("op_cloned"))
for _m in ("peekable", "by_ref", "fuse", "into_iter"):
    MODELS[IT + _m] = lambda eng, st, args, call: [(st, args[0])]


def flat(eng, st, it):
    """flattening of collections held by single elements: their segments in turn (None: not that)"""
    if it.a[2].op != "fresh" or not it.a[0] or any(s.a[0].op != "one" for s in it.a[0]):
        return None
    cur = [(st, (), it.a[1])]
    for seg in it.a[0]:
        nxt = []
        for s, segs, ops in cur:
            for s2, x, nops in applyops(eng, s, seg.a[0].a[0], seg.a[1] + ops):
                nops = nops[len(seg.a[1]):]
                if isinstance(x, str):
                    raise Uns("flatten of a stopped iterator")
                if x is None:
                    nxt.append((s2, segs, nops))
                    continue
                new = subsegs(eng, s2, x)
                if new is None:
                    return None
                nxt.append((s2, segs + new, nops))
        cur = nxt
    for s, _, ops in cur:
        ds = []
        eng.statediff(st, s, ds)
        if ds:
            raise Uns("flattening with effects")
    return [(s, mk("iter", segs, (), mk("fresh"))) for s, segs, ops in cur]


def subsegs(eng, st, x):
    """the segments of a collection or iterator, each with what is applied to its elements"""
    if x.op == "adt" and x.a[0].startswith("core::ops::range::Range"):
        x = rangeiter(x)
    if x.op == "iter":
        if x.a[2].op != "fresh" or any(o.op in ("op_enum", "op_takew") for o in x.a[1]):
            return None
        return tuple(mk("is", s.a[0], s.a[1] + x.a[1]) for s in x.a[0])
    own = x.op == "coll"
    v = x if own else eng.val(st, x) if x.op in ("ref", "vref") else x
    if v.op != "coll" or v.a[0] not in ("vec", "sorted", "arr"):
        return None
    return tuple(mk("is", s, (mk("sh", "own" if own else "ref"),)) for s in v.a[1])


@model(IT + "flatten")
def flatten(eng, st, args, call):
    it = asiter(eng, st, args[0])
    r = flat(eng, st, it)
    return r if r is not None else [(st, mk("iter", it.a[0], it.a[1] + (mk("op_flat"),), it.a[2]))]


@model(IT + "flat_map")
def flat_map(eng, st, args, call):
    it = asiter(eng, st, args[0])
    it = mk("iter", it.a[0], it.a[1] + (mk("op_map", args[1]),), it.a[2])
    r = flat(eng, st, it)
    return r if r is not None else [(st, mk("iter", it.a[0], it.a[1] + (mk("op_flat"),), it.a[2]))]


@model(IT + "chain")
def chain(eng, st, args, call):
    a = asiter(eng, st, args[0])
    b = args[1]
    if b.op != "iter":
        r = into_iter(eng, st, [b], type(call)(call.callee, call.argtys[1:], call.destty, call.line, call.np))
        b = r[0][1]
    if a.a[2].op != "fresh" or b.a[2].op != "fresh":
        raise Uns("chain of started iterator")
    if a.a[1] == b.a[1] and not a.a[1]:
        return [(st, mk("iter", a.a[0] + b.a[0], (), mk("fresh")))]
    segs = []
    for x in (a, b):
        if any(o.op == "op_enum" for o in x.a[1]):
            raise Uns("chain of enumerate")
        segs += [mk("is", s.a[0], s.a[1] + x.a[1]) for s in x.a[0]]
    return [(st, mk("iter", tuple(segs), (), mk("fresh")))]


@model(IT + "rev")
def rev(eng, st, args, call):
    it = asiter(eng, st, args[0])
    if any(o.op == "op_enum" for o in it.a[1]):
        raise Uns("rev of enumerate")
    segs = tuple(s if s.a[0].op == "one" else mk("is", mk("rev", s.a[0]), s.a[1]) for s in reversed(it.a[0]))
    for s in it.a[0]:
        if s.a[0] in ELTY:
            ELTY[mk("rev", s.a[0])] = ELTY[s.a[0]]
    return [(st, mk("iter", segs, it.a[1], it.a[2]))]


@model(IT + "skip")
def skip(eng, st, args, call):
    it = asiter(eng, st, args[0])
    n = st.known(args[1])
    if n.op != "int" or it.a[1]:
        raise Uns("skip")
    segs = list(it.a[0])
    for _ in range(n.a[0]):
        if not segs:
            break
        if segs[0].a[0].op != "one":
            raise Uns("skip of symbolic")
        segs.pop(0)
    return [(st, mk("iter", tuple(segs), it.a[1], it.a[2]))]


@model(IT + "take")
def take(eng, st, args, call):
    it = asiter(eng, st, args[0])
    n = st.known(args[1])
    if n.op == "int" and len(it.a[0]) >= n.a[0] and all(s.a[0].op == "one" for s in it.a[0][:n.a[0]]):
        return [(st, mk("iter", it.a[0][:n.a[0]], it.a[1], it.a[2]))]
    if len(it.a[0]) == 1 and it.a[0][0].a[0].op == "fill" and it.a[0][0].a[0].a[1].op == "inf":
        s = it.a[0][0]
        return [(st, mk("iter", (mk("is", mk("fill", s.a[0].a[0], n), s.a[1]),), it.a[1], it.a[2]))]
    keep = ("sh", "op_map", "op_inspect", "op_enum", "op_cloned", "op_pos")
    if n.op == "int" and it.a[2].op == "fresh" and all(o.op in keep for o in it.a[1]) and all(o.op in keep for s in it.a[0] for o in s.a[1]):
        # fewer elements than that: all of them; more: the elements past it are left out
        total = t.addl(*[t.segcount(s.a[0]) for s in it.a[0]])
        out = []
        for b, s in eng.fork(st, t.lt(n, total)):
            if not b:
                out.append((s, it))
                continue
            segs, left = [], n.a[0]
            for sg in it.a[0]:
                c = sg.a[0]
                if c.op == "one":
                    segs.append(sg)
                    left -= 1
                elif c.op in ("many", "run"):
                    cut = mk("many", mk("cutoff", c, I(left)))
                    if c in ELTY:
                        ELTY[cut] = ELTY[c]
                    segs.append(mk("is", cut, sg.a[1]))
                    break
                else:
                    raise Uns("take")
                if left == 0:
                    break
            out.append((s, mk("iter", tuple(segs), it.a[1], it.a[2])))
        return out
    raise Uns("take")


@model("core::iter::sources::repeat::repeat")
def repeat(eng, st, args, call):
    return [(st, mk("iter", (mk("is", mk("fill", args[0], mk("inf")), (mk("sh", "own"),)),), (), mk("fresh")))]


@model("core::iter::sources::repeat_n::repeat_n")
def repeat_n(eng, st, args, call):
    return [(st, mk("iter", (mk("is", mk("fill", args[0], args[1]), (mk("sh", "own"),)),), (), mk("fresh")))]


@model("core::iter::sources::once::once")
def once(eng, st, args, call):
    return [(st, mk("iter", (mk("is", one(args[0]), (mk("sh", "own"),)),), (), mk("fresh")))]


@model("core::iter::sources::empty::empty")
def empty_it(eng, st, args, call):
    return [(st, mk("iter", (), (), mk("fresh")))]


@model(IT + "zip")
def zip_(eng, st, args, call):
    a = asiter(eng, st, args[0])
    b = args[1]
    if b.op != "iter":
        r = into_iter(eng, st, [b], type(call)(call.callee, call.argtys[1:], call.destty, call.line, call.np))
        if len(r) != 1:
            raise Uns("zip")
        st, b = r[0]
        b = asiter(eng, st, b)
    for x, y, first in ((a, b, True), (b, a, False)):
        # a counter: enumerate from its lower bound on
        if len(x.a[0]) == 1 and x.a[0][0].a[0].op == "range" and not x.a[1] and x.a[2].op == "fresh":
            lo, hi = x.a[0][0].a[0].a
            if hi.op == "inf" or not any(o.op in ("op_filter", "op_fmap", "op_takew", "op_flat") for o in y.a[1]) \
                    and t.sub(hi, lo) is t.addl(*[t.segcount(z.a[0]) for z in y.a[0]]):
                o = mk("op_enum", lo) if first else mk("op_enum", lo, ONE)
                return [(st, mk("iter", y.a[0], y.a[1] + (o,), y.a[2]))]
    raise Uns("zip")


# ------------------------------------------------------------------ next
def elty_sym(eng, seg, L):
    e = mk("el", seg, L)
    f = eng.elmk.get(seg)
    if f is not None:
        return f(e)
    et = ELTY.get(seg)
    if et is None:
        return e
    if et[0] == "map":
        k = eng.fld(e, 0, 0, et[1])
        v = eng.fld(e, 0, 1, et[2])
        return tup(k, v)
    if et[0] == "seq" and et[1] is not None:
        typed(e, et[1])
        eng.dom_of(e, et[1])
    return e


def elems(eng, st, seg, L, ren=()):
    """partitions of the generic element of a symbolic segment: [(state, raw element)]"""
    o = seg.op
    if o == "many":
        e = elty_sym(eng, seg, L)
        f = eng.cons.get(seg)
        if f is None and seg.a[0].op == "fld":
            f = eng.cons.get(("fld", seg.a[0].a[2]))
        if f is not None:
            return [(s, e) for s in f(eng, st, e)]
        return [(st, e)]
    if o in ("run",):
        return [(st, elty_sym(eng, seg, L))]
    if o == "fill":
        return [(st, seg.a[0])]
    if o == "range":
        return [(st, t.add(seg.a[0], mk("iter", L)))]
    if o == "rev":
        N = mk("Lrev", L)
        return elems(eng, st, seg.a[0], N, ren)
    if o == "lg":
        inner = seg.a[0]
        out = []
        for s, e in elems(eng, st, inner, L, ren):
            et = ELTY.get(seg) or ELTY.get(inner)
            v = mk("lgv", seg, L)
            if et is not None and et[0] == "map":
                typed(v, et[2])
                if e.op == "tup":
                    e = tup(e.a[0][0], v)
            else:
                if et is not None:
                    typed(v, et[1])
                e = v
            out.append((s, e))
        return merge(out)
    if o == "rep":
        L0, alts = seg.a
        rec = t.LOOPS.get(L0)
        out = []
        uniform = all(len(a) == 1 and a[0].op == "one" for a in alts)
        # exactly one element per iteration: positions and iterations coincide
        N = L if uniform else mk("Lat", L0, L)
        for ai, items in enumerate(alts):
            for ii, it in enumerate(items):
                s = st.copy()
                rn = tuple(ren) + ((L0, N),)
                if rec is not None and not assume_alt(eng, s, rec, ai, rn):
                    continue
                if not uniform:
                    s.facts[mk("altof", N)] = ("eq", ai * 1000 + ii)
                if it.op == "one":
                    e = it.a[0]
                    for p, q in rn:
                        e = t.rename(e, p, q)
                    if uniform:
                        e = t.replace(e, {mk("iter", N): mk("iter", L)})
                    out.append((s, e))
                elif it.op == "may":
                    c, e = it.a
                    for p, q in rn:
                        c = t.rename(c, p, q)
                        e = t.rename(e, p, q)
                    if s.assume(c, 1):
                        out.append((s, e))
                else:
                    it2 = it
                    for p, q in rn:
                        it2 = t.rename(it2, p, q)
                    out += elems(eng, s, it2, L, rn)
        return out
    e = elty_sym(eng, seg, L)
    return [(st, e)]


def merge(out):
    res = []
    seen = {}
    for s, e in out:
        k = (e, frozenset(s.store.items()), s.aux)
        if k in seen:
            o = seen[k]
            o.absorb(s)
        else:
            seen[k] = s
            res.append((s, e))
    return res


def shape(e, sh):
    if sh == "own":
        return e
    if sh == "ref":
        return vref(e)
    if sh == "kvref":
        return tup(vref(e.a[0][0]), vref(e.a[0][1]))
    if sh == "vref":
        return vref(e.a[0][1])
    if sh == "kref":
        return vref(e.a[0][0])
    if sh == "vown":
        return e.a[0][1]
    if sh == "kown":
        return e.a[0][0]
    if sh == "stri":
        return tup(mk("idof", e), vref(e))
    raise Uns("shape " + sh)


def applyops(eng, st, e, ops):
    """-> [(state, element or None(filtered) or 'stop', new ops)]"""
    cur = [(st, e, ())]
    for i, op in enumerate(ops):
        nxt = []
        for s, x, done in cur:
            if x is None or isinstance(x, str):
                nxt.append((s, x, done + (op,)))
                continue
            o = op.op
            if o == "sh":
                nxt.append((s, shape(x, op.a[0]), done + (op,)))
            elif o == "op_enum":
                nxt.append((s, tup(op.a[0], x) if len(op.a) == 1 else tup(x, op.a[0]), done + (mk("op_enum", t.add(op.a[0], ONE), *op.a[1:]),)))
            elif o == "op_pos":
                nxt.append((s, mk("posin", op.a[0], x), done + (op,)))
            elif o == "op_cloned":
                nxt.append((s, eng.load(s, eng.deref(s, x)), done + (op,)))
            elif o in ("op_map", "op_filter", "op_fmap", "op_inspect", "op_takew"):
                f = op.a[0]
                c = eng.heap(s, f)
                arg = x if o in ("op_map", "op_fmap") else vref(x)
                res = eng.callval(mk("ref", c, ()), [arg], s, None, None, getattr(eng, "line", 0))
                for s2, r in res:
                    nf = s2.store.pop(c, f)
                    nop = mk(o, nf)
                    if o == "op_map":
                        nxt.append((s2, r, done + (nop,)))
                    elif o == "op_inspect":
                        nxt.append((s2, x, done + (nop,)))
                    elif o in ("op_filter", "op_takew"):
                        for b, s3 in eng.fork(s2, r):
                            nxt.append((s3, x if b else (None if o == "op_filter" else "stop"), done + (nop,)))
                    else:
                        ti = TY.get(r)
                        for b, s3 in eng.fork(s2, eq(eng.discr(s2, r, ti), ONE)):
                            nxt.append((s3, eng.fld(r, 1, 0, eng.types[ti]["args"][0] if ti is not None else None) if b else None,
                                        done + (nop,)))
            elif o == "op_flat":
                # flattening of options: the others are refused when they are reached
                ti = TY.get(x)
                if not (x.op == "adt" and x.a[0].endswith("::Option") or ti is not None and (eng.types[ti].get("path") or "").endswith("::Option") or optionish(x)):
                    raise Uns("flatten of " + t.show(x)[:40])
                for b, s3 in eng.fork(s, eq(eng.discr(s, x, ti), ONE)):
                    nxt.append((s3, eng.fld(x, 1, 0, eng.types[ti]["args"][0] if ti is not None else None) if b else None, done + (op,)))
            else:
                raise Uns("iter op " + o)
        cur = nxt
    return cur


def optionish(x):
    if x.op == "ite":
        return optionish(x.a[1]) and optionish(x.a[2])
    return x.op == "adt" and x.a[0].endswith("::Option")


def after(segs, mark):
    """iterator mark once the leading segments have been consumed down to `segs`"""
    if mark.op == "pend" and len(segs) <= mark.a[1]:
        return mk("took", mark.a[0])
    return mark


def revseg(x):
    return x if x.op in ("one", "may", "fill") else x.a[0] if x.op == "rev" else mk("rev", x)


def superiters(seg):
    """number of iterations a loop over this segment is summarised with"""
    if seg.op == "rep":
        return t.niter(seg.a[0])
    if seg.op in ("rev", "lg") and seg.a[0].op == "rep" and seg.op == "rev":
        return superiters(seg.a[0])
    return t.segcount(seg)


def root(seg):
    """the population a segment was produced from"""
    while seg.op == "rep":
        r = t.LOOPS.get(seg.a[0])
        if r is None or r.source is None or r.irregular:
            return seg
        seg = r.source
    return seg


def iternext(eng, st, pl):
    """advance the iterator stored at pl: [(state, Some element | None)]"""
    it = eng.load(st, pl)
    if it.op == "adt" and it.a[0].startswith("core::ops::range::Range"):
        it = rangeiter(it)
    if it.op != "iter":
        raise Uns("next on " + t.show(it)[:60])
    segs, ops, mark = it.a
    if not segs:
        return [(st, NONE())]
    head = segs[0]
    seg = head.a[0]
    out = []

    def skipped(s):
        """the element was filtered out: does this end the (super-)iteration?"""
        m = after(segs[1:], mark)
        if m.op == "took":
            eng.skipstate(m.a[0], s)
            return True
        if len(segs) > 1 and segs[1].a[0].op not in ("one", "may"):
            if m.op == "pend":
                eng.skipstate(m.a[0], s)
                return True
            if eng.probes and eng.probes[-1] is not None:
                eng.skipstate(None, s)
                return True
        return False
    if seg.op == "one":
        for s, x, nops in applyops(eng, st, seg.a[0], head.a[1] + ops):
            nops = nops[len(head.a[1]):]
            if x == "stop":
                eng.storeto(s, pl, mk("iter", (), nops, mk("fresh")))
                out.append((s, NONE()))
                continue
            eng.storeto(s, pl, mk("iter", segs[1:], nops, after(segs[1:], mark)))
            if x is not None:
                out.append((s, SOME(x)))
            elif not skipped(s):
                out += iternext(eng, s, pl)
        return out
    if seg.op == "may":
        c, e = seg.a
        for b, s in eng.fork(st, c):
            if b:
                eng.storeto(s, pl, mk("iter", (mk("is", one(e), head.a[1]),) + segs[1:], ops, mark))
            else:
                eng.storeto(s, pl, mk("iter", segs[1:], ops, after(segs[1:], mark)))
                if skipped(s):
                    continue
            out += iternext(eng, s, pl)
        return out
    if seg.op == "rep" and all(not a for a in seg.a[1]):
        eng.storeto(st, pl, mk("iter", segs[1:], ops, after(segs[1:], mark)))
        return iternext(eng, st, pl)
    if seg.op == "fill" and seg.a[1].op == "int" and seg.a[1].a[0] <= 16:
        new = tuple(mk("is", one(seg.a[0]), head.a[1]) for _ in range(seg.a[1].a[0]))
        eng.storeto(st, pl, mk("iter", new + segs[1:], ops, mark))
        return iternext(eng, st, pl)
    if mark.op == "took":
        raise Uns("iterator advanced twice in one iteration")
    if mark.op == "in":
        L = mark.a[0]
    else:
        L = mk("L", 0)
    took = mk("took", L)
    n = superiters(seg)
    st = st.copy()
    if n.op != "int" and not st.assume(not_(eq(n, ZERO)), 1):
        eng.storeto(st, pl, mk("iter", segs[1:], ops, after(segs[1:], mark)))
        return iternext(eng, st, pl)
    if seg.op == "rep" or seg.op == "rev" and seg.a[0].op == "rep":
        # one iteration covers everything one iteration of the producing loop appended
        N, rp = (L, seg) if seg.op == "rep" else (mk("Lrev", L), seg.a[0])
        L0, alts = rp.a
        rec = t.LOOPS.get(L0)
        for ai, items in enumerate(alts):
            s = st.copy()
            if rec is not None and not assume_alt(eng, s, rec, ai, [(L0, N)]):
                continue
            its = [t.rename(x, L0, N) for x in items]
            if seg.op == "rev":
                its = [revseg(x) for x in reversed(its)]
            if not its:
                eng.storeto(s, pl, mk("iter", segs, ops, took))
                eng.skipstate(L, s)
                continue
            eng.storeto(s, pl, mk("iter", tuple(mk("is", x, head.a[1]) for x in its) + segs, ops, mk("pend", L, len(segs))))
            out += iternext(eng, s, pl)
        return out
    for s0, e in elems(eng, st, seg, L):
        for s, x, nops in applyops(eng, s0, e, head.a[1] + ops):
            nops = nops[len(head.a[1]):]
            # stateful ops of the head segment (closures) are not written back
            eng.storeto(s, pl, mk("iter", segs, nops, took))
            if x == "stop":
                out.append((s, NONE()))
            elif x is None:
                eng.skipstate(L, s)
            else:
                out.append((s, SOME(x)))
    return out


def next_model(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    x = eng.load(st, pl)
    if x.op == "adt" and x.a[0].startswith("core::ops::range::Range"):
        eng.storeto(st, pl, rangeiter(x))
    elif x.op != "iter":
        return None
    return iternext(eng, st, pl)


for _n in (IT + "next", "core::iter::range::next", "alloc::boxed::iter::next"):
    MODELS[_n] = next_model


@model("core::iter::adapters::peekable::Peekable::peek")
def peek(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    it = eng.load(st, pl)
    if it.op != "iter":
        return None
    segs, ops, mark = it.a
    if mark.op == "took":
        head, L = segs[0], mark.a[0]
        out = []
        for b, s in eng.fork(st, eq(t.add(mk("iter", L), ONE), superiters(head.a[0]))):
            if b:
                out += peekfirst(eng, s, segs[1:], ops)
            else:
                if not onetoone(head.a[0]):
                    raise Uns("peek into an irregular sequence")
                out += peekat(eng, s, head, ops, mk("Lnext", L))
        return out
    if mark.op == "in" and segs[0].a[0].op not in ("one", "may"):
        if not onetoone(segs[0].a[0]):
            raise Uns("peek into an irregular sequence")
        return peekat(eng, st, segs[0], ops, mark.a[0])
    return peekfirst(eng, st, segs, ops)


def onetoone(seg):
    """does every (super-)iteration over this segment yield exactly one element?"""
    if seg.op == "rep":
        return all(len(a) == 1 and a[0].op == "one" for a in seg.a[1])
    return seg.op in ("many", "run", "fill", "range", "lg")


def peekat(eng, st, head, ops, L):
    out = []
    for s1, e in elems(eng, st, head.a[0], L):
        for s2, x, _ in applyops(eng, s1, e, head.a[1] + ops):
            if x is None or isinstance(x, str):
                raise Uns("peek through filter")
            out.append((s2, SOME(vref(x))))
    return out


def peekfirst(eng, st, segs, ops):
    if not segs:
        return [(st, NONE())]
    head = segs[0]
    seg = head.a[0]
    if seg.op == "one":
        out = []
        for s2, x, _ in applyops(eng, st, seg.a[0], head.a[1] + ops):
            if x is None or isinstance(x, str):
                raise Uns("peek through filter")
            out.append((s2, SOME(vref(x))))
        return out
    if seg.op == "may" or not onetoone(seg):
        raise Uns("peek at " + seg.op)
    out = []
    for b, s in eng.fork(st, eq(superiters(seg), ZERO)):
        out += peekfirst(eng, s, segs[1:], ops) if b else peekat(eng, s, head, ops, ZERO)
    return out


# ------------------------------------------------------------------ consumers
def consume(eng, st, it, init, body, where=None):
    """drive an iterator; body(state, x, cells) -> [(state, 'go' | tag)].  -> [(tag, state, cells)]"""
    ci = eng.heap(st, it)
    cells = {k: eng.heap(st, v) for k, v in init.items()}
    pl = ("c", ci, ())

    def step(s):
        backs, exits = [], []
        for s2, o in iternext(eng, s, pl):
            if o.a[1] == 0:
                exits.append(("end", s2))
            else:
                for s3, tag in body(s2, o.a[2][0], cells):
                    if tag == "go":
                        backs.append(s3)
                    else:
                        exits.append((tag, s3))
        if len(backs) > 1:
            backs = [b for b, _ in eng.joinret([(b, UNIT) for b in backs])]
        return backs, exits
    res = eng.summarise(st, step, where or (eng.where(), getattr(eng, "line", 0)))
    out = []
    for tag, s in res:
        vals = {k: s.store.pop(c, None) for k, c in cells.items()}
        s.store.pop(ci, None)
        out.append((tag, s, vals))
    return out


def callf(eng, s, f, xs):
    """call closure value; returns [(state, ret, newclosure)]"""
    if f.op in ("ref", "fn"):
        return [(s2, r, f) for s2, r in eng.callval(f, xs, s, None, None, getattr(eng, "line", 0))]
    c = eng.heap(s, f)
    out = []
    for s2, r in eng.callval(mk("ref", c, ()), xs, s, None, None, getattr(eng, "line", 0)):
        out.append((s2, r, s2.store.pop(c, f)))
    return out


def consumer(fn):
    def f(eng, st, args, call):
        x = args[0]
        src = None
        if x.op == "ref":
            src = eng.resolve(st, x)
        it = asiter(eng, st, x)
        res = fn(eng, st, it, args, call)
        if src is not None and src[0] == "c":
            for s, _ in res:
                # the iterator was advanced an unknown amount; only full consumption is modelled
                eng.storeto(s, src, mk("iter", (), it.a[1], mk("fresh")))
        return res
    return f


def anyall(stop_on, atend):
    def f(eng, st, it, args, call):
        def body(s, x, cells):
            out = []
            fv = s.store[cells["f"]]
            for s2, r, nf in callf(eng, s, fv, [x]):
                s2.store[cells["f"]] = nf
                for b, s3 in eng.fork(s2, r):
                    out.append((s3, "stop" if b == stop_on else "go"))
            return out
        return [(s, B(not atend) if tag == "stop" else B(atend)) for tag, s, _ in consume(eng, st, it, {"f": args[1]}, body)]
    return consumer(f)


MODELS[IT + "any"] = anyall(1, False)
MODELS[IT + "all"] = anyall(0, True)


def findlike(mode):
    def f(eng, st, it, args, call):
        init = {"f": args[1], "x": UNIT, "n": ZERO}

        def body(s, x, cells):
            out = []
            fv = s.store[cells["f"]]
            arg = vref(x) if mode == "find" else x
            for s2, r, nf in callf(eng, s, fv, [arg]):
                s2.store[cells["f"]] = nf
                if mode == "find_map":
                    c = eq(eng.discr(s2, r, TY.get(r)), ONE)
                else:
                    c = r
                for b, s3 in eng.fork(s2, c):
                    if b:
                        s3.store[cells["x"]] = x if mode == "find" else s3.store[cells["n"]] if mode == "position" else r
                        out.append((s3, "stop"))
                    else:
                        if mode == "position":
                            s3.store[cells["n"]] = t.add(s3.store[cells["n"]], ONE)
                        out.append((s3, "go"))
            return out
        out = []
        for tag, s, v in consume(eng, st, it, init, body):
            if tag == "stop":
                out.append((s, v["x"] if mode == "find_map" else SOME(v["x"])))
            else:
                out.append((s, NONE()))
        return out
    return consumer(f)


MODELS[IT + "find"] = findlike("find")
MODELS[IT + "position"] = findlike("position")
MODELS[IT + "rposition"] = findlike("position")
MODELS[IT + "find_map"] = findlike("find_map")


@model(IT + "fold")
@consumer
def fold(eng, st, it, args, call):
    def body(s, x, cells):
        out = []
        for s2, r, nf in callf(eng, s, s.store[cells["f"]], [s.store[cells["a"]], x]):
            s2.store[cells["f"]] = nf
            s2.store[cells["a"]] = r
            out.append((s2, "go"))
        return out
    return [(s, v["a"]) for _, s, v in consume(eng, st, it, {"a": args[1], "f": args[2]}, body)]


@model(IT + "for_each")
@consumer
def for_each(eng, st, it, args, call):
    def body(s, x, cells):
        out = []
        for s2, r, nf in callf(eng, s, s.store[cells["f"]], [x]):
            s2.store[cells["f"]] = nf
            out.append((s2, "go"))
        return out
    return [(s, UNIT) for _, s, v in consume(eng, st, it, {"f": args[1]}, body)]


@model(IT + "try_for_each")
@consumer
def try_for_each(eng, st, it, args, call):
    def body(s, x, cells):
        out = []
        for s2, r, nf in callf(eng, s, s.store[cells["f"]], [x]):
            s2.store[cells["f"]] = nf
            for b, s3 in eng.fork(s2, eq(eng.discr(s2, r, TY.get(r, call.destty)), ZERO)):
                if b:
                    out.append((s3, "go"))
                else:
                    s3.store[cells["r"]] = r
                    out.append((s3, "stop"))
        return out
    ty = eng.types[call.destty]
    if ty.get("path") != RES:
        raise Uns("try_for_each type")
    return [(s, v["r"] if tag == "stop" else OK()) for tag, s, v in
            consume(eng, st, it, {"f": args[1], "r": UNIT}, body)]


@model(IT + "sum")
@consumer
def sum_(eng, st, it, args, call):
    def body(s, x, cells):
        v = eng.val(s, x)
        s.store[cells["a"]] = t.add(s.store[cells["a"]], v)
        return [(s, "go")]
    return [(s, v["a"]) for _, s, v in consume(eng, st, it, {"a": ZERO}, body)]


@model(IT + "count")
def count(eng, st, args, call):
    if args[0].op == "chars":
        return [(st, t.nchars(args[0].a[0]))]
    return count_(eng, st, args, call)


@consumer
def count_(eng, st, it, args, call):
    def body(s, x, cells):
        s.store[cells["a"]] = t.add(s.store[cells["a"]], ONE)
        return [(s, "go")]
    return [(s, v["a"]) for _, s, v in consume(eng, st, it, {"a": ZERO}, body)]


@model("core::str::chars")
def str_chars(eng, st, args, call):
    return [(st, mk("chars", eng.val(st, args[0])))]


def orempty(eng, out):
    """[(state, value, number of elements)] -> Some(value), or None where there is no element"""
    res = []
    for s, v, n in out:
        for b, s2 in eng.fork(s, eq(n, ZERO)):
            res.append((s2, NONE() if b else SOME(v)))
    return res


@model(IT + "last")
@consumer
def last(eng, st, it, args, call):
    def body(s, x, cells):
        s.store[cells["n"]] = t.add(s.store[cells["n"]], ONE)
        s.store[cells["x"]] = x
        return [(s, "go")]
    return orempty(eng, [(s, v["x"], v["n"]) for _, s, v in consume(eng, st, it, {"n": ZERO, "x": mk("undef", UNIT, 0, 0)}, body)])


def minmax(fn):
    def f(eng, st, it, args, call):
        ty = eng.types[call.destty]
        et = eng.types[eng.strip(ty["args"][0])] if ty.get("args") else {}
        if fn is not t.maxv or et.get("k") != "int" or et.get("signed"):
            raise Uns("max/min of iterator")
        isref = eng.types[ty["args"][0]]["k"] == "ref"

        def body(s, x, cells):
            s.store[cells["n"]] = t.add(s.store[cells["n"]], ONE)
            s.store[cells["a"]] = t.maxv(s.store[cells["a"]], eng.val(s, x))
            return [(s, "go")]
        return orempty(eng, [(s, vref(v["a"]) if isref else v["a"], v["n"]) for _, s, v in consume(eng, st, it, {"a": ZERO, "n": ZERO}, body)])
    return consumer(f)


MODELS[IT + "max"] = minmax(t.maxv)
MODELS[IT + "min"] = minmax(None)


def twocolls(eng, call):
    ty = eng.types[call.destty]
    ts = ty.get("args") or ty.get("elems") or ty.get("ts") or ()
    ks = [ckind(eng, x)[0] for x in ts]
    if len(ks) != 2 or None in ks:
        raise Uns("pair of collections")
    return ks


@model(IT + "partition")
@consumer
def partition(eng, st, it, args, call):
    ks = twocolls(eng, call)

    def body(s, x, cells):
        out = []
        for s2, r, nf in callf(eng, s, s.store[cells["f"]], [vref(x)]):
            s2.store[cells["f"]] = nf
            for b, s3 in eng.fork(s2, r):
                c = cells["a" if b else "b"]
                s3.store[c] = appendto(eng, s3, ks[0 if b else 1], s3.store[c], x)
                out.append((s3, "go"))
        return out
    return [(s, tup(v["a"], v["b"])) for _, s, v in consume(eng, st, it, {"f": args[1], "a": coll(ks[0]), "b": coll(ks[1])}, body)]


@model(IT + "unzip")
@consumer
def unzip(eng, st, it, args, call):
    ks = twocolls(eng, call)

    def body(s, x, cells):
        for j, c in enumerate("ab"):
            s.store[cells[c]] = appendto(eng, s, ks[j], s.store[cells[c]], x.a[0][j] if x.op == "tup" else eng.fld(x, 0, j, None))
        return [(s, "go")]
    return [(s, tup(v["a"], v["b"])) for _, s, v in consume(eng, st, it, {"a": coll(ks[0]), "b": coll(ks[1])}, body)]


def appendto(eng, s, kind, cv, x):
    if kind == "string":
        return t.cat(cv, eng.val(s, x))
    if kind in MAPS:
        if x.op != "tup":
            x = tup(eng.fld(x, 0, 0, None), eng.fld(x, 0, 1, None))
        eng.assumed.append(("insert", x.a[0][0], tuple(eng.stack)))
    return mk("coll", cv.a[0], cv.a[1] + (one(x),), cv.a[2])


@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
@consumer
def collect(eng, st, it, args, call):
    ty = eng.types[call.destty]
    k, et = ckind(eng, call.destty)
    wrap = None
    if k is None and ty.get("path") == RES:
        k, et = ckind(eng, ty["args"][0])
        wrap = "res"
    if k is None and ty.get("path") == OPT:
        k, et = ckind(eng, ty["args"][0])
        wrap = "opt"
    if k is None and ty.get("path") == "alloc::string::String":
        k = "string"
    if k is None:
        raise Uns("collect into " + ty["s"])
    init = {"a": S("") if k == "string" else coll(k), "r": UNIT}
    if wrap is None and k == "vec" and not it.a[1] and it.a[2].op == "fresh" and all(
            s.a[0].op in ("fill", "one") and s.a[1] == (mk("sh", "own"),) for s in it.a[0]):
        return [(st, coll("vec", [s.a[0] for s in it.a[0]]))]

    def body(s, x, cells):
        if wrap is None:
            s.store[cells["a"]] = appendto(eng, s, k, s.store[cells["a"]], x)
            return [(s, "go")]
        out = []
        good = 0 if wrap == "res" else 1
        tx = TY.get(x)
        for b, s2 in eng.fork(s, eq(eng.discr(s, x, tx), I(good))):
            if b:
                y = eng.fld(x, good, 0, eng.types[tx]["args"][0] if tx is not None else None)
                s2.store[cells["a"]] = appendto(eng, s2, k, s2.store[cells["a"]], y)
                out.append((s2, "go"))
            else:
                s2.store[cells["r"]] = x if wrap == "opt" else ERR(eng.fld(x, 1, 0, None))
                out.append((s2, "stop"))
        return out
    out = []
    for tag, s, v in consume(eng, st, it, init, body):
        if tag == "stop":
            out.append((s, v["r"]))
        else:
            out.append((s, v["a"] if wrap is None else OK(v["a"]) if wrap == "res" else SOME(v["a"])))
    return out


def extend(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    src = args[1]
    if src.op != "iter":
        sub = type(call)(call.callee, call.argtys[1:], call.destty, call.line, call.np)
        x = eng.val(st, src)
        if "extend_from_slice" in call.np or "append" in call.np:
            if "append" in call.np or x.op in ("coll", "arr", "arep", "bytes"):
                d = ascoll(eng, x, eng.strip(call.argtys[1]))
                new = d.a[1]
            if "append" in call.np:
                eng.storeto(st, eng.resolve(st, src), mk("coll", d.a[0], (), ()))
            if x.op not in ("coll", "arr", "arep", "bytes"):
                new = (mk("run", x),)
            writeback(eng, st, pl, mk("coll", c.a[0], c.a[1] + tuple(new), c.a[2]))
            return [(st, UNIT)]
        r = into_iter(eng, st, [src], sub)
    else:
        r = [(st, src)]
    out = []
    for s0, it in r:
        it = asiter(eng, s0, it)

        def body(s, x, cells):
            cv = eng.load(s, pl)
            cv = ascoll(eng, cv)
            if cv.a[0] not in MAPS and eng.types[eng.strip(call.argtys[1])].get("k") and x.op in ("vref",) and eng.isrefelem(call.argtys[0]) is False:
                x = x.a[0]
            eng.storeto(s, pl, appendto(eng, s, cv.a[0], cv, x))
            return [(s, "go")]
        eng.storeto(s0, pl, c)
        out += [(s, UNIT) for _, s, _ in consume(eng, s0, it, {}, body)]
    return out


MODELS["core::iter::traits::collect::Extend::extend"] = extend
MODELS[VEC + "extend_from_slice"] = extend
MODELS[VEC + "append"] = extend
MODELS[VEC + "extend"] = extend


@model(VEC + "resize")
def vec_resize(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    n = t.sub(args[1], t.length(c))
    if n.op == "int" and n.a[0] < 0:
        raise Uns("shrinking resize")
    if n is not ZERO:
        writeback(eng, st, pl, mk("coll", c.a[0], c.a[1] + (mk("fill", args[2], n),), c.a[2]))
    return [(st, UNIT)]


@model("alloc::vec::from_elem")
def from_elem(eng, st, args, call):
    n = st.known(args[1])
    return [(st, coll("vec", [mk("fill", args[0], n)] if n is not ZERO else []))]


@model("alloc::boxed::Box::new_uninit")
def box_uninit(eng, st, args, call):
    c = eng.heap(st, mk("uninit", ("h", eng.heap_n + 1)))
    return [(st, mk("ref", c, ()))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec", "alloc::boxed::box_assume_init_into_vec")
def box_vec(eng, st, args, call):
    v = eng.val(st, args[0])
    while v.op == "adt" and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.op == "part":
        d = dict(v.a[0])
        while v.op == "part" and len(v.a[0]) == 1:
            v = v.a[0][0][1]
    while v.op == "adt" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return [(st, ascoll(eng, v))]


@model("alloc::slice::to_vec", "alloc::slice::to_owned", "alloc::borrow::ToOwned::to_owned", "core::clone::Clone::clone",
       "alloc::str::to_owned", "alloc::string::ToString::to_string", "alloc::string::to_string", "alloc::string::spec_to_string")
def clone_like(eng, st, args, call):
    if call.callee.get("rcrate") and call.np == "core::clone::Clone::clone":
        ti = call.argtys[0]
        inner = eng.types[ti].get("inner")
        if inner is not None and eng.types[inner]["k"] in ("ref",):
            return [(st, eng.load(st, eng.deref(st, args[0])))]
        if call.callee.get("derived") or eng.types[inner]["k"] in ("int", "bool", "tuple", "closure", "array"):
            return [(st, eng.load(st, eng.deref(st, args[0])))]
        p = eng.types[inner].get("path", "")
        if p in KINDS or p.startswith(("alloc::", "core::", "std::", "goblin::", "scroll::", "target_lexicon")):
            return [(st, eng.load(st, eng.deref(st, args[0])))]
        return None
    v = eng.val(st, args[0])
    if "to_string" in call.np:
        ti = eng.strip(call.argtys[0])
        if not isstr(eng, v, ti):
            return [(st, mk("disp", v))]
    return [(st, v)]


def isstr(eng, v, ti=None):
    if t.stringy(v) or v.op == "disp":
        return True
    ti = TY.get(v, ti)
    if ti is None:
        return False
    ty = eng.types[eng.strip(ti)]
    return ty["k"] == "str" or ty.get("path") == "alloc::string::String"


# identity conversions
for _n in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
           "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut", VEC + "as_slice", VEC + "as_mut_slice",
           "alloc::string::String::as_str", "core::str::as_bytes", "alloc::string::String::as_bytes",
           "alloc::string::String::into_bytes", "alloc::string::String::into_boxed_str", VEC + "into_boxed_slice",
           "core::convert::AsMut::as_mut", "alloc::boxed::Box::as_ref", "core::hint::must_use", "core::hint::black_box",
           "alloc::boxed::Box::new", "core::mem::drop_", "alloc::io::buffered::bufwriter::BufWriter::new",
           "std::io::buffered::bufwriter::BufWriter::new", "alloc::io::buffered::bufwriter::BufWriter::with_capacity_",
           "core::io::write::Write::by_ref", "core::convert::identity"):
    MODELS[_n] = lambda eng, st, args, call: (
        None if call.callee.get("key") in eng.D["bodies"] and call.callee.get("rcrate") == eng.D["crate"] else [(st, args[0])])


@model("core::mem::drop", "core::mem::forget")
def drop_(eng, st, args, call):
    return [(st, UNIT)]


@model("core::mem::replace")
def mem_replace(eng, st, args, call):
    pl = eng.deref(st, args[0])
    old = eng.load(st, pl)
    eng.storeto(st, pl, args[1])
    return [(st, old)]


@model("core::mem::take")
def mem_take(eng, st, args, call):
    pl = eng.deref(st, args[0])
    old = eng.load(st, pl)
    sub = type(call)(call.callee, [], call.destty, call.line, call.np)
    r = default(eng, st, [], sub)
    if r is None:
        raise Uns("mem::take default")
    eng.storeto(st, pl, r[0][1])
    return [(st, old)]


@model("core::mem::swap")
def mem_swap(eng, st, args, call):
    p, q = eng.deref(st, args[0]), eng.deref(st, args[1])
    a, b = eng.load(st, p), eng.load(st, q)
    eng.storeto(st, p, b)
    eng.storeto(st, q, a)
    return [(st, UNIT)]


@model("core::convert::From::from", "core::convert::Into::into", "core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def conv(eng, st, args, call):
    c = call.callee
    if c.get("key") in eng.D["bodies"]:
        return None
    a, d = eng.types[call.argtys[0]], eng.types[call.destty]
    tr = "Try" in call.np
    x = args[0]
    if tr and d.get("path") == RES:
        g = eng.types[d["args"][0]]
        if a["k"] == "int" and g["k"] == "int":
            y = t.trunc(x, g["bits"], g.get("signed", False))
            if y is x or a["bits"] <= g["bits"]:
                return [(st, OK(x))]
            out = []
            for b, s in eng.fork(st, mk("fits", x, g["bits"])):
                out.append((s, OK(x) if b else ERR(mk("tryerr", x))))
            return out
        return None
    if a["k"] in ("int", "bool") and d["k"] == "int":
        return [(st, x)]
    if call.argtys[0] == call.destty:
        return [(st, x)]
    if d.get("path") == "alloc::string::String" or d["k"] == "str":
        return [(st, eng.val(st, x))]
    if ckind(eng, call.destty)[0] == "vec" and (ckind(eng, call.argtys[0])[0] == "vec" or isstr(eng, x, call.argtys[0])):
        return [(st, eng.val(st, x))]
    if d.get("path") == "alloc::boxed::Box":
        return [(st, x)]
    if d.get("path") == OPT:
        return [(st, SOME(x))]
    if ckind(eng, call.destty)[0] in MAPS + ("set",) and x.op == "arr":
        return [(st, coll(ckind(eng, call.destty)[0], [one(y) for y in x.a[0]]))]
    return None


@model("core::cmp::PartialEq::eq", "core::str::traits::eq", "alloc::vec::partial_eq::eq", "core::slice::cmp::eq", "core::cmp::impls::eq")
def part_eq(eng, st, args, call):
    if call.callee.get("key") in eng.D["bodies"] and not call.callee.get("derived") and call.callee.get("rcrate") == eng.D["crate"]:
        return None
    a, b = eng.pure(st, args[0]), eng.pure(st, args[1])
    return [(st, eq(a, b))]


@model("core::cmp::PartialEq::ne", "core::str::traits::ne")
def part_ne(eng, st, args, call):
    r = part_eq(eng, st, args, call)
    return None if r is None else [(s, not_(x)) for s, x in r]


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def part_ord(eng, st, args, call):
    x, y = eng.val(st, args[0]), eng.val(st, args[1])
    ti = eng.strip(call.argtys[0])
    ty = eng.types[ti]
    if ty.get("path", "").startswith("log::"):
        return [(st, ONE if eng.logging else ZERO)]
    if ty["k"] == "enum" and eng.fieldless(ti):
        x, y = eng.discr(st, x, ti), eng.discr(st, y, eng.strip(call.argtys[1]))
    elif ty["k"] != "int":
        return None
    m = call.np[-2:]
    return [(st, {"lt": t.lt(x, y), "le": not_(t.lt(y, x)), "gt": t.lt(y, x), "ge": not_(t.lt(x, y))}[m])]


def intargs(eng, args, call):
    if call.destty is not None:
        return eng.types[call.destty]["k"] == "int"
    from .interp import numeric
    return all(numeric(x, eng) or x.op in ("log2", "ite", "total", "ptot", "tmax", "pmax") for x in args)


@model("core::cmp::max", "core::cmp::Ord::max", "core::intrinsics::integer_max")
def cmp_max(eng, st, args, call):
    if not intargs(eng, args, call):
        return None
    return [(st, t.maxv(args[0], args[1]))]


@model("core::cmp::min", "core::cmp::Ord::min", "core::intrinsics::integer_min")
def cmp_min(eng, st, args, call):
    if not intargs(eng, args, call):
        return None
    return [(st, t.minv(args[0], args[1]))]


# ------------------------------------------------------------------ integers
def num(name, f):
    MODELS["core::num::" + name] = f


def val2(f):
    return lambda eng, st, args, call: [(st, f(*args))]


for _n, _f in (("wrapping_add", t.add), ("wrapping_sub", t.sub), ("wrapping_mul", t.mul), ("saturating_add", t.add),
               ("saturating_mul", t.mul), ("rem_euclid", t.mod), ("unchecked_add", t.add), ("unchecked_sub", t.sub)):
    num(_n, val2(_f))
for _n, _f in (("checked_add", t.add), ("checked_mul", t.mul)):
    num(_n, (lambda f: lambda eng, st, args, call: [(st, SOME(f(*args)))])(_f))
num("div_ceil", val2(lambda x, a: t.mk("divceil", x, a) if not (x.op == "int" and a.op == "int") else I(-(-x.a[0] // a.a[0]))))
num("next_multiple_of", val2(t.alignup))
num("trailing_zeros", val2(t.log2))
num("ilog2", val2(t.log2))


def checked_sub(eng, st, args, call):
    out = []
    for b, s in eng.fork(st, t.lt(args[0], args[1])):
        out.append((s, NONE() if b else SOME(t.sub(args[0], args[1]))))
    return out


num("checked_sub", checked_sub)


def saturating_sub(eng, st, args, call):
    out = []
    for b, s in eng.fork(st, t.lt(args[0], args[1])):
        out.append((s, ZERO if b else t.sub(args[0], args[1])))
    return out


num("saturating_sub", saturating_sub)


def ispow2(eng, st, args, call):
    x = args[0]
    if x.op == "int":
        return [(st, B(t.is_pow2(x.a[0])))]
    if t.is_ispow2(x):
        return [(st, ONE)]
    return [(st, mk("ispow2", x))]


num("is_power_of_two", ispow2)


def cnp2(wrap):
    def f(eng, st, args, call):
        x = args[0]
        w = (lambda v: SOME(v)) if wrap else (lambda v: v)
        if x.op == "int":
            n = 1
            while n < x.a[0]:
                n *= 2
            return [(st, w(I(n)))]
        r = ispow2(eng, st, args, call)[0][1]
        out = []
        for b, s in eng.fork(st, r):
            out.append((s, w(x) if b else w(mk("np2", x))))
        return out
    return f


num("checked_next_power_of_two", cnp2(True))
num("next_power_of_two", cnp2(False))
MODELS["core::intrinsics::saturating_sub"] = saturating_sub


def numpow(eng, st, args, call):
    x, e = args
    if x.op == "int" and e.op == "int":
        return [(st, I(x.a[0] ** e.a[0]))]
    if x.op == "int" and x.a[0] == 2:
        return [(st, t.pow2(e))]
    return None


num("pow", numpow)


# ------------------------------------------------------------------ maps
def m_get(eng, st, args, call, ret="ref"):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    et = tysplit(eng, call.argtys[0])
    key = eng.pure(st, args[1])
    out = []
    for s, hit, v, pe, idx in mapfind(eng, st, c, key, et):
        if hit is None:
            out.append((s, NONE()))
            continue
        if ret == "mut" or (pe[0] in ("seg",) and pl[0] == "c" and ret == "ref"):
            if pl[0] == "c" and eng.load(s, pl) is not c:
                eng.storeto(s, pl, c)
            r = subref(eng, pl, c, pe, v)
        else:
            r = vref(v)
        if ret == "ref" or ret == "mut":
            out.append((s, SOME(r)))
        elif ret == "full":
            out.append((s, SOME(tup(idx, vref(key), r))))
        elif ret == "kv":
            out.append((s, SOME(tup(vref(key), r))))
        elif ret == "idx":
            out.append((s, SOME(idx)))
        elif ret == "fullmut":
            out.append((s, SOME(tup(idx, vref(key), subref(eng, pl, c, pe, v)))))
    return out


def m_getm(ret):
    return lambda eng, st, args, call: m_get(eng, st, args, call, ret)


def m_contains(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    et = tysplit(eng, call.argtys[0])
    key = eng.pure(st, args[1])
    return [(s, B(hit is not None)) for s, hit, _, _, _ in mapfind(eng, st, c, key, et)]


def m_insert(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    et = tysplit(eng, call.argtys[0])
    isset = c.a[0] in ("set", "hset")
    key = eng.pure(st, args[1])
    val = UNIT if isset else args[2]
    hit, cand = candidates(eng, st, c, st.known(key) if key.op != "adt" else key)
    w = mk("has", mk("whole", c.a[0], c.a[1]), key)
    if hit is None and cand and st.known(w) is ONE:
        hit = ("slotw",)
    if hit is None and cand and not (st.known(w) is ZERO) and strkey(key) is None:
        # is the key already there?
        here = next((e for _, e in cand if e is not None), w)
        out = []
        for b, s in eng.fork(st, here):
            if s.known(here).op != "int":
                raise Uns("insertion under a key that may be there")
            out += m_insert(eng, s, args, call)
        return out
    if hit is not None:
        if isset:
            return [(st, ZERO)]
        if hit[0] == "slotw":
            seg = mk("whole", c.a[0], c.a[1])
            lookupval(eng, seg, key, et)
            old = coll_at(eng, st, c, ("slot", seg, key))
            pe = ("slot", seg, key)
        else:
            _, old, pe, _ = hitval(eng, st, c, hit, key, et)
        nv = c
        path = valpath(c, pe)
        nc = eng.setp(st, c, path, val)
        writeback(eng, st, pl, nc)
        return [(st, SOME(old))]
    if cand and not (st.known(w) is ZERO):
        eng.assumed.append(("insert", key, tuple(eng.stack), getattr(eng, "line", 0)))
    e = key if isset else tup(key, val)
    writeback(eng, st, pl, mk("coll", c.a[0], c.a[1] + (one(e),), c.a[2]))
    if isset:
        return [(st, ONE)]
    if call.np.endswith("insert_full"):
        return [(st, tup(t.length(c), NONE()))]
    return [(st, NONE())]


def m_remove(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    et = tysplit(eng, call.argtys[0])
    key = eng.pure(st, args[1])
    out = []
    isset = c.a[0] in ("set", "hset")
    for s, hit, v, pe, idx in mapfind(eng, st, c, key, et):
        if hit is None:
            out.append((s, ZERO if isset else NONE()))
            continue
        if pe[0] != "seg":
            writeback(eng, s, pl, mk("coll", c.a[0], c.a[1], c.a[2] + (mk("remove", key),)))
        else:
            segs = list(c.a[1])
            segs.pop(pe[1])
            writeback(eng, s, pl, mk("coll", c.a[0], tuple(segs), c.a[2]))
        out.append((s, ONE if isset else SOME(v)))
    return out


for _p in KINDS:
    if KINDS[_p] in ("map", "hmap", "bmap", "set", "hset"):
        MODELS[_p + "::get"] = m_getm("ref")
        MODELS[_p + "::get_mut"] = m_getm("mut")
        MODELS[_p + "::get_full"] = m_getm("full")
        MODELS[_p + "::get_key_value"] = m_getm("kv")
        MODELS[_p + "::get_index_of"] = m_getm("idx")
        MODELS[_p + "::get_full_mut"] = m_getm("fullmut")
        MODELS[_p + "::contains_key"] = m_contains
        MODELS[_p + "::contains"] = m_contains
        MODELS[_p + "::insert"] = m_insert
        MODELS[_p + "::insert_full"] = m_insert
        MODELS[_p + "::remove"] = m_remove
        MODELS[_p + "::shift_remove"] = m_remove
        MODELS[_p + "::swap_remove"] = m_remove


def m_getidx(mut):
    def f(eng, st, args, call):
        pl, c = getc(eng, st, args[0], call.argtys[0])
        et = etof(eng, c, tysplit(eng, call.argtys[0]))
        idx = st.known(args[1])
        r = seqfind(eng, st, c, idx)
        if r is not None and r[0] is not None:
            j = r[0]
            k, v = c.a[1][j].a[0].a[0]
            if pl[0] == "c" and eng.load(st, pl) is not c:
                eng.storeto(st, pl, c)
            return [(st, SOME(tup(vref(k), subref(eng, pl, c, ("seg", j), v))))]
        # symbolic position: assumed in range (its derivation is a separate obligation)
        seg = mk("whole", c.a[0], c.a[1])
        x = mk("atidx", seg, idx)
        if et is not None:
            k = eng.fld(x, 0, 0, et[1])
            v = eng.fld(x, 0, 1, et[2])
        else:
            k, v = fld(x, 0, 0), fld(x, 0, 1)
        eng.assumed.append(("index", idx, tuple(eng.stack)))
        if mut:
            SLOT.setdefault((seg, idx), v)
            if pl[0] == "c":
                return [(st, SOME(tup(vref(k), mk("ref", pl[1], tuple(pl[2]) + (("slot", seg, idx),)))))]
        return [(st, SOME(tup(vref(k), vref(v))))]
    return f


MODELS["indexmap::map::IndexMap::get_index"] = m_getidx(False)
MODELS["indexmap::map::IndexMap::get_index_mut"] = m_getidx(True)


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut", "core::str::traits::index", "core::slice::index::index",
       "alloc::vec::index", "core::slice::index::index_mut")
def index(eng, st, args, call):
    x = eng.val(st, args[0])
    k, et = ckind(eng, call.argtys[0])
    i = args[1]
    ity = eng.types[call.argtys[1]]
    if k in MAPS:
        if ity["k"] == "int":
            # IndexMap[usize] is positional (keys are given by reference)
            r = m_getidx("mut" in call.np)(eng, st, args, call)
            return [(s, v.a[2][0].a[0][1]) for s, v in r]
        out = []
        for s, o in m_get(eng, st, args, call, "mut" if "mut" in call.np else "ref"):
            if o.a[1] == 0:
                eng.panic(s, "index: key not found", call.line)
            else:
                out.append((s, o.a[2][0]))
        return out
    if isstr(eng, x, call.argtys[0]):
        if i.op == "adt" and i.a[0].endswith("RangeFrom"):
            n = st.known(i.a[2][0])
            return [(st, vref(strdrop(eng, st, x, n)))]
        if i.op == "adt" and i.a[0].endswith("RangeFull"):
            return [(st, args[0])]
        if i.op == "adt" and i.a[0].endswith("RangeTo"):
            return [(st, vref(typed(mk("strtake", x, i.a[2][0]), TY.get(x))))]
        raise Uns("str index")
    if ity["k"] == "int":
        pl, c = getc(eng, st, args[0], call.argtys[0])
        if i.op == "posin" and "mut" not in call.np and c is i.a[0]:
            return [(st, i.a[1])]
        r = seqfind(eng, st, c, st.known(i))
        if r is None and "mut" not in call.np:
            q = seqslot(eng, st, args[0], call.argtys[0], st.known(i))
            if q is not None:
                out = []
                for s, e in q:
                    if e is None:
                        eng.panic(s, "index out of bounds", call.line)
                    else:
                        out.append((s, vref(e)))
                return out
        if r is not None and r[0] is not None:
            if pl[0] == "c":
                eng.storeto(st, pl, c)
            return [(st, subref(eng, pl, c, ("seg", r[0]), r[1]))]
        if pl[0] == "c":
            if r is not None or "mut" not in call.np:
                v = coll_at(eng, st, c, ("at", st.known(i)))
                if "mut" not in call.np:
                    return [(st, vref(v))]
            return [(st, mk("ref", pl[1], tuple(pl[2]) + (("at", st.known(i)),)))]
        return [(st, vref(coll_at(eng, st, c, ("at", st.known(i)))))]
    if i.op == "adt" and i.a[0].endswith("RangeFull"):
        return [(st, args[0])]
    if i.op == "adt" and "Range" in i.a[0]:
        out = []
        pl = eng.resolve(st, args[0]) if "mut" in call.np and x.op in ("arep", "arr", "pwritten") else None
        for s, v in subslice(eng, st, x, i, call.line):
            if pl is not None and pl[0] == "c" and v.op == "slice":
                out.append((s, mk("ref", pl[1], tuple(pl[2]) + (("rng", v.a[1], v.a[2]),))))
            else:
                out.append((s, args[0] if pl is not None and v is x else vref(v)))
        return out
    return None


def subslice(eng, st, x, i, line, panic=True):
    """bytes[range]"""
    ty = TY.get(x)
    kind = i.a[0].split("::")[-1]
    n = t.length(x)
    if kind not in ("Range", "RangeTo", "RangeFrom"):
        return [(st, typed(mk("slicev", x, i), ty))]
    lo = ZERO if kind == "RangeTo" else st.known(i.a[2][0])
    hi = n if kind == "RangeFrom" else st.known(i.a[2][-1])
    cur, out = [st], []
    for c, m in ((t.lt(hi, lo), "slice index starts after its end"), (t.lt(n, hi), "slice index out of range")):
        nxt = []
        for s in cur:
            for b, s2 in eng.fork(s, c):
                if not b:
                    nxt.append(s2)
                elif panic:
                    eng.panic(s2, m, line)
                else:
                    out.append((s2, None))
        cur = nxt
    for s in cur:
        out.append((s, x if s.known(lo) is ZERO and s.known(t.sub(n, hi)) is ZERO else typed(mk("slice", x, lo, hi), ty)))
    return out


def strdrop(eng, st, x, n):
    if x.op == "str" and n.op == "int":
        return S(x.a[0][n.a[0]:])
    if x.op == "cat" and n.op == "int" and x.a[0][0].op == "str" and len(x.a[0][0].a[0]) >= n.a[0]:
        return t.cat(S(x.a[0][0].a[0][n.a[0]:]), *x.a[0][1:])
    r = mk("strdrop", x, n)
    return t.keepty(x, r)


# entries
def enumidx(eng, ti, name):
    for i, v in enumerate(eng.types[ti]["variants"]):
        if v["n"] == name:
            return i
    raise Uns("no variant " + name)


def m_entry(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    et = tysplit(eng, call.argtys[0])
    key = eng.pure(st, args[1])
    ti = call.destty
    path = eng.types[ti]["path"]
    if pl[0] != "c":
        raise Uns("entry on immutable")
    mapref = mk("ref", pl[1], tuple(pl[2]))
    out = []
    for s, hit, v, pe, idx in mapfind(eng, st, c, key, et):
        if hit is None:
            out.append((s, adt(path, enumidx(eng, ti, "Vacant"), mk("vac", mapref, key))))
        else:
            if eng.load(s, pl) is not c:
                eng.storeto(s, pl, c)
            out.append((s, adt(path, enumidx(eng, ti, "Occupied"), mk("occ", subref(eng, pl, c, pe, v), key, mapref))))
    return out


for _p in KINDS:
    if KINDS[_p] in MAPS:
        MODELS[_p + "::entry"] = m_entry


def vac_insert(eng, st, vac, val):
    pl = eng.deref(st, vac.a[0])
    c = ascoll(eng, eng.load(st, pl))
    nc = mk("coll", c.a[0], c.a[1] + (one(tup(vac.a[1], val)),), c.a[2])
    eng.storeto(st, pl, nc)
    return mk("ref", pl[1], tuple(pl[2]) + valpath(nc, ("seg", len(nc.a[1]) - 1)))


ENTRYP = ["indexmap::map::core::", "indexmap::map::core::entry::", "std::collections::hash::map::",
          "alloc::collections::btree::map::entry::", "indexmap::map::core::raw::", "indexmap::map::"]


def e_or_insert(eng, st, args, call, mode="val"):
    e = args[0]
    p = e.a[2][0]
    if p.op == "occ":
        return [(st, p.a[0])]
    if mode == "val":
        return [(st, vac_insert(eng, st, p, args[1]))]
    if mode == "with":
        return [(s, vac_insert(eng, s, p, r)) for s, r, _ in callf(eng, st, args[1], [])]
    if mode == "default":
        inner = eng.types[call.destty]["inner"]
        r = default(eng, st, [], type(call)(call.callee, [], inner, call.line, call.np))
        if r is None:
            raise Uns("or_default")
        return [(st, vac_insert(eng, st, p, r[0][1]))]


def e_and_modify(eng, st, args, call):
    p = args[0].a[2][0]
    if p.op == "occ":
        return [(s, args[0]) for s, r, _ in callf(eng, st, args[1], [p.a[0]])]
    return [(st, args[0])]


for _p in ENTRYP:
    MODELS[_p + "Entry::or_insert"] = e_or_insert
    MODELS[_p + "Entry::or_insert_with"] = lambda e, s, a, c: e_or_insert(e, s, a, c, "with")
    MODELS[_p + "Entry::or_default"] = lambda e, s, a, c: e_or_insert(e, s, a, c, "default")
    MODELS[_p + "Entry::and_modify"] = e_and_modify
    MODELS[_p + "OccupiedEntry::get"] = lambda e, s, a, c: [(s, e.val(s, a[0]).a[0])]
    MODELS[_p + "OccupiedEntry::get_mut"] = lambda e, s, a, c: [(s, e.val(s, a[0]).a[0])]
    MODELS[_p + "OccupiedEntry::into_mut"] = lambda e, s, a, c: [(s, e.val(s, a[0]).a[0])]
    MODELS[_p + "OccupiedEntry::key"] = lambda e, s, a, c: [(s, vref(e.val(s, a[0]).a[1]))]
    MODELS[_p + "VacantEntry::key"] = lambda e, s, a, c: [(s, vref(e.val(s, a[0]).a[1]))]
    MODELS[_p + "VacantEntry::insert"] = lambda e, s, a, c: [(s, vac_insert(e, s, e.val(s, a[0]), a[1]))]

    def _occ_insert(e, s, a, c):
        o = e.val(s, a[0])
        pl = e.deref(s, o.a[0])
        old = e.load(s, pl)
        e.storeto(s, pl, a[1])
        return [(s, old)]
    MODELS[_p + "OccupiedEntry::insert"] = _occ_insert


# ------------------------------------------------------------------ string interner
SI = "string_interner::interner::StringInterner::"


def interned(eng, st, c, s):
    """no-collision mode: segment position of string s in interner c, or None"""
    for j, x in enumerate(c.a[1]):
        if x.op == "one":
            if x.a[0] is s:
                return j
        elif x.op == "rep":
            L, alts = x.a
            rec = t.LOOPS.get(L)
            for ai, items in enumerate(alts):
                for it in items:
                    if it.op != "one":
                        raise Uns("interner content")
                    N = match(it.a[0], s, L)
                    if N is not None and N is not L:
                        return j
                    if it.a[0] is s:
                        return j
        elif x.op == "pre":
            if not t.mentions(s, x.a[0]) and eng.prehas(x, s):
                return j
        elif x.op == "many":
            if eng.keyhook and eng.keyhook(st, x, s):
                return j
        else:
            raise Uns("interner content " + x.op)
    return None


@model(SI + "get_or_intern")
def get_or_intern(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    s = eng.val(st, args[1])
    lab = t.ilabel(c)
    if eng.nocoll:
        p = interned(eng, st, c, s)
        if p is not None:
            t.OLDID.add((t.intid(lab, s), t.length(c)))
            return [(st, t.intid(lab, s))]
        j = len(c.a[1])
        t.NEWID[mk("id", lab, s)] = t.length(c)
        if s.op == "str" and all(x.op == "one" and x.a[0].op == "str" for x in c.a[1]):
            t.INTID[(lab, j)] = s
            t.IDINT[(lab, s)] = I(j)
        writeback(eng, st, pl, mk("coll", "interner", c.a[1] + (one(s),), c.a[2]))
        return [(st, t.intid(lab, s))]
    if all(x.op == "one" for x in c.a[1]):
        out = []
        cur = [st]
        for j, x in enumerate(c.a[1]):
            nxt = []
            for s0 in cur:
                for b, s1 in eng.fork(s0, eq(x.a[0], s)):
                    if b:
                        out.append((s1, I(j)))
                    else:
                        nxt.append(s1)
            cur = nxt
        for s0 in cur:
            j = len(c.a[1])
            t.INTID[(lab, j)] = s
            t.IDINT[(lab, s)] = I(j)
            writeback(eng, s0, pl, mk("coll", "interner", c.a[1] + (one(s),), c.a[2]))
            out.append((s0, I(j)))
        return out
    f = t.intid(lab, s)
    if f.op == "int":
        return [(st, f)]
    isnew = eng.isnew(st, c, s) if eng.isnew else None
    if isnew is ZERO:
        return [(st, f)]
    if isnew is None:
        isnew = mk("isnew", mk("whole", "interner", c.a[1]), s)
        isnew = st.known(isnew)
    if any(x.op == "may" and x.a[1] is s for x in c.a[1]) or any(x.op == "one" and x.a[0] is s for x in c.a[1]):
        return [(st, f)]
    if isnew is ZERO:
        return [(st, f)]
    seg = one(s) if isnew is ONE else mk("may", isnew, s)
    writeback(eng, st, pl, mk("coll", "interner", c.a[1] + (seg,), c.a[2]))
    return [(st, f)]


@model(SI + "get")
def si_get(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    s = eng.val(st, args[1])
    lab = t.ilabel(c)
    if eng.nocoll:
        return [(st, SOME(t.intid(lab, s)) if interned(eng, st, c, s) is not None else NONE())]
    if any(x.op == "one" and x.a[0] is s for x in c.a[1]):
        return [(st, SOME(t.intid(lab, s)))]
    if all(x.op == "one" for x in c.a[1]):
        out = []
        cur = [st]
        for j, x in enumerate(c.a[1]):
            nxt = []
            for s0 in cur:
                for b, s1 in eng.fork(s0, eq(x.a[0], s)):
                    (out.append((s1, SOME(I(j)))) if b else nxt.append(s1))
            cur = nxt
        return out + [(s0, NONE()) for s0 in cur]
    out = []
    for b, s0 in eng.fork(st, not_(mk("isnew", mk("whole", "interner", c.a[1]), s))):
        out.append((s0, SOME(t.intid(lab, s)) if b else NONE()))
    return out


@model(SI + "resolve")
def si_resolve(eng, st, args, call):
    pl, c = getc(eng, st, args[0], call.argtys[0])
    k = st.known(args[1])
    lab = t.ilabel(c)
    if k.op == "id" and k.a[0] is lab:
        return [(st, SOME(vref(k.a[1])))]
    if k.op == "int" and k.a[0] < len(c.a[1]) and all(x.op == "one" for x in c.a[1][:k.a[0] + 1]):
        return [(st, SOME(vref(c.a[1][k.a[0]].a[0])))]
    r = mk("resolve", lab, k)
    ti = eng.type_by_s("str")
    if ti is not None:
        typed(r, ti)
    return [(st, SOME(vref(r)))]


# ------------------------------------------------------------------ strings
@model("core::str::starts_with", "core::str::ends_with", "core::str::contains")
def starts_with(eng, st, args, call):
    x, p = eng.val(st, args[0]), eng.val(st, args[1])
    if p.op == "int" and eng.types[call.argtys[1]].get("s") == "char":
        p = S(chr(p.a[0]))
    if x.op == "str" and p.op == "str":
        m = call.np.split("::")[-1]
        return [(st, B({"starts_with": x.a[0].startswith(p.a[0]), "ends_with": x.a[0].endswith(p.a[0]),
                        "contains": p.a[0] in x.a[0]}[m]))]
    if call.np.endswith("starts_with") and x.op == "cat" and x.a[0][0].op == "str" and p.op == "str":
        h = x.a[0][0].a[0]
        n = min(len(h), len(p.a[0]))
        if h[:n] != p.a[0][:n]:
            return [(st, ZERO)]
        if len(h) >= len(p.a[0]):
            return [(st, ONE)]
    if p.op not in ("str", "cat", "fld", "el", "sym", "resolve"):
        raise Uns("str pattern")
    return [(st, mk({"starts_with": "prefix", "ends_with": "suffix", "contains": "contains"}[call.np.split("::")[-1]], x, p))]


@model("core::str::trim", "core::str::trim_end", "core::str::trim_start")
def str_trim(eng, st, args, call):
    x = eng.val(st, args[0])
    k = call.np.split("::")[-1]
    if x.op == "str":
        return [(st, vref(S({"trim": x.a[0].strip(), "trim_end": x.a[0].rstrip(), "trim_start": x.a[0].lstrip()}[k])))]
    return [(st, vref(typed(mk("trim", x, k), TY.get(x))))]


@model("core::str::strip_prefix")
def strip_prefix(eng, st, args, call):
    r = starts_with(eng, st, args, type(call)(call.callee, call.argtys, call.destty, call.line, "core::str::starts_with"))
    x, p = eng.val(st, args[0]), eng.val(st, args[1])
    out = []
    for s, b in r:
        for v, s2 in eng.fork(s, b):
            out.append((s2, SOME(vref(strdrop(eng, s2, x, t.length(p)))) if v else NONE()))
    return out


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def string_new(eng, st, args, call):
    return [(st, S(""))]


@model("alloc::string::String::push_str", "alloc::string::String::push", "core::fmt::Write::write_str")
def push_str(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    x = eng.load(st, pl)
    y = eng.val(st, args[1])
    if y.op == "int":
        y = S(chr(y.a[0]))
    eng.storeto(st, pl, t.cat(x, y))
    return [(st, OK() if call.np.endswith("write_str") else UNIT)]


@model("core::ops::arith::Add::add")
def addop_(eng, st, args, call):
    if eng.types[call.destty].get("path") == "alloc::string::String":
        return [(st, t.cat(eng.val(st, args[0]), eng.val(st, args[1])))]
    if eng.types[call.destty]["k"] == "int":
        return [(st, t.add(eng.val(st, args[0]), eng.val(st, args[1])))]
    return None


@model("core::ops::arith::AddAssign::add_assign")
def addas_(eng, st, args, call):
    if eng.types[eng.strip(call.argtys[0])].get("path") == "alloc::string::String":
        return push_str(eng, st, args, call)
    return None


@model("alloc::slice::concat", "alloc::str::concat")
def concat(eng, st, args, call):
    v = eng.val(st, args[0])
    c = ascoll(eng, v)
    if all(s.op == "one" for s in c.a[1]) and eng.types[call.destty].get("path") == "alloc::string::String":
        return [(st, t.cat(*[eng.val(st, s.a[0]) for s in c.a[1]]))]
    raise Uns("concat")


@model("core::fmt::Arguments::new")
def fmt_new(eng, st, args, call):
    tm = eng.val(st, args[0])
    fa = eng.val(st, args[1])
    data = None
    if tm.op == "arr" and all(x.op == "int" for x in tm.a[0]):
        data = bytes(x.a[0] for x in tm.a[0])
    elif tm.op == "bytes":
        data = tm.a[0]
    elif tm.op == "str":
        data = tm.a[0].encode("latin1")
    if data is None:
        return [(st, mk("fmt", (mk("opqs", tm),)))]
    al = list(ascoll(eng, fa).a[1]) if fa.op in ("arr", "coll") else []
    al = [s.a[0] for s in al]
    parts = []
    i = 0
    ai = 0
    while i < len(data):
        b = data[i]
        i += 1
        if b == 0:
            break
        if b < 128:
            parts.append(S(data[i:i + b].decode("utf8", "replace")))
            i += b
        elif b == 128:
            n = data[i] | data[i + 1] << 8
            i += 2
            parts.append(S(data[i:i + n].decode("utf8", "replace")))
            i += n
        elif b == 0xC0:
            a = al[ai] if ai < len(al) else mk("opqs", I(ai))
            ai += 1
            if a.op == "fmtarg" and a.a[1] == "display" and (isstr(eng, a.a[0])):
                parts.append(a.a[0])
            else:
                parts.append(mk("disp", a))
        else:
            # placeholder with options: flags/width/precision/position follow
            opt = b & 0x3F
            if opt & 1:
                i += 4
            if opt & 2:
                i += 2
            if opt & 4:
                i += 2
            if opt & 8:
                ai = data[i] | data[i + 1] << 8
                i += 2
            a = al[ai] if ai < len(al) else mk("opqs", I(ai))
            ai += 1
            if b & ~0x08 == 0xC0 and a.op == "fmtarg" and a.a[1] == "display" and isstr(eng, a.a[0]):
                parts.append(a.a[0])
            else:
                parts.append(mk("disp", a, I(b)))
    return [(st, mk("fmt", tuple(parts)))]


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::from_str_nonconst")
def fmt_str(eng, st, args, call):
    return [(st, mk("fmt", (eng.val(st, args[0]),)))]


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "pointer"):
    def _mk(k):
        def f(eng, st, args, call):
            v = eng.pure(st, args[0])
            return [(st, mk("fmtarg", v, k))]
        return f
    MODELS["core::fmt::rt::Argument::new_" + _k] = _mk(_k)


@model("alloc::fmt::format")
def fmt_format(eng, st, args, call):
    a = args[0]
    if a.op != "fmt":
        return None
    return [(st, t.cat(*a.a[0]))]


@model("core::fmt::Write::write_fmt")
def w_fmt(eng, st, args, call):
    ti = eng.strip(call.argtys[0])
    if ti is not None and eng.types[ti].get("path") == "alloc::string::String" and args[1].op == "fmt":
        pl = eng.resolve(st, args[0])
        eng.storeto(st, pl, t.cat(eng.load(st, pl), *args[1].a[0]))
        return [(st, OK())]
    return None


# ------------------------------------------------------------------ logging
@model("log::max_level", "log::set_max_level", "log::STATIC_MAX_LEVEL")
def max_level(eng, st, args, call):
    ti = eng.type_by_s("log::LevelFilter")
    n = 0
    if eng.logging and ti is not None:
        n = len(eng.types[ti]["variants"]) - 1
    return [(st, adt("log::LevelFilter", n))]


@model("log::__private_api::log", "log::__private_api::loc", "log::__private_api::enabled")
def log_log(eng, st, args, call):
    if call.np.endswith("::log"):
        eng.logcalls.append(tuple(eng.stack))
    if call.np.endswith("::enabled"):
        return [(st, ONE if eng.logging else ZERO)]
    return [(st, UNIT if not call.np.endswith("loc") else mk("loc"))]


# ------------------------------------------------------------------ byte sinks
SINK = "sink"


@model("core::io::cursor::Cursor::new", "std::io::cursor::Cursor::new")
def cursor_new(eng, st, args, call):
    c = args[0]
    if c.op == "coll" and not c.a[1]:
        return [(st, adt("Cursor", 0, coll("sink"), ZERO))]
    raise Uns("cursor over non-empty buffer")


@model("core::io::cursor::Cursor::into_inner", "std::io::cursor::Cursor::into_inner", "core::io::cursor::Cursor::get_ref")
def cursor_inner(eng, st, args, call):
    v = eng.val(st, args[0])
    if v.op != "adt" or v.a[0] != "Cursor":
        return None
    return [(st, v.a[2][0] if not call.np.endswith("get_ref") else vref(v.a[2][0]))]


@model("core::io::cursor::Cursor::position")
def cursor_pos(eng, st, args, call):
    v = eng.val(st, args[0])
    return [(st, v.a[2][1])]


def sink_place(eng, st, v):
    pl = eng.resolve(st, v)
    x = eng.load(st, pl)
    if x.op == "adt" and x.a[0] == "Cursor":
        return pl, x
    if x.op == "adt" and x.a[0] == "FileSink":
        return pl, x
    if x.op == "coll" and x.a[0] == "vec":
        return pl, x
    raise Uns("sink " + t.show(x)[:50])


def sink_write(eng, st, v, kind, ty, val, ctx, size):
    pl, x = sink_place(eng, st, v)
    if x.op == "coll":
        w = mk("w", ZERO, ty, val, ctx, size)
        eng.storeto(st, pl, mk("coll", "vec", x.a[1] + (w,), x.a[2]))
        return
    c, pos = x.a[2]
    w = mk("w", pos, ty, val, ctx, size)
    nc = mk("coll", c.a[0], c.a[1] + (w,), c.a[2])
    eng.storeto(st, pl, adt(x.a[0], 0, nc, t.add(pos, size)))


def io_result(eng, st, destty, ok):
    """fork an I/O error in fault mode"""
    if not eng.fault:
        return [(st, OK(ok))]
    s = st.copy()
    site = (eng.where(), getattr(eng, "line", 0))
    eng.faultsites.append(site)
    ety = eng.types[destty]["args"][1] if destty is not None else None
    e = typed(mk("ioerr", site[0], site[1]), ety)
    s.aux = s.aux + (("ioerr", e),)
    return [(st, OK(ok)), (s, ERR(e))]


@model("core::io::write::Write::write_all", "std::io::Write::write_all")
def write_all(eng, st, args, call):
    v = eng.val(st, args[1])
    if not inline(eng, st, args[0], v):
        for p in pieces(v):
            if p.op == "int":
                sink_write(eng, st, args[0], "u8", "u8", p, UNIT, ONE)
            else:
                sink_write(eng, st, args[0], "bytes", "bytes", p, UNIT, t.length(p))
    return io_result(eng, st, call.destty, UNIT)


def pieces(v):
    """the parts of a written byte string, so that it does not matter how writes are grouped: NULs and single bytes apart
    from names"""
    if v.op == "cat":
        out, cur = [], []
        for p in v.a[0]:
            for q in pieces(p):
                if q.op != "int":
                    cur.append(q)
                    continue
                if q.a[0] and (cur or out):
                    cur.append(S(chr(q.a[0])))
                    continue
                if cur:
                    out.append(t.cat(*cur))
                cur = []
                out.append(q)
        return out + ([t.cat(*cur)] if cur else [])
    if v.op == "str" and (len(v.a[0]) == 1 or "\0" in v.a[0]):
        out = []
        for k, p in enumerate(v.a[0].split("\0")):
            if k:
                out.append(ZERO)
            if len(p.encode("utf8")) == 1:
                out.append(I(ord(p)))
            elif p:
                out.append(S(p))
        return out
    if v.op in ("bytes", "arr"):
        bs = list(v.a[0]) if v.op == "bytes" else [x.a[0] for x in v.a[0] if x.op == "int"]
        if len(bs) == len(v.a[0]) and (len(bs) == 1 or 0 < len(bs) <= 16 and 0 in bs):
            return [I(b) for b in bs]
    return [v]


def shifted(items, base):
    """the items written to another sink, as written `base` bytes further on"""
    out = []
    for x in items:
        if x.op == "w":
            out.append(mk("w", t.add(x.a[0], base), *x.a[1:]))
        elif x.op == "sk":
            out.append(mk("sk", t.add(x.a[0], base), t.add(x.a[1], base)))
        elif x.op == "rep":
            al = [shifted(a, base) for a in x.a[1]]
            if any(a is None for a in al):
                return None
            out.append(mk("rep", x.a[0], tuple(al)))
        else:
            return None
    return tuple(out)


def placed(segs, pos):
    """the parts of a byte buffer assembled in memory as items written from `pos` on"""
    out = []
    for s in segs:
        n = t.segcount(s)
        if s.op == "one":
            out.append(mk("w", pos, "u8", s.a[0], UNIT, ONE))
        elif s.op in ("run", "many"):
            out.append(mk("w", pos, "bytes", s.a[0], UNIT, n))
        elif s.op in ("fill", "zeros"):
            out.append(mk("w", pos, "bytes", coll("vec", (s,)), UNIT, n))
        elif s.op == "w":
            out.append(mk("w", pos, *s.a[1:]))
        elif s.op == "rep":
            L, alts = s.a
            q = t.add(pos, t.psumof(L, [t.addl(*[t.segcount(x) for x in al]) if al else ZERO for al in alts]))
            al = [placed(a, q) for a in alts]
            if any(a is None for a in al):
                return None
            out.append(mk("rep", L, tuple(al)))
        else:
            return None
        pos = t.add(pos, n)
    return tuple(out)


def inline(eng, st, to, v):
    """write the structured contents of a buffer assembled in memory; False: not such a buffer"""
    while v.op in ("vref", "box"):
        v = v.a[0]
    if v.op != "coll" or v.a[2] or not v.a[1]:
        return False
    pl, x = sink_place(eng, st, to)
    if x.op == "coll":
        return False
    c, pos = x.a[2]
    if v.a[0] == "sink":
        items = shifted(v.a[1], pos)
        last = [y for y in v.a[1]]
        if any(y.op == "sk" for y in last):
            return False
    elif v.a[0] in ("vec", "sorted", "arr") and any(s.op in ("one", "run", "rep", "w") for s in v.a[1]):
        items = placed(v.a[1], pos)
    else:
        return False
    if items is None:
        return False
    nc = mk("coll", c.a[0], c.a[1] + items, c.a[2])
    eng.storeto(st, pl, adt(x.a[0], 0, nc, t.add(pos, t.length(v))))
    return True


@model("core::io::write::Write::flush", "std::io::Write::flush")
def flush(eng, st, args, call):
    return io_result(eng, st, call.destty, UNIT)


def sizeof(eng, tyname, ctx):
    if tyname in ("u8", "i8"):
        return ONE
    if tyname in ("u16", "i16"):
        return I(2)
    if tyname in ("u32", "i32"):
        return I(4)
    if tyname in ("u64", "i64"):
        return I(8)
    short = tyname.split("::")[-1]
    if short == "RelocationInfo":
        return I(8)
    if short == "SymtabCommand":
        return I(24)
    return szof(shortname(tyname), sizectx(ctx))


# on-disk sizes (32-bit, 64-bit) fixed by the ELF and Mach-O specifications
SIZES = {"elf.Header": (52, 64), "elf.Sym": (16, 24), "elf.SectionHeader": (40, 64), "elf.Rela": (12, 24), "elf.Rel": (8, 16),
         "mach.Header": (28, 32), "mach.Segment": (56, 72), "mach.Section": (68, 80), "mach.Nlist": (12, 16)}


def szof(name, c):
    if c.op == "adt" and c.a[0].endswith("::Container") and name in SIZES:
        return I(SIZES[name][c.a[1]])
    if c.op == "ite" and name in SIZES:
        return t.ite(c.a[0], szof(name, c.a[1]), szof(name, c.a[2]))
    return mk("sizeof", name, c)


def shortname(p):
    x = p.split("::")
    mod = [y for y in x if y in ("elf", "mach")]
    return (mod[0] + "." if mod else "") + x[-1]


def sizectx(ctx):
    """the part of a context the size depends on (the container)"""
    if ctx.op == "tup":
        ctx = ctx.a[0][-1]
    if ctx.op == "adt" and ctx.a[0].endswith("::Ctx") and len(ctx.a[2]) == 2:
        return ctx.a[2][0]
    if ctx in TY and TYPATH(ctx) and TYPATH(ctx).endswith("::Ctx"):
        return fld(ctx, 0, 0)
    return ctx


TYPATH = lambda x: None


def settle(st, v, d=0):
    """decide the conditionals at the top of a value's fields that the path settles"""
    if v.op == "ite":
        c = st.known(v.a[0])
        if c.op == "int":
            return settle(st, v.a[1] if c is ONE else v.a[2], d)
    if v.op == "adt" and d < 3:
        return mk("adt", v.a[0], v.a[1], tuple(settle(st, x, d + 1) for x in v.a[2]))
    return v


@model("scroll::lesser::IOwrite::iowrite", "scroll::lesser::IOwrite::iowrite_with")
def iowrite(eng, st, args, call):
    ti = call.argtys[1]
    ty = eng.types[ti]
    v = args[1]
    tn = ty.get("path") or ty["s"]
    if ty["k"] == "ref":
        v = eng.val(st, v)
        tn = eng.types[ty["inner"]].get("path") or eng.types[ty["inner"]]["s"]
    ctx = eng.pure(st, args[2]) if len(args) > 2 else UNIT
    short = tn.split("::")[-1]
    if short == "Reloc" and "elf" in tn:
        isrela = ctx.a[0][0] if ctx.op == "tup" else ONE
        isrela = st.known(isrela)
        size = szof("elf.Rela", sizectx(ctx)) if isrela is ONE else szof("elf.Rel", sizectx(ctx)) \
            if isrela is ZERO else t.ite(isrela, szof("elf.Rela", sizectx(ctx)), szof("elf.Rel", sizectx(ctx)))
    else:
        size = sizeof(eng, tn, ctx)
    sink_write(eng, st, args[0], "val", shortname(tn), settle(st, eng.pure(st, v)), ctx, size)
    return io_result(eng, st, call.destty, UNIT)


@model("core::io::seek::Seek::seek", "std::io::Seek::seek")
def seek(eng, st, args, call):
    pl, x = sink_place(eng, st, args[0])
    w = args[1]
    if w.op != "adt":
        raise Uns("symbolic seek")
    vn = None
    for c in eng.pathty.get(w.a[0], []):
        vs = eng.types[c].get("variants")
        if vs:
            vn = vs[w.a[1]]["n"]
    c, pos = x.a[2]
    off = w.a[2][0]
    if vn == "Start":
        new = off
    elif vn == "Current":
        new = t.add(pos, off)
    else:
        new = t.add(mk("sinkend", c), off)
    if new is not pos:
        eng.seeks.append((tuple(eng.stack), getattr(eng, "line", 0), pos, new, dict(st.facts)))
        st.aux = st.aux
        c = mk("coll", c.a[0], c.a[1] + (mk("sk", pos, new),), c.a[2])
    eng.storeto(st, pl, adt(x.a[0], 0, c, new))
    return io_result(eng, st, call.destty, new)


@model("alloc::io::error::new", "std::io::Error::new", "alloc::io::Error::new", "alloc::io::error::other", "std::io::Error::other")
def io_error_new(eng, st, args, call):
    return [(st, mk("io.error", tuple(eng.pure(st, a) for a in args)))]


@model("core::io::error::Error::kind", "std::io::Error::kind", "std::io::error::Error::kind")
def io_error_kind(eng, st, args, call):
    return [(st, typed(mk("errkind", eng.val(st, args[0])), call.destty))]


@model("core::io::seek::Seek::stream_position", "std::io::Seek::stream_position")
def stream_position(eng, st, args, call):
    pl, x = sink_place(eng, st, args[0])
    return io_result(eng, st, call.destty, x.a[2][1])


# scroll writes into byte slices
@model("scroll::pwrite::Pwrite::gwrite_with", "scroll::pwrite::Pwrite::gwrite")
def gwrite(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    x = eng.load(st, pl)
    off_pl = eng.resolve(st, args[2])
    off = eng.load(st, off_pl)
    ty = eng.types[call.argtys[1]]
    tn = ty.get("path") or ty["s"]
    size = sizeof(eng, tn, args[3] if len(args) > 3 else UNIT)
    c = ascoll(eng, x)
    w = mk("pw", off, tn, eng.pure(st, args[1]), eng.pure(st, args[3]) if len(args) > 3 else UNIT, size)
    eng.storeto(st, pl, mk("coll", c.a[0], c.a[1], c.a[2] + (w,)))
    eng.storeto(st, off_pl, t.add(off, size))
    return [(st, OK(size))]


@model("scroll::pwrite::Pwrite::pwrite", "scroll::pwrite::Pwrite::pwrite_with")
def pwrite(eng, st, args, call):
    pl = eng.resolve(st, args[0])
    x = eng.load(st, pl)
    v = eng.val(st, args[1])
    c = x
    n = t.length(v)
    new = mk("pwritten", x, v, args[2])
    if x in TY:
        typed(new, TY[x])
    over = t.lt(t.length(x), t.add(n, args[2])) if x.op in ("arep", "arr", "slice") else ZERO
    out = []
    for b, s in eng.fork(st, over):
        if b:
            out.append((s, ERR(eng.sym("pwrite.err"))))
        else:
            eng.storeto(s, pl, new)
            out.append((s, OK(n)))
    return out


# sizes of on-disk structures
def size_model(name, rel=False):
    def f(eng, st, args, call):
        if rel:
            b = st.known(args[0])
            ctx = eng.pure(st, args[1])
            if b is ONE:
                return [(st, szof("elf.Rela", sizectx(ctx)))]
            if b is ZERO:
                return [(st, szof("elf.Rel", sizectx(ctx)))]
            out = []
            for v, s in eng.fork(st, b):
                out.append((s, szof("elf.Rela" if v else "elf.Rel", sizectx(ctx))))
            return out
        ctx = eng.pure(st, args[0])
        return [(st, szof(name, sizectx(ctx)))]
    return f
