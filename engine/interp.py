"""Abstract interpreter over the compiler's MIR (dumped by /verif/driver).

A forward dataflow analysis: blocks are processed in reverse post-order, states reaching the same
block are joined when they agree, loops are solved by a fixpoint over the set of modified locations
and replaced by a summary (per-alternative update of each location), callees are inlined or modelled.
The disjunctive part of the domain is a partition on enum-discriminant / boolean facts.
Nothing of the analysed crate is executed and no solver is called.
"""
import json
import re
import sys
import time

from . import terms as t
from .terms import T, I, S, B, ZERO, ONE, UNIT, mk, tup, vref, coll, one, adt, fld, TY, typed, eq, not_, discr

sys.setrecursionlimit(20000)
OPT = "core::option::Option"
RES = "core::result::Result"


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def NONE():
    return adt(OPT, 0)


def SOME(x):
    return adt(OPT, 1, x)


def OK(x=UNIT):
    return adt(RES, 0, x)


def ERR(x):
    return adt(RES, 1, x)


_np = {}


def normpath(p):
    r = _np.get(p)
    if r is not None:
        return r
    out = []
    d = 0
    i = 0
    # leading <T as Trait>::m
    if p.startswith("<"):
        j = 0
        dd = 0
        for j, ch in enumerate(p):
            if ch == "<":
                dd += 1
            elif ch == ">" and p[j - 1] != "-":
                dd -= 1
                if dd == 0:
                    break
        inner = p[1:j]
        m = re.search(r" as (.*)$", inner)
        head = m.group(1) if m else inner
        p2 = head + p[j + 1:]
        r = normpath(p2)
        _np[p] = r
        return r
    while i < len(p):
        ch = p[i]
        if ch == "<":
            d += 1
        elif ch == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    s = s.strip(":")
    _np[p] = s
    return s


class State:
    # disj: clauses (sets of boolean terms, one of which holds) left over from joins; None inside: something was forgotten
    __slots__ = ("store", "facts", "aux", "disj")

    def __init__(self, store=None, facts=None, aux=None, disj=frozenset()):
        self.disj = disj
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.aux = aux if aux is not None else ()

    def copy(self):
        return State(dict(self.store), dict(self.facts), self.aux, self.disj)

    # ---- facts
    def absorb(self, s):
        """weaken the facts to those of either of two states (self becomes their join)"""
        common = {x: f for x, f in self.facts.items() if s.facts.get(x) == f}
        d = joinclauses([c for x, f in self.facts.items() if x not in common for c in unitclauses(x, f)] + [c for c in self.disj if c not in s.disj],
                        [c for x, f in s.facts.items() if x not in common for c in unitclauses(x, f)] + [c for c in s.disj if c not in self.disj])
        self.disj = (self.disj & s.disj) | d
        self.facts = common

    def refuted(self):
        """do the facts contradict one of the clauses or each other?"""
        for f, v in self.facts.items():
            if f.op == "ite" and v[0] == "eq":
                c = self.known(f.a[0])
                if c.op == "int":
                    r = self.known(f.a[1] if c is ONE else f.a[2])
                    if r.op == "int" and r.a[0] != v[1]:
                        return True
        return any(c and all(self.known(l) is ZERO for l in c) for c in self.disj)

    def known(self, x):
        """evaluate an int/bool term under the facts; returns simplified term"""
        if x.op == "int":
            return x
        f = self.facts.get(x)
        if f is not None and f[0] == "eq":
            return I(f[1])
        o = x.op
        if o == "not":
            return not_(self.known(x.a[0]))
        if o == "and":
            return t.and_(*[self.known(p) for p in x.a[0]])
        if o == "eq":
            a, b = x.a
            ka, kb = self.known(a), self.known(b)
            if ka is not a or kb is not b:
                return self.known(eq(ka, kb))
            if kb.op == "int" and a in self.facts:
                f = self.facts[a]
                if f[0] == "ne" and kb.a[0] in f[1]:
                    return ZERO
            if ka.op == "int" and b in self.facts:
                f = self.facts[b]
                if f[0] == "ne" and ka.a[0] in f[1]:
                    return ZERO
            # differing discriminants
            da, db = discr(a), discr(b)
            if da.op == "discr":
                da = self.known(da)
            if db.op == "discr":
                db = self.known(db)
            if da.op == "int" and db.op == "int" and (a.op not in ("int",)) and (b.op not in ("int",)):
                if da is not db:
                    return ZERO
            elif da.op == "int" and db.op == "discr" and a.op != "int":
                f = self.facts.get(db)
                if f and f[0] == "ne" and da.a[0] in f[1]:
                    return ZERO
            elif db.op == "int" and da.op == "discr" and b.op != "int":
                f = self.facts.get(da)
                if f and f[0] == "ne" and db.a[0] in f[1]:
                    return ZERO
            return x
        if o == "lin":
            r = I(x.a[0])
            ch = False
            for k, v in x.a[1]:
                kk = self.known(k)
                ch = ch or kk is not k
                r = t.add(r, t.mulc(kk, v))
            return r if ch else x
        if o == "lt0":
            d = self.known(x.a[0])
            if d is not x.a[0]:
                return self.known(t.lt0(d) if d.op != "int" else B(d.a[0] < 0))
            return x
        if o == "ite":
            c = self.known(x.a[0])
            if c.op == "int":
                return self.known(x.a[1] if c is ONE else x.a[2])
            return x
        if o in ("discr",) and x.a[0].op == "ite":
            v = self.known(x.a[0])
            if v is not x.a[0]:
                return self.known(discr(v))
            return x
        if o in ("mod", "pad", "mul", "band", "bor", "trunc", "div", "max", "min"):
            m = {}
            for c in t.children(x):
                k = self.known(c)
                if k is not c:
                    m[c] = k
            if m:
                return self.known(t.rebuild(x, tuple(
                    m.get(y, y) if isinstance(y, T) else
                    tuple(m.get(z, z) for z in y) if isinstance(y, tuple) else y for y in x.a)))
        return x

    def assume(self, x, v):
        """assume boolean term x == v; False if contradictory"""
        x0, x = x, self.known(x)
        if x.op == "int":
            return x.a[0] == v
        if modeq(x0, x):
            x = x0
        if x.op == "not":
            return self.assume(x.a[0], 1 - v)
        if x.op == "and":
            if v == 1:
                for p in x.a[0]:
                    if not self.assume(p, 1):
                        return False
                return True
            self.facts[x] = ("eq", 0)
            return True
        if x.op == "eq":
            a, b = x.a
            if a.op == "int":
                a, b = b, a
            if b.op == "int":
                return self.setint(a, b.a[0], v)
            self.facts[x] = ("eq", v)
            if v == 1:
                # equal enums have equal discriminants
                pass
            return True
        if x.op == "lt0":
            self.facts[x] = ("eq", v)
            return True
        return self.setint(x, 1, v) if not t.isbool(x) else self._setb(x, v)

    def _setb(self, x, v):
        self.facts[x] = ("eq", v)
        return True

    def dom(self, x):
        if x in DOM:
            return DOM[x]
        if t.isbool(x) or (x in TY and ISBOOL[0](TY[x])):
            return (0, 1)
        return None

    def setint(self, x, n, v=1):
        f = self.facts.get(x)
        d = self.dom(x)
        if v == 1:
            if f is not None:
                if f[0] == "eq":
                    return f[1] == n
                if n in f[1]:
                    return False
            if d is not None and n not in d:
                return False
            self.facts[x] = ("eq", n)
            return True
        if f is not None:
            if f[0] == "eq":
                return f[1] != n
            s = f[1] | {n}
        else:
            s = frozenset([n])
        if d is not None:
            rest = [k for k in d if k not in s]
            if not rest:
                return False
            if len(rest) == 1:
                self.facts[x] = ("eq", rest[0])
                return True
        self.facts[x] = ("ne", s)
        return True


DOM = {}
ISBOOL = [lambda ty: False]


class Body:
    pass


class LoopRec:
    def __init__(self, L):
        self.L = L
        self.n = None
        self.where = None
        self.leaves = []      # (cell, path, entryvalue)
        self.alts = []        # list of Alt
        self.source = None    # segment iterated
        self.entry = None
        self.outer = ()
        self.irregular = False
        self.selfs = {}       # delta tuple -> header symbol that accumulates it
        self.exits = 0


class Alt:
    def __init__(self, facts, st, disj=frozenset()):
        self.disj = disj      # clauses added in this iteration
        self.facts = facts    # dict of new facts in this iteration
        self.st = st
        self.delta = {}       # leaf index -> delta term (numeric)
        self.items = {}       # leaf index -> tuple of segs appended
        self.logitems = {}
        self.new = {}         # leaf index -> new value


class Engine:
    def __init__(self, dump, budget=600, trace=False):
        self.D = dump if isinstance(dump, dict) else json.load(open(dump))
        self.types = self.D["types"]
        self.bodies = {}
        self.frame_n = 0
        self.heap_n = 0
        self.loop_n = 0
        self.loops = t.LOOPS
        self.panics = []
        self.notes = []
        self.noteset = set()
        self.cons = {}
        self.fault = False
        self.faultsites = []
        self.inlined = set()
        self.depth = 0
        self.stack = []
        self.skips = {}
        self.assumed = []
        self.opaque_rules = []
        self.deadline = time.time() + budget
        self.trace = trace
        self.loopstack = []
        self.nblocks = 0
        self.sensitive = False
        self.keyhook = None
        self.nocoll = False
        self.elmk = {}
        self.isnew = None
        t.NEWID.clear()
        t.OLDID.clear()
        t.SELFSUM.clear()
        t.SELFLEAF.clear()
        self.logging = False
        self.hashiter = []
        self.logcalls = []
        self.seeks = []
        self.probes = []
        self.pathty = {}
        for i, ty in enumerate(self.types):
            if "path" in ty:
                self.pathty.setdefault(ty["path"], []).append(i)
        t.FIELDLESS[0] = self.fieldless
        t.ENUMTY[0] = self.is_enum_path
        t.VARIANT_DISCR[0] = self.variant_discr
        ISBOOL[0] = lambda i: self.types[i]["k"] == "bool"
        from . import models
        self.models = models.MODELS
        self.M = models
        models.ISSTR = lambda x: self.types[TY[x]]["k"] == "str" or self.types[TY[x]].get("path") == "alloc::string::String"
        models.TYPATH = lambda x: self.types[TY[x]].get("path") if x in TY else None

    def reset(self, sensitive=False, budget=600):
        """fresh run on the same program"""
        # names of populations and definitions are used again with other types
        memo = {}
        for x in [] if sensitive else [x for x in TY if t.contains_op(x, ("sym", "el", "lf"), memo)]:
            del TY[x]
        t.POW2 = t.POW2 if sensitive else {x for x in t.POW2 if not t.contains_op(x, ("sym", "el", "lf"), memo)}
        self.panics = []
        self.notes = []
        self.noteset = set()
        self.cons = {}
        self.fault = False
        self.faultsites = []
        self.skips = {}
        self.probes = []
        self.assumed = []
        self.opaque_rules = []
        self.keyhook = None
        self.nocoll = False
        self.elmk = {}
        self.isnew = None
        t.NEWID.clear()
        t.OLDID.clear()
        t.SELFSUM.clear()
        t.SELFLEAF.clear()
        self.logging = False
        self.hashiter = []
        self.logcalls = []
        self.seeks = []
        self.sensitive = sensitive
        self.deadline = time.time() + budget
        self.loopstack = []
        self.stack = []
        self.depth = 0
        self.inlined = set()

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.types[i]

    def fieldless(self, i):
        ty = self.types[i]
        return ty["k"] == "enum" and "variants" in ty and all(not v["f"] for v in ty["variants"])

    def is_enum_path(self, path):
        l = self.pathty.get(path)
        return l is None or any(self.types[i]["k"] == "enum" for i in l)

    def variant_discr(self, path, v):
        l = self.pathty.get(path)
        if l:
            for i in l:
                vs = self.types[i].get("variants")
                if vs and self.types[i]["k"] == "enum" and v < len(vs):
                    d = vs[v].get("d")
                    return v if d is None else int(d)
        return v

    def tykind(self, i):
        return self.types[i]["k"] if i is not None else None

    def strip(self, i):
        """strip references"""
        while i is not None and self.types[i]["k"] in ("ref", "ptr"):
            i = self.types[i]["inner"]
        return i

    def sym(self, name, ty=None):
        x = mk("sym", name)
        if ty is not None:
            TY[x] = ty
            self.dom_of(x, ty)
        return x

    def dom_of(self, x, ty):
        ty_ = self.types[ty]
        if ty_["k"] == "bool":
            t.TYBITS[x] = 1
        if ty_["k"] == "int":
            if ty_.get("signed"):
                t.SIGNED.add(x)
            elif ty_["bits"] < 64:
                t.TYBITS[x] = ty_["bits"]

    def find_type(self, pred):
        for i, ty in enumerate(self.types):
            if pred(ty):
                return i
        return None

    def type_by_s(self, s):
        return self.find_type(lambda ty: ty["s"] == s)

    def field_index(self, tyi, name, variant=0):
        for i, f in enumerate(self.types[tyi]["variants"][variant]["f"]):
            if f["n"] == name:
                return i
        return None

    def fields(self, v, tyi=None, variant=0):
        """name -> value for a struct value"""
        if v.op == "adt":
            path = v.a[0]
            cands = self.pathty.get(path, [])
            for c in cands:
                vs = self.types[c].get("variants")
                if vs:
                    return {f["n"]: x for f, x in zip(vs[v.a[1]]["f"], v.a[2])}
        tyi = tyi if tyi is not None else TY.get(v)
        if tyi is None:
            return {}
        vs = self.types[tyi]["variants"]
        return {f["n"]: self.fld(v, variant, i, f["t"]) for i, f in enumerate(vs[variant]["f"])}

    def fld(self, v, variant, i, ty):
        r = fld(v, variant, i, ty)
        if ty is not None and r.op == "fld":
            self.dom_of(r, ty)
        return r

    # ---------------------------------------------------------------- bodies
    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            raw = self.D["bodies"].get(key)
            if raw is None:
                return None
            b = self.prep(key, raw)
            self.bodies[key] = b
        return b

    def prep(self, key, raw):
        b = Body()
        b.key = key
        b.raw = raw
        b.argc = raw["argc"]
        b.locals = raw["locals"]
        b.blocks = raw["blocks"]
        n = len(b.blocks)
        # skip-empty resolution
        def empty(i):
            bb = b.blocks[i]
            return all(s[0] in ("dead", "?", "nop") for s in bb["s"]) and bb["t"][0] in ("goto", "drop")

        def tgt(i, seen=()):
            if i in seen:
                return i
            bb = b.blocks[i]
            if bb["t"][0] == "goto" and all(s[0] != "=" for s in bb["s"]) and not bb["s"]:
                return tgt(bb["t"][1], seen + (i,))
            return i

        def deep(i, seen=()):
            if i in seen:
                return i
            if empty(i):
                tt = b.blocks[i]["t"]
                return deep(tt[1] if tt[0] == "goto" else tt[2], seen + (i,))
            return i
        b.succ = []
        b.term = []
        for i, bb in enumerate(b.blocks):
            tt = bb["t"]
            k = tt[0]
            if k == "switch":
                ts = [x[1] for x in tt[2]] + [tt[3]]
                ds = set(deep(x) for x in ts)
                live = [x for x in ts if b.blocks[x]["t"][0] != "unreachable" or b.blocks[x]["s"]]
                if len(ds) == 1:
                    tt = ["goto", ts[0]]
            if tt[0] == "goto":
                s = [tt[1]]
            elif tt[0] == "switch":
                s = [x[1] for x in tt[2]] + [tt[3]]
            elif tt[0] == "drop":
                s = [tt[2]]
            elif tt[0] == "call":
                s = [tt[4]] if tt[4] is not None else []
            elif tt[0] == "assert":
                s = [tt[3]]
            else:
                s = []
            b.term.append(tt)
            b.succ.append(s)
        # rpo
        order = []
        seen = set()
        stack = [(0, iter(b.succ[0]))]
        seen.add(0)
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(b.succ[w])))
                    break
            else:
                order.append(v)
                stack.pop()
        order.reverse()
        b.rpo = {v: i for i, v in enumerate(order)}
        b.order = order
        preds = {v: [] for v in order}
        for v in order:
            for w in b.succ[v]:
                preds[w].append(v)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for v in order[1:]:
                new = None
                for p in preds[v]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while b.rpo[x] > b.rpo[y]:
                                    x = idom[x]
                                while b.rpo[y] > b.rpo[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(v) != new:
                    idom[v] = new
                    ch = True

        def dom(a, x):
            while True:
                if x == a:
                    return True
                if x == 0:
                    return False
                x = idom[x]
        b.loops = {}
        for v in order:
            for w in b.succ[v]:
                if w in b.rpo and dom(w, v):
                    L = b.loops.setdefault(w, {w})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x)
                            st.extend(preds[x])
        # liveness
        use = {}
        dfn = {}
        b.taken = set()

        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    u.add(e[1])

        def opu(o, u):
            if o[0] in ("cp", "mv"):
                pl(o[1], u)

        def rvu(r, u):
            k = r[0]
            if k in ("use", "rep"):
                opu(r[1], u)
            elif k == "ref":
                p = r[2]
                pl(p, u)
                if not any(e[0] == "*" for e in p[1]):
                    b.taken.add(p[0])
            elif k == "cast":
                opu(r[2], u)
            elif k == "bin":
                opu(r[2], u)
                opu(r[3], u)
            elif k == "un":
                opu(r[2], u)
            elif k == "discr" or k == "len":
                pl(r[1], u)
            elif k == "agg":
                for o in r[2]:
                    opu(o, u)
            else:
                for x in r:
                    if isinstance(x, list) and x and x[0] in ("cp", "mv"):
                        opu(x, u)
        for v in order:
            u = set()
            d = set()
            bb = b.blocks[v]
            for s in bb["s"]:
                if s[0] == "=":
                    uu = set()
                    rvu(s[2], uu)
                    if s[1][1]:
                        pl(s[1], uu)
                    u |= uu - d
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == "setd":
                    uu = set()
                    pl(s[1], uu)
                    u |= uu - d
            tt = b.term[v]
            uu = set()
            if tt[0] == "switch":
                opu(tt[1], uu)
            elif tt[0] == "call":
                opu(tt[1], uu)
                for a in tt[2]:
                    opu(a, uu)
                if tt[3][1]:
                    pl(tt[3], uu)
            elif tt[0] == "assert":
                opu(tt[1], uu)
            elif tt[0] == "ret":
                uu.add(0)
            u |= uu - d
            if tt[0] == "call" and not tt[3][1]:
                d.add(tt[3][0])
            use[v] = u
            dfn[v] = d
        live = {v: set() for v in order}
        ch = True
        while ch:
            ch = False
            for v in reversed(order):
                o = set()
                for w in b.succ[v]:
                    o |= live.get(w, set())
                n_ = use[v] | (o - dfn[v])
                if n_ != live[v]:
                    live[v] = n_
                    ch = True
        b.live = live
        return b

    # ---------------------------------------------------------------- places
    def cell(self, fid, loc):
        return ("l", fid, loc)

    def heap(self, st, val):
        self.heap_n += 1
        c = ("h", self.heap_n)
        st.store[c] = val
        return c

    def deref(self, st, v):
        """value -> ('c', cell, path) or ('v', value)"""
        if v.op == "ref":
            return ("c", v.a[0], v.a[1])
        if v.op == "vref":
            return ("v", v.a[0], ())
        if v.op == "adt" and len(v.a[2]) == 1 and v.a[2][0].op in ("ref", "vref"):
            return self.deref(st, v.a[2][0])
        if v.op == "ite":
            # either of two places, for reading
            both = [self.deref(st, x) for x in v.a[1:]]
            if both[0] == both[1]:
                return both[0]
            return ("v", t.ite(v.a[0], self.load(st, both[0]), self.load(st, both[1])), ())
        d = mk("deref", v)
        if v in TY:
            ty = self.types[TY[v]]
            if "inner" in ty:
                typed(d, ty["inner"])
        return ("v", d, ())

    def load(self, st, pl):
        if pl[0] == "c":
            v = st.store.get(pl[1])
            if v is None:
                v = mk("uninit", pl[1])
            path = pl[2]
        else:
            v = pl[1]
            path = pl[2]
        for e in path:
            v = self.proj(st, v, e)
        return v

    def mkref(self, st, pl):
        if pl[0] == "c":
            return mk("ref", pl[1], tuple(pl[2]))
        v = self.load(st, pl)
        if v.op == "deref" :
            return v.a[0]
        return vref(v)

    def resolve(self, st, v):
        """follow value `v` (a reference chain) to the place of the first non-reference value"""
        pl = ("v", v, ())
        for _ in range(12):
            x = self.load(st, pl)
            if x.op in ("ref", "vref"):
                pl = self.deref(st, x)
            elif x in TY and self.types[TY[x]]["k"] == "ref":
                pl = self.deref(st, x)
            else:
                return pl
        return pl

    def val(self, st, v):
        """fully dereferenced value"""
        return self.load(st, self.resolve(st, v))

    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            if v.op in ("ref", "vref"):
                return v        # Box / Unique / NonNull internals
            if v.op == "ite":
                return t.ite(v.a[0], self.proj(st, v.a[1], e), self.proj(st, v.a[2], e))
            return self.fld(v, e[2], e[1], e[3])
        if k in ("at", "seg", "slot"):
            return self.M.coll_at(self, st, v, e)
        if k == "sub":
            return mk("subslice", v, e[1], e[2])
        if k == "rng":
            return self.M.typed(mk("slice", v, e[1], e[2]), self.M.TY.get(v))
        if k == "pf":   # field of map element pair
            return self.fld(v, 0, e[1], e[2])
        raise Unsupported("proj " + str(k))

    def expand(self, v, variant, tyi=None):
        tyi = TY.get(v, tyi)
        if tyi is None:
            raise Unsupported("cannot expand " + t.show(v)[:80])
        ty = self.types[tyi]
        if ty["k"] in ("struct", "enum"):
            fs = ty["variants"][variant]["f"]
            return adt(ty["path"], variant, *[self.fld(v, variant, i, f["t"]) for i, f in enumerate(fs)])
        if ty["k"] == "tuple":
            return mk("tup", tuple(self.fld(v, 0, i, a) for i, a in enumerate(ty["args"])))
        raise Unsupported("cannot expand kind " + ty["k"])

    def setp(self, st, v, path, val, tyi=None):
        if not path:
            return val
        e = path[0]
        k = e[0]
        if k in ("f", "pf"):
            i = e[1]
            variant = e[2] if k == "f" else 0
            if v is not None and v.op in ("ref", "vref"):
                return val if len(path) == 1 else self.setp(st, v, path[1:], val)
            if v is None or v.op == "uninit":
                v = mk("part", ())
            if v.op == "part":
                d = dict(v.a[0])
                d[(variant, i)] = self.setp(st, d.get((variant, i)), path[1:], val)
                return mk("part", tuple(sorted(d.items(), key=lambda kv: kv[0])))
            if v.op not in ("adt", "tup", "clos"):
                v = self.expand(v, variant, tyi)
            if v.op == "adt":
                fs = list(v.a[2])
                if v.a[1] != variant:
                    return mk("undef", v, variant, i)
                fs[i] = self.setp(st, fs[i], path[1:], val, e[3] if k == "f" else None)
                return mk("adt", v.a[0], v.a[1], tuple(fs))
            if v.op == "tup":
                fs = list(v.a[0])
                fs[i] = self.setp(st, fs[i], path[1:], val, e[3] if k == "f" else None)
                return mk("tup", tuple(fs))
            fs = list(v.a[1])
            fs[i] = self.setp(st, fs[i], path[1:], val)
            return mk("clos", v.a[0], tuple(fs))
        if k in ("at", "seg", "slot"):
            return self.M.coll_set(self, st, v, e, path[1:], val)
        if k == "rng" and len(path) == 1 and val.op == "pwritten" and val.a[0].op == "slice" and val.a[0].a[0] is v:
            # bytes written into a part of a buffer
            return mk("pwritten", v, val.a[1], t.add(e[1], val.a[2]))
        if k in ("sub", "rng"):
            raise Unsupported("write to subslice")
        raise Unsupported("setp " + str(k))

    def storeto(self, st, pl, val):
        if pl[0] == "v":
            self.note("lost-write", "write through immutable value")
            return
        c, path = pl[1], pl[2]
        if not path:
            st.store[c] = val
        else:
            st.store[c] = self.setp(st, st.store.get(c), tuple(path), val, self.celltype(c))

    def celltype(self, c):
        if c[0] == "l":
            fr = self.frames.get(c[1])
            if fr is not None:
                return fr.locals[c[2]]
        return None

    frames = {}

    def place(self, st, fr, p):
        pl = ("c", ("l", fr, p[0]), ())
        variant = 0
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, pl)
                pl = self.deref(st, v)
                variant = 0
            elif k == "f":
                pl = (pl[0], pl[1], pl[2] + (("f", e[1], variant, e[2]),))
                variant = 0
            elif k == "d":
                variant = e[1]
            elif k == "i":
                idx = self.load(st, ("c", ("l", fr, e[1]), ()))
                pl = (pl[0], pl[1], pl[2] + (("at", idx),))
            elif k == "c":
                if e[3]:
                    v = self.load(st, pl)
                    idx = t.sub(t.length(v), I(e[1]))
                else:
                    idx = I(e[1])
                pl = (pl[0], pl[1], pl[2] + (("at", idx),))
            elif k == "sub":
                pl = (pl[0], pl[1], pl[2] + (("sub", e[1], e[2]),))
            else:
                raise Unsupported("place elem " + str(e))
        return pl

    # ---------------------------------------------------------------- constants
    def const(self, k):
        return self.cval(k["v"], k["t"])

    def cval(self, v, ti):
        ty = self.types[ti]
        if "int" in v:
            return I(v["int"])
        if "str" in v:
            return vref(S(v["str"])) if ty["k"] in ("ref", "ptr") else S(v["str"])
        if "bytes" in v:
            x = mk("bytes", bytes(v["bytes"]))
            return vref(x) if ty["k"] in ("ref", "ptr") else x
        if "ref" in v:
            return vref(self.cval(v["ref"], ty.get("inner", ti)))
        if "unit" in v:
            return UNIT
        if "fn" in v:
            return self.fnval(v["fn"])
        if "adt" in v:
            ta = self.types[v["adt"]]
            return mk("adt", ta["path"], v["v"], tuple(self.cval(x[1], x[0]) for x in v["f"]))
        if "agg" in v:
            fs = tuple(self.cval(x[1], x[0]) for x in v["agg"])
            if ty["k"] == "tuple":
                return mk("tup", fs)
            return mk("arr", fs)
        if "zst" in v:
            if ty["k"] == "fndef":
                return self.fnval(ty["callee"])
            if ty["k"] == "closure":
                return mk("clos", ty["key"], ())
            if ty["k"] == "struct":
                fs = ty["variants"][0]["f"] if ty.get("variants") else []
                return mk("adt", ty["path"], 0, tuple(self.cval({"zst": True}, f["t"]) for f in fs))
            if ty["k"] == "tuple":
                return UNIT
            return mk("zst", ty["s"])
        if "static" in v:
            return vref(typed(mk("static", v["static"]), ty.get("inner")))
        return typed(mk("opaquec", json.dumps(v, sort_keys=True)[:200]), ti)

    def fnval(self, callee):
        s = json.dumps(callee, sort_keys=True)
        f = mk("fn", s)
        self.fns[f] = callee
        return f

    fns = {}

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(o[1])
        pl = self.place(st, fr, o[1])
        return self.load(st, pl)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dty=None):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            pl = self.place(st, fr, r[2])
            return self.mkref(st, pl)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == "un":
            x = self.operand(st, fr, r[2])
            op = r[1]
            if op == "Not":
                if self.types[r[3]]["k"] == "bool":
                    return not_(x)
                if x.op == "int":
                    ty = self.types[r[3]]
                    bits = ty.get("bits", 64)
                    if ty.get("signed"):
                        return I(~x.a[0])
                    return I(~x.a[0] & ((1 << bits) - 1))
                return t.bnot(x)
            if op == "Neg":
                return t.mulc(x, -1)
            if op == "PtrMetadata":
                return t.length(self.val(st, x))
            raise Unsupported("un " + op)
        if k == "cast":
            x = self.operand(st, fr, r[2])
            kind, fi, ti = r[1], r[3], r[4]
            if kind == "IntToInt":
                f, g = self.types[fi], self.types[ti]
                if g["k"] == "int":
                    fb = f.get("bits", 8)
                    gb = g.get("bits", 64)
                    if x.op == "int":
                        return t.trunc(x, gb, g.get("signed", False))
                    if f["k"] == "int" and gb < fb:
                        return t.trunc(x, gb, g.get("signed", False))
                    if f["k"] == "int" and f.get("signed") and not g.get("signed") and any(y in t.SIGNED for y in t._lin(x)[1]):
                        return mk("trunc", x, gb)
                    if g.get("signed") and x.op == "trunc" and x.a[1] == gb and x.a[0] in t.SIGNED:
                        return x.a[0]
                return x
            if kind not in ("FloatToInt", "IntToFloat", "FloatToFloat"):
                return x
            return typed(mk("cast", kind, x, self.types[ti]["s"]), ti)
        if k == "discr":
            pl = self.place(st, fr, r[1])
            v = self.load(st, pl)
            d = self.discr(st, v, self.place_type(fr, r[1]))
            return d
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            if kind[0] == "tuple":
                return mk("tup", ops)
            if kind[0] == "array":
                return mk("arr", ops)
            if kind[0] == "adt":
                ty = self.types[kind[1]]
                if len(kind) > 3 and kind[3]:
                    raise Unsupported("union")
                v = mk("adt", ty["path"], kind[2], ops)
                return v
            if kind[0] == "closure":
                return mk("clos", self.types[kind[1]]["key"], ops)
            raise Unsupported("agg " + str(kind))
        if k == "rep":
            n = r[2]
            v = self.operand(st, fr, r[1])
            return mk("arep", v, n)
        if k == "len":
            return t.length(self.load(st, self.place(st, fr, r[1])))
        raise Unsupported("rvalue " + json.dumps(r)[:120])

    def place_type(self, fr, p):
        body = self.frames[fr]
        ti = body.locals[p[0]]
        for e in p[1]:
            if e[0] == "*":
                ty = self.types[ti]
                if "inner" in ty:
                    ti = ty["inner"]
                elif ty["k"] == "struct" and ty.get("args"):
                    ti = ty["args"][0]
                else:
                    return None
            elif e[0] == "f":
                ti = e[2]
            elif e[0] in ("i", "c"):
                ti = self.types[ti].get("inner")
                if ti is None:
                    return None
            elif e[0] == "sub":
                pass
        return ti

    def discr(self, st, v, tyi=None):
        if v.op == "ite":
            return t.ite(v.a[0], self.discr(st, v.a[1], tyi), self.discr(st, v.a[2], tyi))
        d = discr(v)
        if d.op == "discr" and d not in DOM:
            ti = TY.get(v, tyi)
            if ti is not None and self.types[ti]["k"] == "enum" and "variants" in self.types[ti]:
                DOM[d] = tuple(i if x.get("d") is None else int(x["d"]) for i, x in enumerate(self.types[ti]["variants"]))
        return d

    def binop(self, st, op, x, y, ti):
        wo = op.endswith("WithOverflow")
        base = op[:-len("WithOverflow")] if wo else op
        if base.endswith("Unchecked"):
            base = base[:-9]
        ty = self.types[ti]
        r = None
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                r = t.add(x, y)
            elif base == "Sub":
                r = t.sub(x, y)
            else:
                r = t.mul(x, y)
        elif base == "Div":
            r = t.div(x, y)
        elif base == "Rem":
            r = t.mod(x, y)
        elif base == "BitAnd":
            if t.isbool(x) and t.isbool(y) and ty["k"] == "bool":
                r = t.and_(x, y)
            else:
                r = t.band(x, y, ty.get("bits", 64))
        elif base == "BitOr":
            if ty["k"] == "bool":
                r = t.or_(x, y)
            else:
                r = t.bor(x, y)
        elif base == "BitXor":
            if ty["k"] == "bool":
                r = not_(eq(x, y)) if not (x in (ZERO, ONE) or y in (ZERO, ONE)) else t.bxor(x, y)
            else:
                r = t.bxor(x, y)
        elif base == "Shl":
            r = t.shl(x, y)
            if ty.get("bits", 64) < 64 and r.op == "int":
                r = t.trunc(r, ty["bits"], ty.get("signed", False))
        elif base == "Shr":
            r = t.shr(x, y)
        elif base == "Eq":
            r = self.eqv(st, x, y)
        elif base == "Ne":
            r = not_(self.eqv(st, x, y))
        elif base == "Lt":
            r = t.lt(x, y)
        elif base == "Le":
            r = not_(t.lt(y, x))
        elif base == "Gt":
            r = t.lt(y, x)
        elif base == "Ge":
            r = not_(t.lt(x, y))
        elif base == "Cmp":
            r = mk("cmp3", x, y)
        if r is None:
            raise Unsupported("bin " + op)
        return tup(r, ZERO) if wo else r

    def eqv(self, st, x, y):
        """equality of two values, following references"""
        if x.op in ("ref", "vref") or y.op in ("ref", "vref"):
            x, y = self.val(st, x), self.val(st, y)
        return eq(x, y)

    # ---------------------------------------------------------------- execution
    def note(self, kind, what, where=None):
        k = (kind, what, self.where())
        if k not in self.noteset:
            self.noteset.add(k)
            self.notes.append(k)

    def where(self):
        return self.stack[-1] if self.stack else "?"

    def run(self, key, args, st):
        """analyse function `key`; returns [(state, return value)]"""
        body = self.body(key)
        if body is None:
            raise Unsupported("no body " + key)
        if self.depth > 60:
            raise Unsupported("depth")
        self.inlined.add(key)
        self.frame_n += 1
        fid = self.frame_n
        self.frames[fid] = body
        for i, a in enumerate(args):
            st.store[("l", fid, i + 1)] = a
        self.depth += 1
        self.stack.append(key)
        try:
            backs, exits, rets = self.region(fid, body, 0, [st], None)
        finally:
            self.depth -= 1
            self.stack.pop()
        out = []
        for s in rets:
            rv = s.store.get(("l", fid, 0), UNIT)
            for c in [c for c in s.store if c[0] == "l" and c[1] == fid]:
                del s.store[c]
            out.append((s, rv))
        return self.joinret(out)

    def joinret(self, out):
        if len(out) < 2:
            return out
        if not self.sensitive and 2 < len(out) <= 16:
            # exact joins first: absorbing equal results early would leave the others without a partner
            out = self.smartjoin(out)
        d = {}
        res = []
        for s, rv in out:
            k = (rv, frozenset(s.store.items()), s.aux)
            if self.sensitive:
                k += (frozenset(s.facts.items()),)
            elif self.nocoll:
                # which kind of element a mixed population has at hand stays apart
                k += (frozenset((x, f) for x, f in s.facts.items() if x.op == "cls"),)
            if k in d:
                o = d[k]
                o.absorb(s)
            else:
                d[k] = s
                res.append((s, rv))
        return self.smartjoin(res)

    def smartjoin(self, res):
        """join partitions that differ by one fact: numeric idioms, else gated (conditional) values"""
        if len(res) < 2 or len(res) > 400:
            return res
        res = list(res)
        i = 0
        while i < len(res):
            j = i + 1
            again = False
            while j < len(res):
                m = self.pairjoin(res[i], res[j])
                if m is not None:
                    res[i] = m
                    del res[j]
                    again = True
                else:
                    j += 1
            if again:
                i = 0
            else:
                i += 1
        return res

    @staticmethod
    def allowed(x, f):
        d = DOM.get(x)
        if d is None and t.isbool(x):
            d = (0, 1)
        if f is None:
            return d and frozenset(d)
        if f[0] == "eq":
            return frozenset([f[1]])
        return frozenset(d) - f[1] if d is not None else None

    def pairjoin(self, a, b):
        (s1, r1), (s2, r2) = a, b
        if s1.aux != s2.aux or len(s1.store) != len(s2.store) or s1.store.keys() != s2.store.keys():
            return None
        g1, g2 = s1.facts, s2.facts
        if not self.sensitive:
            m = self.compjoin(a, b) or self.compjoin(b, a)
            if m is not None:
                return m
        if abs(len(g1) - len(g2)) > 1:
            return None
        diff = [k for k, v in g1.items() if g2.get(k) != v]
        if len(diff) > 1:
            return None
        for k in g2:
            if k not in g1:
                diff.append(k)
                if len(diff) > 1:
                    return None
        if len(diff) != 1:
            return None
        x = diff[0]
        f1, f2 = g1.get(x), g2.get(x)
        if f1 is None or f2 is None or x.op == "cls":
            return None
        # disjoint?
        union = None
        if f1[0] == "eq" and f2[0] == "eq":
            cond, sw = self.factcond(x, f1[1]), False
            d = self.allowed(x, None)
            if d is not None:
                rest = frozenset(d) - {f1[1], f2[1]}
                union = ("ne", rest) if rest else None
        elif f1[0] == "eq" and f1[1] in f2[1]:
            cond, sw = self.factcond(x, f1[1]), False
            rest = f2[1] - {f1[1]}
            union = ("ne", rest) if rest else None
        elif f2[0] == "eq" and f2[1] in f1[1]:
            cond, sw = self.factcond(x, f2[1]), True
            rest = f1[1] - {f2[1]}
            union = ("ne", rest) if rest else None
        else:
            return None
        diffs = []
        if r1 is not None:
            self.leafdiff(r1, r2, ("ret",), diffs)
        for c in s1.store:
            if s1.store[c] is not s2.store[c]:
                self.leafdiff(s1.store[c], s2.store[c], (c,), diffs)
                if len(diffs) > 24:
                    return None
        vals = []
        for p, v1, v2 in diffs:
            m = self.idiom(x, f1, f2, v1, v2) if x.op in ("mod", "lt0", "eq", "pad") else None
            if m is None:
                if self.sensitive:
                    return None
                if any(isinstance(q, tuple) and q[0] in ("op", "opx", "opc") or q == "src" for q in p):
                    return None
                if not (gateable(v1) and gateable(v2)):
                    return None
                m = t.ite(cond, v2, v1) if sw else t.ite(cond, v1, v2)
            vals.append((p, m))
        if self.sensitive and not diffs:
            return None
        s = s1.copy()
        s.disj = (s1.disj & s2.disj) | joinclauses([c for c in unitclauses(x, f1) + list(s1.disj - s2.disj)], unitclauses(x, f2) + list(s2.disj - s1.disj)) if s1.disj != s2.disj or union is None else s1.disj
        if union is None:
            del s.facts[x]
        elif f1[0] == "eq" and f2[0] == "eq" and self.allowed(x, None) is not None and \
                len(self.allowed(x, None) - union[1]) == 0:
            del s.facts[x]
        else:
            s.facts[x] = union
        r = r1
        for p, m in vals:
            if p[0] == "ret":
                r = self.setleaf(r, p[1:], m)
            else:
                s.store[p[0]] = self.setleaf(s.store[p[0]], p[1:], m)
        return (s, r)

    def compjoin(self, a, b):
        """join when the facts one side has on top of the other's are exactly what a clause of the other side excludes"""
        (s1, r1), (s2, r2) = a, b
        g1, g2 = s1.facts, s2.facts
        if not 2 <= len(g1) - len(g2) <= 4 or any(g1.get(k) != v for k, v in g2.items()):
            return None
        cl = s2.disj - s1.disj
        if len(cl) != 1 or s1.disj - s2.disj:
            return None
        c, = cl
        ks = [k for k in g1 if k not in g2]
        if len(c) != len(ks) or any(k.op == "cls" for k in ks):
            return None
        lits = []
        for k in ks:
            u = unitclauses(k, g1[k])
            if len(u) != 1:
                return None
            l, = u[0]
            if not any(contrary(l, m) for m in c):
                return None
            lits.append(l)
        diffs = []
        if r1 is not None:
            self.leafdiff(r1, r2, ("ret",), diffs)
        for x in s1.store:
            if s1.store[x] is not s2.store[x]:
                self.leafdiff(s1.store[x], s2.store[x], (x,), diffs)
                if len(diffs) > 24:
                    return None
        vals = []
        lits.sort(key=lambda l: (l.op == "lt0" or l.op == "not" and l.a[0].op == "lt0", l.i))
        for p, v1, v2 in diffs:
            if any(isinstance(q, tuple) and q[0] in ("op", "opx", "opc") or q == "src" for q in p) or not (gateable(v1) and gateable(v2)):
                return None
            m, v2 = toplevel(s1, v1), toplevel(s2, v2)
            for l in reversed(lits):
                m = t.ite(l, m, v2)
            vals.append((p, m))
        s = s1.copy()
        s.disj = s1.disj
        for k in ks:
            del s.facts[k]
        r = r1
        for p, m in vals:
            if p[0] == "ret":
                r = self.setleaf(r, p[1:], m)
            else:
                s.store[p[0]] = self.setleaf(s.store[p[0]], p[1:], m)
        return (s, r)

    @staticmethod
    def factcond(x, n):
        if t.isbool(x):
            return x if n == 1 else not_(x)
        return eq(x, I(n))

    def idiom(self, x, f1, f2, v1, v2):
        num = lambda v: v.op in ("int", "lin", "mod", "pad", "sym", "fld", "el", "mul", "len", "psum", "hdr", "Sum", "max",
                                 "min", "pow2", "log2", "iter", "npre", "sizeof", "niter", "lookup", "trunc", "div", "ilen", "ptrsize")
        if not (num(v1) and num(v2)):
            return None
        if x.op in ("mod", "pad"):
            z = (f1 == ("eq", 0), f2 == ("eq", 0))
            if z == (False, True):
                v1, v2, f1, f2 = v2, v1, f2, f1
            elif z != (True, False):
                return None
            if f2 != ("ne", frozenset([0])) and f2[0] != "eq":
                return None
            if x.op == "pad":
                # v1 under pad==0, v2 otherwise
                d = t.sub(v2, v1)
                if d is x:
                    return v2
                return None
            a = x.a[1]
            unit = t.sub(a, x)
            d = t.sub(v2, v1)
            for k in (1, -1, 2):
                if d is t.mulc(unit, k):
                    return t.add(v1, t.mulc(t.pad(x.a[0], a), k))
            # v1 may have been simplified with mod == 0
            return None
        if x.op == "lt0":
            if f1 == ("eq", 0):
                v1, v2, f1, f2 = v2, v1, f2, f1
            if f1 != ("eq", 1) or f2 != ("eq", 0):
                return None
            # x true -> v1 else v2
            if t.lt(v2, v1) is x or not_(t.lt(v1, v2)) is x:
                return t.maxv(v1, v2)
            if t.lt(v1, v2) is x or not_(t.lt(v2, v1)) is x:
                return t.minv(v1, v2)
            # the negated orientation
            if not_(t.lt(v2, v1)) is not_(x):
                return t.maxv(v1, v2)
            return None
        return None

    def leafdiff(self, a, b, path, out):
        if a is b:
            return
        if a.op == b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                self.leafdiff(x, y, path + (i,), out)
            return
        if a.op == b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                self.leafdiff(x, y, path + (i,), out)
            return
        if a.op == b.op == "clos" and a.a[0] == b.a[0]:
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                self.leafdiff(x, y, path + (i,), out)
            return
        if a.op == b.op == "vref":
            self.leafdiff(a.a[0], b.a[0], path + (("vr",),), out)
            return
        if a.op == b.op == "iter" and len(a.a[1]) == len(b.a[1]):
            if a.a[0] is not b.a[0] or a.a[2] is not b.a[2]:
                out.append((path + ("src",), a, b))
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                if x.op == y.op == "op_enum":
                    if x is not y:
                        out.append((path + (("op", i),), x.a[0], y.a[0]))
                elif x is not y:
                    self.leafdiff(x, y, path + (("opx", i),), out)
            return
        if a.op == b.op and a.op in ("op_map", "op_filter", "op_fmap"):
            self.leafdiff(a.a[0], b.a[0], path + (("opc",),), out)
            return
        if a.op == b.op == "coll" and a.a[0] == b.a[0] and a.a[2] is b.a[2] or (a.op == b.op == "coll" and a.a[2] == b.a[2]):
            # element-wise when the shapes agree and only `one` payloads differ
            if len(a.a[1]) == len(b.a[1]) and all(
                    x is y or (x.op == y.op and x.op in SEGARGS and all(
                        p is q or isinstance(p, T) and isinstance(q, T) and k in SEGARGS[x.op]
                        for k, (p, q) in enumerate(zip(x.a, y.a)))) for x, y in zip(a.a[1], b.a[1])):
                for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                    if x is not y:
                        for k in SEGARGS[x.op]:
                            if x.a[k] is not y.a[k]:
                                self.leafdiff(x.a[k], y.a[k], path + (("seg", i, k),), out)
                return
        out.append((path, a, b))

    def getleaf(self, v, path):
        for p in path:
            if p == "src":
                return v
            if isinstance(p, tuple):
                if p[0] == "op":
                    v = v.a[1][p[1]].a[0]
                elif p[0] == "opx":
                    v = v.a[1][p[1]]
                elif p[0] == "opc":
                    v = v.a[0]
                elif p[0] == "seg":
                    v = v.a[1][p[1]].a[p[2]]
                elif p[0] == "vr":
                    v = v.a[0]
            elif v.op == "adt":
                v = v.a[2][p]
            elif v.op == "tup":
                v = v.a[0][p]
            elif v.op == "clos":
                v = v.a[1][p]
            else:
                return None
        return v

    def setleaf(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p == "src":
            # new is an iter; take its source, keep our ops
            return mk("iter", new.a[0], v.a[1], new.a[2])
        if isinstance(p, tuple):
            if p[0] == "op":
                ops = list(v.a[1])
                ops[p[1]] = mk("op_enum", new, *ops[p[1]].a[1:])
                return mk("iter", v.a[0], tuple(ops), v.a[2])
            if p[0] == "opx":
                ops = list(v.a[1])
                ops[p[1]] = self.setleaf(ops[p[1]], path[1:], new)
                return mk("iter", v.a[0], tuple(ops), v.a[2])
            if p[0] == "opc":
                return mk(v.op, self.setleaf(v.a[0], path[1:], new), *v.a[1:])
            if p[0] == "seg":
                segs = list(v.a[1])
                sg = segs[p[1]]
                args = list(sg.a)
                args[p[2]] = self.setleaf(args[p[2]], path[1:], new)
                segs[p[1]] = mk(sg.op, *args)
                return mk("coll", v.a[0], tuple(segs), v.a[2])
            if p[0] == "vr":
                return vref(self.setleaf(v.a[0], path[1:], new))
        if v.op == "adt":
            fs = list(v.a[2])
            fs[p] = self.setleaf(fs[p], path[1:], new)
            return mk("adt", v.a[0], v.a[1], tuple(fs))
        if v.op == "tup":
            fs = list(v.a[0])
            fs[p] = self.setleaf(fs[p], path[1:], new)
            return mk("tup", tuple(fs))
        if v.op == "clos":
            fs = list(v.a[1])
            fs[p] = self.setleaf(fs[p], path[1:], new)
            return mk("clos", v.a[0], tuple(fs))
        raise Unsupported("setleaf")

    def arrive(self, fid, body, blk, sts):
        """prune dead locals and join equal states"""
        live = body.live.get(blk, set())
        taken = body.taken
        d = {}
        res = []
        for s in sts:
            dead = [c for c in s.store if c[0] == "l" and c[1] == fid and c[2] not in live and c[2] not in taken]
            for c in dead:
                del s.store[c]
        if len(sts) == 1:
            return sts
        if not self.sensitive and 2 < len(sts) <= 16:
            sts = [s for s, _ in self.smartjoin([(s, None) for s in sts])]
        for s in sts:
            k = (frozenset(s.store.items()), s.aux)
            if self.sensitive:
                k += (frozenset(s.facts.items()),)
            elif self.nocoll:
                k += (frozenset((x, f) for x, f in s.facts.items() if x.op == "cls"),)
            o = d.get(k)
            if o is not None:
                o.absorb(s)
            else:
                d[k] = s
                res.append((s, None))
        return [s for s, _ in self.smartjoin(res)]

    def region(self, fid, body, entry, sts, blocks, header=None):
        pend = {entry: list(sts)}
        backs, exits, rets = [], [], []
        first = True
        rpo = body.rpo
        while pend:
            blk = min(pend, key=lambda x: rpo[x])
            cur = pend.pop(blk)
            if time.time() > self.deadline:
                raise Budget()
            if not (first and header == blk):
                cur = self.arrive(fid, body, blk, cur)
            if blk in body.loops and not (first and header == blk):
                first = False
                outs = []
                for s in cur:
                    outs += self.loop(fid, body, blk, s)
                for tg, s in outs:
                    if blocks is not None and tg not in blocks:
                        exits.append((tg, s))
                    elif tg == header:
                        backs.append(s)
                    else:
                        pend.setdefault(tg, []).append(s)
                continue
            first = False
            for s in cur:
                for tg, s2 in self.block(fid, body, blk, s):
                    if tg == "ret":
                        rets.append(s2)
                    elif tg == header and header is not None:
                        backs.append(s2)
                    elif blocks is not None and tg not in blocks:
                        exits.append((tg, s2))
                    else:
                        pend.setdefault(tg, []).append(s2)
        if header is not None:
            backs = self.arrive(fid, body, header, backs)
        return backs, exits, rets

    def block(self, fid, body, blk, st):
        """execute one basic block -> [(successor, state)]"""
        self.nblocks += 1
        bb = body.blocks[blk]
        for s in bb["s"]:
            if s[0] == "=":
                try:
                    v = self.rvalue(st, fid, s[2])
                except Unsupported as e:
                    self.note("unsupported", str(e))
                    ti = self.place_type(fid, s[1])
                    v = typed(mk("opq", body.key, s[3] if len(s) > 3 else 0, str(e)), ti)
                if not s[1][1]:
                    st.store[("l", fid, s[1][0])] = v
                else:
                    try:
                        self.storeto(st, self.place(st, fid, s[1]), v)
                    except Unsupported as e:
                        self.note("unsupported-store", str(e))
            elif s[0] == "dead":
                st.store.pop(("l", fid, s[1]), None)
        tt = body.term[blk]
        k = tt[0]
        if k == "goto":
            return [(tt[1], st)]
        if k == "drop":
            return [(tt[2], st)]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(st, fid, tt)
        if k == "assert":
            c = st.known(self.operand(st, fid, tt[1]))
            if c.op == "int" and (c.a[0] != 0) != bool(tt[2]):
                self.panic(st, "assert:" + str(tt[4]), bb["l"])
                return []
            if c.op != "int":
                # overflow / bounds checks are assumed to hold (see DESIGN: arithmetic is over the integers)
                pass
            return [(tt[3], st)]
        if k == "call":
            line = bb["l"]
            self.line = line
            f = tt[1]
            args = [self.operand(st, fid, a) for a in tt[2]]
            if f[0] == "k":
                v = f[1]["v"]
                callee = v.get("fn")
                if callee is None:
                    cv = self.const(f[1])
                    callee = self.fns.get(cv)
                res = self.dispatch(callee, args, tt[5], tt[6], st, line)
            else:
                fv = self.operand(st, fid, f)
                res = self.callval(fv, args, st, tt[5], tt[6], line)
            out = []
            for s2, rv in res:
                if rv is None or tt[4] is None:
                    continue
                if not tt[3][1]:
                    s2.store[("l", fid, tt[3][0])] = rv
                else:
                    self.storeto(s2, self.place(s2, fid, tt[3]), rv)
                out.append((tt[4], s2))
            return out
        raise Unsupported("term " + k)

    def fork(self, st, c):
        """[(value, state)] for a boolean term"""
        c0, c = c, st.known(c)
        if c.op == "int":
            return [(1 if c.a[0] else 0, st)]
        k = t.findite(c)
        if k is not None and (self.sensitive or self.decides(st, c)):
            out = []
            for b, s in self.fork(st, k):
                c2 = assume_ite(c, k, b)
                out += self.fork(s, c2)
            return out
        out = []
        if modeq(c0, c):
            # the condition as the program's values have it (they are not rewritten under the path's facts)
            c = c0
        s1 = st.copy()
        if s1.assume(c, 1):
            out.append((1, s1))
        s0 = st.copy()
        if s0.assume(c, 0):
            out.append((0, s0))
        return out

    def decides(self, st, c, d=0):
        """does settling the conditionals inside c settle c in some case?"""
        c = st.known(c)
        if c.op == "int":
            return True
        k = t.findite(c)
        if k is None:
            return False
        if d >= 6:
            return True
        for b in (1, 0):
            s = st.copy()
            if s.assume(k, b) and self.decides(s, assume_ite(c, k, b), d + 1):
                return True
        return False

    def switch(self, st, fid, tt):
        v = self.operand(st, fid, tt[1])
        k = st.known(v)
        if not modeq(v, k):
            v = k
        cases, other = tt[2], tt[3]
        return self.switchval(st, v, cases, other)

    def switchval(self, st, v, cases, other):
        if v.op not in ("int", "ite") and not t.isbool(v):
            k = t.findite(v)
            if k is not None:
                out = []
                for b, s in self.fork(st, k):
                    out += self.switchval(s, s.known(assume_ite(v, k, b)), cases, other)
                return out
        if v.op == "int":
            for n, b in cases:
                if n == v.a[0]:
                    return [(b, st)]
            return [(other, st)]
        if v.op == "ite":
            d = None if self.sensitive else twoval(v)
            if d and not self.decides(st, v):
                out = []
                hit = dict(cases)
                for b, s in self.fork(st, eq(v, I(max(d)))):
                    out.append((hit.get(max(d) if b else min(d), other), s))
                return out
            out = []
            for b, s in self.fork(st, v.a[0]):
                out += self.switchval(s, s.known(v.a[1] if b else v.a[2]), cases, other)
            return out
        out = []
        if t.isbool(v):
            for b, s in self.fork(st, v):
                for n, tg in cases:
                    if n == b:
                        out.append((tg, s))
                        break
                else:
                    out.append((other, s))
            return out
        so = st.copy()
        ok = True
        for n, tg in cases:
            s = st.copy()
            if s.setint(v, n, 1):
                out.append((tg, s))
            if ok:
                ok = so.setint(v, n, 0)
        if ok:
            out.append((other, so))
        return out

    def panic(self, st, msg, line):
        self.panics.append((tuple(self.stack), line, msg, dict(st.facts), st.disj))

    # ---------------------------------------------------------------- calls
    def callval(self, fv, args, st, argtys, destty, line):
        """call a function value with already-untupled args"""
        v = fv
        for _ in range(4):
            if v.op in ("ref", "vref"):
                inner = self.load(st, self.deref(st, v))
                if inner.op in ("clos", "fn", "ref", "vref"):
                    if inner.op == "clos":
                        return self.callclos(v, inner, args, st)
                    v = inner
                    continue
            break
        if v.op == "clos":
            return self.callclos(None, v, args, st)
        if v.op == "fn":
            return self.dispatch(self.fns[v], args, argtys, destty, st, line)
        return self.opaque("indirect", [fv] + list(args), [None] * (1 + len(args)), destty, st)

    def callclos(self, ref, clos, args, st):
        key = clos.a[0]
        body = self.body(key)
        if body is None:
            return self.opaque("closure " + key, [clos] + list(args), [None] * (1 + len(args)), None, st)
        selfty = self.types[body.locals[1]] if body.argc >= 1 else None
        tmp = None
        if selfty is not None and selfty["k"] == "ref":
            if ref is None:
                tmp = self.heap(st, clos)
                ref = mk("ref", tmp, ())
            a0 = ref
        else:
            a0 = clos
        a = [a0] + list(args)
        if body.argc == 2 and len(args) != 1 and body.raw.get("spread"):
            a = [a0, mk("tup", tuple(args))]
        return self.run(key, a, st)

    def dispatch(self, callee, args, argtys, destty, st, line):
        if callee is None:
            return self.opaque("unknown", args, argtys, destty, st)
        if "ctor" in callee:
            ti, vi = callee["ctor"]
            ty = self.types[ti]
            return [(st, mk("adt", ty["path"], vi, tuple(args)))]
        path = callee["path"]
        np = normpath(path)
        nrp = normpath(callee.get("rpath", path))
        for rule in self.opaque_rules:
            r = rule(self, callee, args, argtys, destty, st)
            if r is not None:
                return r
        m = self.models.get(nrp) or self.models.get(np)
        if m is not None:
            try:
                r = m(self, st, args, Call(callee, argtys, destty, line, np))
                if r is not None:
                    return r
            except Unsupported as e:
                self.note("model", "%s: %s" % (np, e))
        if callee.get("derived") or (callee.get("trait") == "core::clone::Clone" and callee.get("rcrate") != self.D["crate"]):
            meth = callee.get("method") or callee.get("name")
            if meth == "clone":
                return [(st, self.load(st, self.deref(st, args[0])))]
            if callee.get("derived") and meth in ("eq", "ne"):
                e = self.eqv(st, args[0], args[1])
                return [(st, e if meth == "eq" else not_(e))]
        key = callee.get("key")
        if callee.get("trait", "").startswith("core::ops::function::Fn") and key is None or (key and callee.get("shim") == "fnonce"):
            a = args[1]
            al = list(a.a[0]) if a.op == "tup" else [a]
            return self.callval(args[0], al, st, argtys, destty, line)
        if callee.get("trait", "").startswith("core::ops::function::Fn"):
            a = args[1]
            al = list(a.a[0]) if a.op == "tup" else [a]
            return self.callval(args[0], al, st, argtys, destty, line)
        if key is not None and key in self.D["bodies"] and self.stack.count(key) < 3:
            try:
                s0 = st.copy()
                return self.run(key, args, st)
            except Unsupported as e:
                self.note("inline", "%s: %s" % (key, e))
                st = s0
        return self.opaque(np, args, argtys, destty, st)

    def opaque(self, np, args, argtys, destty, st, quiet=False):
        if destty is not None and self.types[destty]["k"] == "never":
            self.panic(st, np, getattr(self, "line", 0))
            return []
        if not quiet:
            self.note("opaque", np)
        vals = tuple(self.pure(st, a) for a in args)
        for i, a in enumerate(args):
            ti = argtys[i] if argtys and i < len(argtys) else None
            if ti is not None and self.types[ti]["k"] == "ref" and self.types[ti].get("mut") and a.op == "ref":
                pl = self.deref(st, a)
                self.storeto(st, pl, typed(mk("havoc", np, i, vals), self.types[ti]["inner"]))
                if not quiet:
                    self.note("havoc", np)
        r = typed(mk("app", np, vals), destty)
        if destty is not None:
            self.dom_of(r, destty)
        return [(st, r)]

    def pure(self, st, a, d=0):
        """replace references by the values they denote"""
        if d > 6:
            return a
        if a.op in ("ref",):
            return self.pure(st, self.load(st, self.deref(st, a)), d + 1)
        if a.op == "vref":
            return self.pure(st, a.a[0], d + 1)
        if a.op == "tup":
            return mk("tup", tuple(self.pure(st, x, d + 1) for x in a.a[0]))
        if a.op == "adt":
            return mk("adt", a.a[0], a.a[1], tuple(self.pure(st, x, d + 1) for x in a.a[2]))
        return a

    # ---------------------------------------------------------------- loops
    def loop(self, fid, body, h, st):
        def step(s):
            b, e, r = self.region(fid, body, h, [s], body.loops[h], header=h)
            return b, e
        return self.summarise(st, step, (body.key, body.blocks[h]["l"]))

    def skipstate(self, L, st):
        """an element was filtered out: the state continues at the loop header"""
        if L in self.skips:
            self.skips[L].append(st)
        elif self.probes and self.probes[-1] is not None:
            self.probes[-1].append(st)
        else:
            raise Unsupported("filtered iteration outside a loop")

    def isrefelem(self, ti):
        """are the elements of this collection type references?"""
        k, et = self.M.ckind(self, ti)
        if et is None or et[0] != "seq" or et[1] is None:
            return None
        return self.types[et[1]]["k"] == "ref"

    def prehas(self, x, s):
        return False

    def newL(self):
        self.loop_n += 1
        return mk("L", self.loop_n)

    def statediff(self, s0, s1, out):
        for c, v in s0.store.items():
            w = s1.store.get(c)
            if w is None or w is v:
                continue
            self.leafdiff(v, w, (c,), out)

    def iter_progress(self, a, b):
        """did iterator value change a->b by consuming concrete elements / symbolic one"""
        if a.op != "iter" or b.op != "iter":
            return None
        if b.a[2] is not a.a[2] and b.a[2].op in ("took", "pend"):
            return "sym"
        if len(b.a[0]) < len(a.a[0]) and a.a[0][len(a.a[0]) - len(b.a[0]):] == b.a[0]:
            return "one"
        return None

    def summarise(self, entry, step, where):
        work = [(entry, 0)]
        out = []
        while work:
            st, peels = work.pop()
            p0 = len(self.panics)
            self.probes.append([])
            try:
                backs, exits = step(st.copy())
            finally:
                pr = self.probes.pop()
            backs = backs + pr
            if not backs:
                out += exits
                continue
            # peel?
            peel = True
            prog = False
            for b in backs:
                ds = []
                self.statediff(st, b, ds)
                isy = any(p[-1] == "src" and self.iter_progress(x, y) == "sym" for p, x, y in ds)
                ion = any(p[-1] == "src" and self.iter_progress(x, y) == "one" for p, x, y in ds)
                cnt = (not exits) and any(x.op == "int" and y.op == "int" for p, x, y in ds)
                if isy:
                    peel = False
                elif ion or cnt:
                    prog = True
                else:
                    peel = False
            if peel and prog and peels < 70:
                out += exits
                for b in backs:
                    work.append((b, peels + 1))
                continue
            del self.panics[p0:]
            nxt = self.fix(st, step, where, backs, out)
            if nxt is not None:
                work.append((nxt, 0))
        return out

    def hdrval(self, L, i, v, name, path):
        """abstract value of modified leaf i at the loop header"""
        if path[-1] == "src":
            if v.op == "iter":
                return mk("iter", v.a[0], v.a[1], mk("in", L))
            return mk("hdr", L, i)
        if name is not None:
            kind = name[0]
            if kind == "lin":
                return t.add(v, name[1])
            if kind == "max":
                return t.maxv(v, name[1])
        if v.op == "coll" and v.a[0] != "interner":
            cntname = name[1] if name is not None and name[0] == "cnt" else None
            pre = mk("pre", L, i)
            if cntname is not None:
                t.PRECNT[pre] = cntname
            else:
                t.PRECNT.pop(pre, None)
            log = v.a[2]
            if name is not None and name[0] == "nolog" or (name is not None and len(name) > 2 and name[2] == "nolog"):
                return mk("coll", v.a[0], v.a[1] + (pre,), log)
            return mk("coll", v.a[0], v.a[1] + (pre,), log + (mk("prelog", L, i),))
        if v.op == "coll":
            return mk("coll", v.a[0], v.a[1] + (mk("pre", L, i),), v.a[2])
        x = mk("hdr", L, i)
        ty = TY.get(v)
        if ty is not None:
            typed(x, ty)
        return x

    def fix(self, st, step, where, backs0, out):
        L = self.newL()
        rec = LoopRec(L)
        rec.where = where
        rec.entry = st
        rec.outer = tuple(self.loopstack)
        leaves = []          # (cell, path)
        lset = set()

        def addleaves(base, bs):
            ch = False
            for b in bs:
                ds = []
                self.statediff(base, b, ds)
                for p, x, y in ds:
                    if any(p[:len(q)] == q for q in lset):
                        continue
                    # a coarser leaf replaces finer ones
                    for q in [q for q in leaves if q[:len(p)] == p]:
                        leaves.remove(q)
                        lset.discard(q)
                    leaves.append(p)
                    lset.add(p)
                    ch = True
            return ch
        addleaves(st, backs0)
        names = {}
        self.loopstack.append(L)
        self.probes.append(None)
        try:
            for it in range(14):
                hst = st.copy()
                hv = {}
                for p in leaves:
                    v0 = self.getleaf(st.store[p[0]], p[1:])
                    if v0 is None:
                        raise Unsupported("loop leaf vanished")
                    nm = names.get(p)
                    key = p
                    hv[p] = self.hdrval(L, self.leafid(L, p), v0, nm, p)
                    hst.store[p[0]] = self.setleaf(hst.store[p[0]], p[1:], hv[p])
                self.skips[L] = []
                p0 = len(self.panics)
                n0 = len(self.assumed)
                f0 = len(self.faultsites)
                backs, exits = self.superstep(L, hst.copy(), step, where, hv)
                self.skips.pop(L)
                backs = [s for s, _ in self.joinret([(b, UNIT) for b in backs])] if len(backs) > 1 else backs
                if addleaves(hst, backs) and it < 12:
                    del self.panics[p0:]
                    names = {}
                    continue
                self.loopinfo(L, rec, leaves, hst, hv, backs)
                nn = self.closed(L, rec, leaves, hst, hv, st, backs)
                if nn == names or it >= 12:
                    break
                # iterate with the closed forms plugged in
                del self.panics[p0:]
                del self.assumed[n0:]
                del self.faultsites[f0:]
                names = nn
        finally:
            self.loopstack.pop()
            self.probes.pop()
            self.skips.pop(L, None)
        return self.close(L, rec, leaves, st, hst, hv, backs, exits, names, out)

    def superstep(self, L, s, step, where, hv):
        """one iteration of the summarised loop: the loop body once for each thing the iterator still has pending"""
        def drain():
            x = list(self.skips[L])
            del self.skips[L][:]
            return x
        backs, exits = step(s)
        work = backs + drain()
        done = []
        its = [p for p, h in hv.items() if p[-1] == "src" and h.op == "iter"]
        n = 0
        while work:
            b = work.pop(0)
            pend = None
            for p in its:
                w = self.bleaf(b, p)
                if w is not None and w.op == "iter" and w.a[2].op == "pend" and w.a[2].a[0] is L:
                    pend = w
            if pend is None:
                done.append(b)
                continue
            n += 1
            if n > 300:
                raise Budget("pending")
            if pend.a[0][0].a[0].op in ("one", "may"):
                bs, ex = step(b)
                exits = exits + ex
                work = bs + drain() + work
            else:
                p0 = len(self.panics)
                self.probes.append([])
                try:
                    bs, ex = step(b.copy())
                finally:
                    pr = self.probes.pop()
                drain()
                bs = bs + pr
                if not bs:
                    exits = exits + ex
                    continue
                del self.panics[p0:]
                o = []
                nb = self.fix(b, step, where, bs, o)
                exits = exits + o
                if nb is not None:
                    work.insert(0, nb)
        return done, exits

    _leafids = {}
    _leafn = [0]

    def leafid(self, L, p):
        d = self._leafids.setdefault(L, {})
        if p not in d:
            self._leafn[0] += 1
            d[p] = self._leafn[0]
        return d[p]

    def closed(self, L, rec, leaves, hst, hv, st, backs):
        """closed form names: numeric leaves -> ('lin', prefix term); coll leaves -> ('cnt', prefix count)"""
        names = {}
        todo = []
        for p in leaves:
            h = hv[p]
            if p[-1] == "src":
                continue
            if h.op == "coll":
                # appended segments
                cnts = []
                nolog = True
                ok = True
                for b in backs:
                    w = self.bleaf(b, p)
                    if w is None or w.op != "coll" or w.a[1][:len(h.a[1])] != h.a[1]:
                        ok = False
                        break
                    cnts.append(t.addl(*[t.segcount(s) for s in w.a[1][len(h.a[1]):]]) if len(w.a[1]) > len(h.a[1]) else ZERO)
                    hl = h.a[2]
                    if w.a[2] != hl:
                        nolog = False
                if ok and cnts and all(c is cnts[0] for c in cnts) and cnts[0].op == "int":
                    names[p] = ("cnt", t.mulc(mk("iter", L), cnts[0].a[0]), "nolog" if nolog else "log")
                elif ok and cnts and not any(t.contains_op(c, ("psum", "npre")) for c in cnts):
                    names[p] = ("cnt", t.psumof(L, tuple(cnts)), "nolog" if nolog else "log")
                elif ok and nolog:
                    names[p] = ("nolog",)
                continue
            deltas = []
            v0 = self.getleaf(st.store[p[0]], p[1:])
            ok = numeric(v0, self)
            sref = False
            for b in backs:
                w = self.bleaf(b, p)
                if w is None or not ok:
                    ok = False
                    break
                d = t.sub(w, h)
                sref = sref or t.contains_op(d, ("hdr",)) and selfref(d, L, self.leafid(L, p))
                deltas.append(d)
            if ok and deltas and sref:
                # the increment depends on the running value itself: keep a symbol for the amount accumulated so far
                hs = mk("hdr", L, self.leafid(L, p))
                if all(t._lin(d)[1].get(hs, 0) == 0 for d in deltas):
                    names[p] = ("lin", hs, tuple(deltas))
                    rec.selfs[tuple(deltas)] = hs
                    t.regself(L, deltas, self.leafid(L, p))
                    continue
            if ok and (sref or p in self.maxes):
                m = self.maxform(L, rec, h, [self.bleaf(b, p) for b in backs])
                if m is not None:
                    self.maxes.add(p)
                    names[p] = ("max", m[0], m[1])
                    continue
            if sref:
                continue
            if ok and deltas:
                todo.append((p, tuple(deltas)))
        for p, deltas in todo:
            if any(t.contains_op(d, ("psum",)) and psumself(d, L) for d in deltas):
                continue
            names[p] = ("lin", t.psumof(L, deltas), deltas)
        for p in leaves:
            if p in names or p[-1] == "src" or hv[p].op == "coll":
                continue
            q = self.parallel(p, names, st, backs)
            if q is not None:
                names[p] = names[q]
        return names

    def parallel(self, p, names, st, backs):
        """a running sum that p differs from by the same amount before the loop and after every iteration"""
        v0 = self.getleaf(st.store[p[0]], p[1:])
        if not numeric(v0, self):
            return None
        ws = [self.bleaf(b, p) for b in backs]
        if not ws or any(w is None or w.op not in ("lin", "hdr", "int") for w in ws):
            return None
        for q, nm in names.items():
            if nm[0] != "lin":
                continue
            c = t.sub(v0, self.getleaf(st.store[q[0]], q[1:]))
            if all(t.sub(w, self.bleaf(b, q)) is c for w, b in zip(ws, backs)):
                return q
        return None

    def bleaf(self, b, p):
        """a leaf at a back edge, with the conditionals on top that the path has decided"""
        w = self.getleaf(b.store[p[0]], p[1:])
        if w is None:
            return w
        if w.op == "lin":
            for x, c in w.a[1]:
                y = toplevel(b, x) if x.op == "ite" else x
                if y is not x:
                    w = t.add(t.sub(w, t.mulc(x, c)), t.mulc(y, c))
            return w
        return toplevel(b, w)

    def twoexits(self, L, hst, exits):
        """iteration count of a loop whose exit condition depends on a loop-invariant choice between two"""
        ns = []
        for tg, s in exits:
            ds = []
            self.statediff(hst, s, ds)
            newf = {k: v for k, v in s.facts.items() if hst.facts.get(k) != v}
            var = [(k, v) for k, v in newf.items() if t.mentions(k, L)]
            inv = [(k, v) for k, v in newf.items() if not t.mentions(k, L)]
            if ds or len(var) != 1 or len(inv) != 1:
                return None
            n = solve_n(var[0][0], var[0][1], L)
            if n is None or t.mentions(n, L):
                return None
            ns.append((inv[0], n))
        ((k1, v1), n1), ((k2, v2), n2) = ns
        if k1 is not k2 or v1[0] != "eq":
            return None
        dom = (0, 1) if t.isbool(k1) else DOM.get(k1)
        if v2[0] == "eq" and v2[1] != v1[1] and dom is not None and set(dom) == {v1[1], v2[1]} or v2[0] == "ne" and set(v2[1]) == {v1[1]}:
            return t.ite(t.factcond(k1, v1), n1, n2)
        return None

    maxes = set()

    def maxform(self, L, rec, h, news):
        """a running maximum: every new value is the old one or the larger of the old one and something new"""
        hp = set(h.a[0]) if h.op == "max" else {h}
        def grow(w):
            """what the running value is raised to at least (0: nothing; None: not a running maximum)"""
            if w.op == "ite":
                x, y = grow(w.a[1]), grow(w.a[2])
                return None if x is None or y is None or any(t.contains(w.a[0], z) for z in hp if z.op in ("hdr", "pmax")) else t.ite(w.a[0], x, y)
            ps = list(w.a[0]) if w.op == "max" else [w]
            new = [q for q in ps if q not in hp and not (q.op == "int" and any(z.op == "int" and z.a[0] <= q.a[0] for z in hp))]
            if any(z not in ps for z in hp if z.op != "int") or any(any(t.contains(q, z) for z in hp if z.op in ("hdr", "pmax")) for q in new):
                return None
            x = ZERO
            for q in new:
                x = t.maxv(x, q) if x is not ZERO else q
            return x
        xs = [grow(w) for w in news]
        if any(x is None for x in xs):
            return None
        m = t.canonmax(L, xs, prefix=True)
        return None if m is None else (m, tuple(xs))

    def loopinfo(self, L, rec, leaves, hst, hv, backs):
        """what the loop iterates over, and the alternatives of one iteration"""
        itleaf = None
        irregular = False
        for p in leaves:
            if p[-1] == "src" and hv[p].op == "iter" and hv[p].a[2].op == "in":
                ok = True
                anyt = False
                for b in backs:
                    w = self.bleaf(b, p)
                    if not (w is not None and w.op == "iter" and w.a[0] == hv[p].a[0]):
                        ok = False
                    elif w.a[2].op == "took":
                        anyt = True
                    else:
                        ok = False
                if ok and anyt and itleaf is None:
                    itleaf = p
                else:
                    irregular = True
        rec.source = None
        if itleaf is not None:
            src = hv[itleaf].a[0][0].a[0]
            rec.n = self.M.superiters(src)
            rec.source = self.M.root(src)
        rec.irregular = irregular
        rec.selfs = {}
        rec.alts = [Alt({k: v for k, v in b.facts.items() if hst.facts.get(k) != v}, b, b.disj - hst.disj) for b in backs]
        t.LOOPS[L] = rec
        return itleaf

    def close(self, L, rec, leaves, st, hst, hv, backs, exits, names, out):
        selfs = rec.selfs
        itleaf = self.loopinfo(L, rec, leaves, hst, hv, backs)
        rec.selfs = selfs
        irregular = rec.irregular
        if irregular:
            self.note("irregular-loop", "%s:%s" % rec.where)
        final = {}
        for p in leaves:
            i = self.leafid(L, p)
            h = hv[p]
            v0 = self.getleaf(st.store[p[0]], p[1:])
            rec.leaves.append((p, i, v0, h))
            news = [self.bleaf(b, p) for b in backs]
            for a, w in zip(rec.alts, news):
                a.new[i] = w
            if p[-1] == "src":
                if h.op == "iter":
                    # after the loop: this segment is exhausted
                    if p == itleaf:
                        final[p] = mk("iter", h.a[0][1:], v0.a[1], self.M.after(h.a[0][1:], v0.a[2]))
                    else:
                        final[p] = mk("iter", (mk("opqseg", L, i),), v0.a[1], mk("fresh"))
                else:
                    final[p] = mk("loopval", L, i)
                continue
            if h.op == "coll":
                nseg = len(h.a[1])
                nlog = len(h.a[2])
                ok = all(w is not None and w.op == "coll" and w.a[1][:nseg] == h.a[1] and w.a[2][:nlog] == h.a[2] for w in news)
                if ok:
                    items = tuple(w.a[1][nseg:] for w in news)
                    logs = tuple(w.a[2][nlog:] for w in news)
                    for a, it, lg in zip(rec.alts, items, logs):
                        a.items[i] = it
                        a.logitems[i] = lg
                    segs = v0.a[1] + ((mk("rep", L, items),) if any(items) else ())
                    lg = v0.a[2] + ((mk("replog", L, logs),) if any(logs) else ())
                    final[p] = mk("coll", v0.a[0], segs, lg)
                else:
                    final[p] = mk("coll", v0.a[0], v0.a[1] + (mk("opqseg", L, i),), v0.a[2])
                    self.note("loop-coll", "%s:%s leaf not append-only" % rec.where)
                continue
            nm = names.get(p)
            if nm is not None and nm[0] == "lin":
                deltas = nm[2]
                for a, d in zip(rec.alts, deltas):
                    a.delta[i] = d
                final[p] = t.add(v0, t.sumof(L, list(deltas)))
            elif nm is not None and nm[0] == "max":
                final[p] = t.maxv(v0, t.canonmax(L, list(nm[2])))
            else:
                # flags: value is unchanged or set to a loop-invariant constant
                vs = set()
                for w in news:
                    if w is not h:
                        vs.add(w)
                x = mk("loopval", L, i)
                ty = TY.get(v0)
                if ty is not None:
                    typed(x, ty)
                final[p] = x
                LOOPVALS[x] = (v0, h, news, rec)
        # exits
        rec.exits = len(exits)
        subst = {}
        hleaf = {}
        for p in leaves:
            i = self.leafid(L, p)
            h = hv[p]
            if h.op == "coll":
                continue
            if h.op in ("hdr",):
                subst[h] = final[p]
        if itleaf is not None:
            out += exits
            fin = st.copy()
            fin.aux = st.aux
            for p in leaves:
                fin.store[p[0]] = self.setleaf(fin.store[p[0]], p[1:], final[p])
            return fin
        # condition-driven loop: an exit that changed nothing relative to the header sees the final values
        n = None
        if len(exits) == 1:
            ds = []
            self.statediff(hst, exits[0][1], ds)
            if not ds:
                newf = {k: v for k, v in exits[0][1].facts.items() if hst.facts.get(k) != v}
                if len(newf) == 1:
                    (k, v), = newf.items()
                    n = solve_n(k, v, L)
        elif len(exits) == 2:
            n = self.twoexits(L, hst, exits)
        if n is not None and not t.mentions(n, L):
            rec.n = n
            rec.source = mk("range", ZERO, n)
        else:
            rec.irregular = True
            self.note("while-loop", "%s:%s" % rec.where)
        for tg, s in exits:
            ds = []
            self.statediff(hst, s, ds)
            if ds:
                out.append((tg, s))
                continue
            f = s.copy()
            mp = {mk("iter", L): rec.n} if rec.n is not None else {}
            for p in leaves:
                fv = final[p]
                if mp:
                    pass
                f.store[p[0]] = self.setleaf(f.store[p[0]], p[1:], fv if names.get(p) is None or names[p][0] != "lin" or rec.n is None
                                             else t.add(self.getleaf(st.store[p[0]], p[1:]), t.sumof(L, list(names[p][2]))))
            f.facts = {k: v for k, v in f.facts.items() if not t.mentions(k, L)}
            f.disj = frozenset(c for c in f.disj if not any(t.mentions(l, L) for l in c))
            out.append((tg, f))
        return None


def unitclauses(x, f):
    """a fact as clauses of one literal"""
    if f[0] == "eq":
        return [frozenset([(x if f[1] == 1 else not_(x)) if t.isbool(x) and f[1] in (0, 1) else eq(x, I(f[1]))])]
    return [frozenset([not_(eq(x, I(n)))]) for n in f[1]]


def contrary(l, m):
    """is one literal the negation of the other?"""
    if not_(l) is m:
        return True
    n = [x.a[0] if x.op == "not" else x for x in (l, m)]
    if n[0].op == "lt0" and n[1].op == "lt0":
        s = t.add(n[0].a[0], n[1].a[0])
        return l.op == m.op and s is I(-1) or l.op != m.op and n[0] is n[1]
    if l.op == "eq" and m.op == "eq":
        for i in (0, 1):
            for j in (0, 1):
                if l.a[i] is m.a[j] and l.a[1 - i].op == "int" and m.a[1 - j].op == "int":
                    d = DOM.get(l.a[i])
                    return d is not None and set(d) == {l.a[1 - i].a[0], m.a[1 - j].a[0]}
    return False


def twoval(v):
    """the two values of a conditional between values of one two-valued domain"""
    if v.op == "ite":
        p, q = twoval(v.a[1]), twoval(v.a[2])
        return p if p == q else None
    d = DOM.get(v)
    return tuple(d) if d is not None and len(d) == 2 else None


FORGOTTEN = frozenset()


def joinclauses(a, b):
    """clauses of (all of a) or (all of b)"""
    out = set()
    if len(a) * len(b) > 200:
        return frozenset([FORGOTTEN])
    for p in a:
        for q in b:
            if not p or not q:
                out.add(FORGOTTEN)
                continue
            c = p | q
            if tautology(c):
                continue
            if len(c) > 8:
                out.add(FORGOTTEN)
                continue
            out.add(c)
    # subsumed clauses
    return frozenset(c for c in out if not c or not any(d and d < c for d in out))


def tautology(c):
    if any(not_(l) in c for l in c) or ONE in c:
        return True
    pos = {}
    for l in c:
        if l.op == "eq":
            for k, n in (l.a, l.a[::-1]):
                if n.op == "int" and k in DOM:
                    pos.setdefault(k, set()).add(n.a[0])
    return any(set(DOM[k]) <= v for k, v in pos.items())


def modeq(x, k):
    """a test of a remainder, not decided by what is known: it is kept as the program's own values have it"""
    return x.op == k.op == "eq" and any(y.op in ("mod", "pad") for y in x.a)


def assume_ite(v, k, b):
    return t.mapterm(v, lambda x: assume_ite(x.a[1] if b else x.a[2], k, b) if x.op == "ite" and x.a[0] is k else None, {})


SEGARGS = {"one": (0,), "w": (0, 2, 3, 4), "may": (0, 1)}


def gateable(v):
    """may this value be put under a condition?"""
    return v.op not in ("ref", "vref", "coll", "iter", "clos", "fn", "occ", "vac", "part", "uninit", "fmt", "arr", "fmtarg")


LOOPVALS = {}


def solve_n(k, v, L):
    """exit fact -> iteration count: iter(L) - X has reached 0"""
    it = mk("iter", L)
    if k.op == "eq" and v == ("eq", 1):
        for p, q in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
            if p.op == "pow2" and p.a[0] is it and not t.mentions(q, L):
                return t.log2(q)
    if k.op == "pow2" and k.a[0] is it and v[0] == "eq":
        return t.log2(I(v[1]))
    if k.op == "lin" and v == ("eq", 0) or k.op == "eq" and v == ("eq", 1) and ZERO in k.a:
        z = k if k.op == "lin" else (k.a[0] if k.a[1] is ZERO else k.a[1])
        c, m = t._lin(z)
        for x, co in m.items():
            if x.op == "pow2" and x.a[0] is it and abs(co) == 1:
                rest = t.sub(x, z) if co == 1 else t.add(x, z)
                if not t.mentions(rest, L):
                    return t.log2(rest)
    if k.op == "lt0" and v == ("eq", 0):
        d = k.a[0]
    elif k.op == "lt0" and v == ("eq", 1):
        d = t.sub(t.mulc(k.a[0], -1), ONE)
    elif k.op == "eq" and v == ("eq", 1):
        d = t.sub(k.a[0], k.a[1])
    else:
        if v[0] == "eq" and k is it:
            return I(v[1])
        if v[0] == "eq" and k.op == "lin":
            d = t.sub(k, I(v[1]))
        else:
            return None
    c, m = t._lin(d)
    co = m.get(it)
    if co is None:
        return None
    if co == -1:
        d = t.mulc(d, -1)
        co = 1
    if co != 1:
        return None
    return t.sub(it, d)


def selfref(d, L, i):
    h = mk("hdr", L, i)
    seen, todo = set(), [d]
    while todo:
        x = todo.pop()
        if x is h:
            return True
        if x not in seen:
            seen.add(x)
            todo += t.children(x)
    return False


def psumself(d, L):
    return d.op == "psum" and d.a[0] is L or any(psumself(x, L) for x in t.children(d))


def toplevel(st, v):
    while v.op == "ite":
        c = st.known(v.a[0])
        if c.op != "int":
            break
        v = v.a[1] if c is ONE else v.a[2]
    return v


def numeric(v, eng):
    if v.op in ("int", "lin", "pad", "mod", "len", "mul", "psum", "npre", "iter", "Sum", "niter", "sizeof", "max", "min", "pow2", "ilen", "nchars"):
        return True
    if v.op in ("nchars", "log2", "tmax", "pmax", "total", "ptot", "divceil", "shr", "trunc"):
        return True
    if v.op == "ite":
        return (v.a[1].op == "int" or numeric(v.a[1], eng)) and (v.a[2].op == "int" or numeric(v.a[2], eng))
    ty = TY.get(v)
    if ty is not None:
        return eng.types[ty]["k"] == "int"
    return v.op in ("hdr", "loopval")


class Call:
    __slots__ = ("callee", "argtys", "destty", "line", "np")

    def __init__(self, callee, argtys, destty, line, np):
        self.callee = callee
        self.argtys = argtys
        self.destty = destty
        self.line = line
        self.np = np
