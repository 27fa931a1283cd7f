"""Refutation of equalities that do not hold: terms of the abstract summary are evaluated under an assignment of the
unknowns (population sizes, kinds, names, attribute values) that satisfies the facts of the summary.

Used in one direction only: an obligation that is not established by the normal forms is a violation if an admissible
assignment falsifies it, and undecided otherwise."""
import random
import zlib
from . import terms as t
from .terms import mk, I, S, ZERO, ONE, TY
from .interp import DOM


# types of the attributes of population elements: (population, attribute) -> type
LFTY = {}


class Unknown(Exception):
    pass


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 31, "i64": 63, "i8": 7, "i16": 15, "isize": 63}


# terms whose value follows from the values of their parts
COMPOSITE = frozenset(("lin", "mul", "pad", "mod", "div", "divceil", "pow2", "log2", "ispow2", "shr", "band", "bor", "bxor", "max", "min", "trunc",
                       "eq", "lt0", "not", "and", "or", "ite", "total", "ptot", "tmax", "pmax", "Sum", "psum"))


class Model:
    def __init__(self, eng, seed=0, sizes=None, default=2, small=True, facts=None, disj=()):
        self.eng = eng
        self.seed = seed
        self.sizes = dict(sizes or {})
        self.default = default
        self.assign = {}
        self.memo = {}
        self.nested = {}
        self.affix = ()
        self.prefix = {}
        self.consts = ()
        self.facts = {}
        for k, v in (facts or {}).items():
            self.facts[k] = v
            if v[0] == "eq" and isinstance(v[1], int):
                if k.op == "len" and self.ispop(k.a[0]):
                    self.sizes[mk("many", k.a[0])] = v[1]
                elif k.op not in COMPOSITE and not (k.op == "has" and k.a[0].op == "whole"):
                    self.assign[k] = I(v[1])
            if v == ("eq", 1):
                self.suppose(k)
        for c in disj:
            c = sorted(c, key=lambda l: l.i)
            if c:
                self.suppose(c[seed % len(c)])

    def suppose(self, k):
        """choose an unknown name so that an equation with a fixed string holds"""
        if k.op == "eq" and any(x.op == "str" for x in k.a) and any(x.op == "sym" for x in k.a):
            a, b = k.a if k.a[0].op == "sym" else k.a[::-1]
            self.assign[a] = b

    # ---------------------------------------------------------------- random choices
    def h(self, key, n):
        return zlib.crc32(("%d|%s" % (self.seed, key)).encode()) % n

    def key(self, x):
        return t.show(self.alike(x), -40)

    def alike(self, x):
        """the elements of a very large population have the same attributes"""
        if x.op == "lf" and isinstance(x.a[0], t.T) and x.a[0].op == "el":
            return mk("lf", x.a[0].a[0], x.a[1]) if self.popsize(x.a[0].a[0]) > 64 else x
        if x.op in ("fld", "discr"):
            y = self.alike(x.a[0])
            return x if y is x.a[0] else mk(x.op, y, *x.a[1:])
        return x

    def popsize(self, seg):
        if seg in self.sizes:
            return self.sizes[seg]
        n = (0, 1, 2, 3, 4)[self.h("n" + self.key(seg), 5)]
        self.sizes[seg] = n
        return n

    def threshold(self, key):
        """a quantity near one of the constants that occur in the code's own terms"""
        if not self.consts or self.h("u" + key, 2):
            return None
        return self.consts[self.h("c" + key, len(self.consts))] + (0, 1, -1)[self.h("d" + key, 3)]

    def kind(self, seg, k):
        n = t.NCLS[seg]
        if self.popsize(seg) > 64:
            return self.h("k" + self.key(seg), n)
        return self.h("k%d%s" % (k, self.key(seg)), n)

    def leafint(self, x, ty):
        s = self.eng.types[ty]["s"]
        f = self.facts.get(x)
        bad = f[1] if f is not None and f[0] == "ne" else ()
        k = self.key(x)
        if s == "bool":
            v = self.h(k, 2)
            return 1 - v if v in bad else v
        if t.is_ispow2(x):
            c = self.threshold(k)
            if c is not None and c > 0:
                return 1 << (c - 1).bit_length()
            return 1 << self.h(k, 10)
        c = self.threshold(k) if s in ("u64", "usize", "i64", "u32", "i32") else None
        if c is not None and c not in bad:
            return c
        for j in range(50):
            v = (0, 1, 3, 7, 24, 100, 4096, 1 << 20, 200, 90, 33, 17)[self.h("%d%s" % (j, k), 12)] + self.h("x" + k, 50)
            if s in ("u8", "i8"):
                v %= 100
            if s in ("i8", "i16", "i32", "i64", "isize") and self.h("sg" + k, 3) == 0:
                v = -1 - v
            if v not in bad:
                return v
        raise Unknown("value")

    def strname(self, k):
        if self.affix:
            n = self.h("affix" + k, 2 * len(self.affix))
            if n < len(self.affix):
                o, w = self.affix[n]
                return w + "_" + k if o == "prefix" else k + w if o == "suffix" else k + w + k if o == "contains" else " " + k + " "
        m = self.h("str" + k, 7)
        return k + "\u00e9" * (1 + self.h("strn" + k, 3)) if m == 6 else k if m < 3 else k + "z" * self.h("strn" + k, 9) if m < 4 else ".debug_" + k if m < 5 else k + "_" + "y" * (14 + self.h("strl" + k, 9))

    def name(self, e):
        seg = self.key(e.a[0])
        if self.popsize(e.a[0]) > 64:
            return S("n%s" % "q" * 4 + "%07d" % e.a[1].a[0])
        return S("%s_%d%s" % (seg.replace("many(POP", "p").strip(")"), e.a[1].a[0], ("\u00e9" if self.h("nu" + seg, 6) == 0 else "z") * self.h("nm" + seg + str(e.a[1].a[0]), 9)))

    # ---------------------------------------------------------------- evaluation
    def ev(self, x, env=()):
        """concrete form of x: integers become literals; other values keep their structure"""
        if x.op in ("int", "str", "bytes"):
            return x
        k = (x, env)
        r = self.memo.get(k)
        if r is None:
            r = self.ev1(x, env)
            if len(self.memo) > 2000000:
                self.memo.clear()
            self.memo[k] = r
        return r

    def int(self, x, env=()):
        r = self.ev(x, env)
        if r.op != "int":
            raise Unknown("not an integer: %s" % r.op)
        return r.a[0]

    def look(self, env, L):
        if L.op == "int":
            return L.a[0]
        if L.op == "Lnext":
            return self.look(env, L.a[0]) + 1
        for l, k in reversed(env):
            if l is L:
                return k
        raise Unknown("index")

    def count(self, L, env):
        rec = t.LOOPS.get(L)
        if rec is None or rec.n is None:
            raise Unknown("iterations")
        return self.int(rec.n, env)

    def altof(self, L, nalts, env):
        rec = t.LOOPS.get(L)
        if nalts == 1:
            return 0
        if rec is None or rec.irregular or len(rec.alts) != nalts:
            raise Unknown("alternatives")
        hit = [j for j, a in enumerate(rec.alts) if all(self.holds(f, v, env) for f, v in a.facts.items()) and self.clauses(a.disj, env)]
        if len(hit) != 1:
            raise Unknown("%d alternatives apply" % len(hit))
        return hit[0]

    def clauses(self, disj, env=()):
        for c in disj:
            if not c:
                raise Unknown("a condition was forgotten")
            if not any(self.int(l, env) for l in c):
                return False
        return True

    def holds(self, f, v, env=()):
        x = self.int(f, env)
        return x == v[1] if v[0] == "eq" else x not in v[1]

    def sumover(self, n, f, uniform):
        if n > 64:
            if not uniform:
                raise Unknown("large sum")
            # the elements of a very large population are alike: only the ends differ
            c = 12
            d = f(n // 2)
            if any(f(k) != d for k in (c, c + 1, n // 3, n - c - 2, n - c - 1)):
                raise Unknown("large sum")
            return sum(f(k) for k in range(c)) + sum(f(k) for k in range(n - c, n)) + d * (n - 2 * c)
        return sum(f(k) for k in range(n))

    def ev1(self, x, env):
        o, a = x.op, x.a
        ev, it = self.ev, self.int
        if x in self.assign and (not env or o == "sym"):
            return self.assign[x]
        if o == "lin":
            return I(a[0] + sum(it(k, env) * v for k, v in a[1]))
        if o == "mul":
            r = 1
            for y in a[0]:
                r *= it(y, env)
            return I(r)
        if o in ("pad", "mod", "div", "divceil"):
            p, q = it(a[0], env), it(a[1], env)
            if q <= 0:
                raise Unknown("modulus")
            return I({"pad": -p % q, "mod": p % q, "div": p // q, "divceil": -(-p // q)}[o])
        if o == "pow2":
            k = it(a[0], env)
            return I(1 << k) if 0 <= k < 64 else self.no("shift")
        if o == "log2":
            k = it(a[0], env)
            return I(k.bit_length() - 1) if k > 0 and k & (k - 1) == 0 else self.no("log")
        if o == "ispow2":
            k = it(a[0], env)
            return t.B(k > 0 and k & (k - 1) == 0)
        if o == "shr":
            return I(it(a[0], env) >> it(a[1], env))
        if o == "band":
            return I(self.bits(a[0], env) & self.bits(a[1], env))
        if o == "bor":
            r = 0
            for y in a[0]:
                r |= it(y, env)
            return I(r)
        if o == "bxor":
            return I(it(a[0], env) ^ it(a[1], env))
        if o == "max":
            return I(max(it(y, env) for y in a[0]))
        if o == "min":
            return I(min(it(y, env) for y in a[0]))
        if o == "trunc":
            return t.trunc(I(it(a[0], env)), a[1])
        if o == "eq":
            p, q = ev(a[0], env), ev(a[1], env)
            r = t.eq(p, q)
            if r.op == "int":
                return r
            f = self.facts.get(x)
            if f is not None and f[0] == "eq" and not env:
                return I(f[1])
            raise Unknown("equality")
        if o == "lt0":
            return t.B(it(a[0], env) < 0)
        if o == "not":
            return t.B(not it(a[0], env))
        if o == "and":
            for y in a[0]:
                if not it(y, env):
                    return ZERO
            return ONE
        if o == "ite":
            return ev(a[1] if it(a[0], env) else a[2], env)
        if o == "discr":
            v = ev(a[0], env)
            if v.op in ("adt", "int"):
                return t.discr(v)
            d = mk("discr", v)
            if DOM.get(d) is None and DOM.get(x) is None:
                ty = LFTY.get((v.a[0].a[0], v.a[1])) if v.op == "lf" else TY.get(a[0])
                vs = self.eng.types[ty].get("variants") if ty is not None else None
                if vs:
                    DOM[d] = tuple(i if q.get("d") is None else int(q["d"]) for i, q in enumerate(vs))
            return self.choice(d, DOM.get(x) or DOM.get(d))
        if o == "fld":
            v = ev(a[0], env)
            if v.op in ("adt", "tup", "clos"):
                return ev(t.fld(v, a[1], a[2]), env)
            return self.leaf(mk("fld", v, a[1], a[2]), x)
        if o == "cls":
            e = ev(a[0], env)
            return I(self.kind(e.a[0], e.a[1].a[0]))
        if o == "el":
            return mk("el", ev(a[0], env), a[1] if a[1].op == "int" else I(self.look(env, a[1])))
        if o == "many":
            return mk("many", ev(a[0], env)) if a[0].op != "sym" else x
        if o == "name":
            return self.name(ev(a[0], env))
        if o == "cat":
            return t.cat(*[ev(y, env) for y in a[0]])
        if o == "len":
            if a[0].op == "sym" and self.ispop(a[0]):
                return I(self.popsize(mk("many", a[0])))
            v = ev(a[0], env)
            r = t.length(v)
            if r.op == "int":
                return r
            if r.op == "len":
                if v.op == "lf" and self.popsize(v.a[0].a[0]) > 64:
                    v = mk("lf", v.a[0].a[0], v.a[1])
                c = self.threshold("t" + self.key(v))
                return I(1 + self.h("len" + self.key(v), 29) if c is None else c)
            return ev(r, env)
        if o == "nchars":
            v = ev(a[0], env)
            r = t.nchars(v)
            if r.op == "int":
                return r
            if r.op == "nchars":
                # two bytes for some of the characters
                n = it(mk("len", a[0]), env)
                return I(n - min(self.h("nch" + self.key(v), 3), n // 2))
            return ev(r, env)
        if o in ("total", "ptot"):
            seg = a[0]
            n = self.popsize(seg) if o == "total" else self.look(env, a[2])
            b = self.boundof(a[1])
            if b is None:
                return I(it(a[1], env) * n)
            if n > 64:
                return I(self.sumover(n, lambda k: it(a[1], env + ((b, k),)), True))
            if o == "ptot":
                return I(self.prefixsum(x, seg, a[1], b, env, n))
            return I(sum(it(a[1], env + ((b, k),)) for k in range(n)))
        if o in ("tmax", "pmax"):
            seg = a[0]
            n = self.popsize(seg) if o == "tmax" else self.look(env, a[2])
            b = self.boundof(a[1])
            if b is None:
                return I(it(a[1], env) if n else 0)
            ks = range(n) if n <= 64 else (0, n - 1)
            return I(max([it(a[1], env + ((b, k),)) for k in ks] or [0]))
        if o == "hdr" and a[1] in t.SELFLEAF:
            return I(self.selfsum(a[1], self.look(env, a[0])))
        if o in ("Sum", "psum"):
            L, cs = a
            n = self.count(L, env) if o == "Sum" else self.look(env, L)
            def f(k):
                e2 = env + ((L, k),)
                return it(cs[self.altof(L, len(cs), e2)], e2)
            return I(self.sumover(n, f, True))
        if o == "iter":
            return I(self.look(env, a[0]))
        if o == "niter":
            return I(self.count(a[0], env))
        if o == "lastit":
            return t.B(self.look(env, a[0]) == self.count(a[0], env) - 1)
        if o == "lf":
            return self.leaf(mk("lf", ev(a[0], env), a[1]), x)
        if o == "sym":
            if TY.get(x) is not None and self.eng.types[TY[x]]["s"] == "str":
                return S(self.strname(str(a[0])))
            return self.leaf(x, x)
        if o == "slice":
            v, lo, hi = ev(a[0], env), it(a[1], env), it(a[2], env)
            return v if lo == 0 and hi == it(mk("len", a[0]), env) else mk("slice", v, I(lo), I(hi))
        if o in ("vref", "adt", "tup", "arr", "one", "arep", "pwritten"):
            r = mk(o, *[ev(y, env) if isinstance(y, t.T) else tuple(ev(z, env) if isinstance(z, t.T) else z for z in y) if isinstance(y, tuple) else y for y in a])
            return r
        if o == "coll":
            return self.evv(x, env)
        if o == "prefix":
            p, q = ev(a[0], env), ev(a[1], env)
            if p.op == q.op == "str":
                return t.B(p.a[0].startswith(q.a[0]))
        if o == "suffix" or o == "contains":
            p, q = ev(a[0], env), ev(a[1], env)
            if p.op == q.op == "str":
                return t.B(p.a[0].endswith(q.a[0]) if o == "suffix" else q.a[0] in p.a[0])
        if o == "trim":
            p = ev(a[0], env)
            if p.op == "str":
                return S({"trim": p.a[0].strip(), "trim_end": p.a[0].rstrip(), "trim_start": p.a[0].lstrip()}[a[1]])
        if o == "strdrop":
            p, n = ev(a[0], env), it(a[1], env)
            if p.op == "str" and p.a[0].isascii() and len(p.a[0]) >= n:
                return S(p.a[0][n:])
        if o == "id":
            # the number an interned string was given
            r = t.NEWID.get(x)
            if r is not None and not freeindex(x):
                return ev(r, env)
            return mk("id", a[0], ev(a[1], env))
        if o == "has" and a[0].op == "whole":
            key = ev(a[1], env)
            hit = False
            for seg in a[0].a[1]:
                for e in self.entries(seg, env):
                    if a[0].a[0] in ("map", "hmap", "bmap"):
                        e = e.a[0][0]
                    r = t.eq(ev(e, env), key)
                    if r.op != "int":
                        raise Unknown("key")
                    hit = hit or r is ONE
            return t.B(hit)
        if o == "undef":
            raise Unknown("undefined field")
        raise Unknown(o)

    def entries(self, seg, env):
        """the entries of a part of a collection"""
        if seg.op == "one":
            return [self.ev(seg.a[0], env)]
        if seg.op == "rep":
            L, alts = seg.a
            n = self.count(L, env)
            if n > 64:
                raise Unknown("large collection")
            out = []
            for k in range(n):
                e2 = env + ((L, k),)
                for it in alts[self.altof(L, len(alts), e2)]:
                    if it.op != "one":
                        raise Unknown("entry")
                    out.append(self.ev(it.a[0], e2))
            return out
        raise Unknown("entries " + seg.op)

    def selfsum(self, i, n):
        """a running sum whose increments depend on the sum so far, after n iterations"""
        L, cs = t.SELFLEAF[i]
        vs = self.prefix.setdefault(i, {0: 0})

        def step(k):
            e = ((L, k),)
            return self.int(cs[self.altof(L, len(cs), e)], e)
        if n in vs:
            return vs[n]
        k = n
        while k not in vs and n - k <= 500:
            k -= 1
        if k not in vs:
            # the elements of a long repetition are alike: the increments settle
            k0 = 96
            v = self.selfsum(i, k0)
            d = v - vs[k0 - 1]
            if any(vs[j] - vs[j - 1] != d for j in range(k0 - 24, k0)):
                raise Unknown("large running sum")
            for j in (n // 2, n - 1):
                vs[j] = v + d * (j - k0)
                self.memo.clear()
                if step(j) != d:
                    del vs[j]
                    raise Unknown("large running sum")
            k = n - 1
        while k < n:
            vs[k + 1] = vs[k] + step(k)
            k += 1
        return vs[n]

    def no(self, why):
        raise Unknown(why)

    def bits(self, x, env):
        if x.op == "bnot":
            return ~self.int(x.a[0], env)
        return self.int(x, env)

    def boundof(self, body, memo=None):
        """the bound index symbol of a canonical sum"""
        b = mk("L", -t.tdepth(body) - 1)
        return b if t.mentions(body, b) else None

    def prefixsum(self, x, seg, body, b, env, n):
        return sum(self.int(body, env + ((b, k),)) for k in range(n))

    def ispop(self, s):
        m = mk("many", s)
        return m in self.eng.M.ELTY or m in t.NCLS

    def choice(self, d, dom):
        if d in self.assign:
            return self.assign[d]
        f = self.facts.get(d)
        bad = f[1] if f is not None and f[0] == "ne" else ()
        vs = [v for v in (dom or ()) if v not in bad]
        if not vs:
            raise Unknown("domain " + t.show(d)[:120] + str(dom) + str(f))
        return I(vs[self.h(self.key(d), len(vs))])

    def leaf(self, y, orig):
        """y: a leaf with concrete indices; orig: the typed leaf it came from"""
        if y in self.assign:
            return self.assign[y]
        ty = TY.get(orig)
        if ty is None and y.op == "lf":
            ty = LFTY.get((y.a[0].a[0], y.a[1]))
        if ty is None and y.op == "fld" and y.a[0].op == "el" and y.a[1] == 0:
            et = self.eng.M.ELTY.get(y.a[0].a[0])
            if et is not None and et[0] == "map" and y.a[2] in (0, 1):
                ty = et[1 + y.a[2]]
        if ty is not None:
            k = self.eng.types[ty]
            if k["s"] in INTS or k["s"] == "bool":
                if t.is_ispow2(orig):
                    t.POW2.add(y)
                return I(self.leafint(y, ty))
            t.typed(y, ty)
            self.eng.dom_of(y, ty)
        return y

    def ok(self, facts, disj=()):
        """does the assignment satisfy the facts?  (facts about single iterations are left out)"""
        if not self.clauses([c for c in disj if not any(freeindex(l) for l in c)]):
            return False
        for f, v in facts.items():
            try:
                if not self.holds(f, v):
                    return False
            except Unknown:
                if freeindex(f):
                    continue
                raise
        return True

    # ---------------------------------------------------------------- images
    def expand(self, items, env=(), out=None, gaps=None):
        """concrete written items [(position, type, value, size, context)]; parts of very long repetitions are left out"""
        if out is None:
            out = []
        for x in items:
            if x.op == "w":
                out.append(mk("w", I(self.int(x.a[0], env)), x.a[1], self.evv(x.a[2], env), self.ev(x.a[3], env) if isinstance(x.a[3], t.T) else x.a[3], I(self.int(x.a[4], env))))
            elif x.op == "pw":
                out.append(mk("pw", I(self.int(x.a[0], env)), x.a[1], self.evv(x.a[2], env), x.a[3], I(self.int(x.a[4], env))))
            elif x.op == "sk":
                out.append(mk("sk", I(self.int(x.a[0], env)), I(self.int(x.a[1], env))))
            elif x.op in ("rep", "replog"):
                L, alts = x.a
                n = self.count(L, env)
                ks = range(n) if n <= 64 else (0, 1, n - 2, n - 1)
                first = len(out)
                for k in ks:
                    e2 = env + ((L, k),)
                    self.expand(alts[self.altof(L, len(alts), e2)], e2, out, gaps)
                if n > 64 and gaps is not None and len(out) > first:
                    gaps.append((x.op, out[first].a[0].a[0], out[-1].a[0].a[0]))
            else:
                raise Unknown("item " + x.op)
        return out

    def evv(self, v, env):
        if v.op == "coll" and v.a[0] == "sink":
            gaps = []
            r = mk("coll", "sink", tuple(self.expand(v.a[1], env, gaps=gaps)), ())
            if gaps:
                self.nested[r] = (v.a[1], gaps)
            return r
        if v.op == "coll":
            return mk("coll", v.a[0], tuple(self.evv(s, env) for s in v.a[1]), tuple(self.expand(v.a[2], env)))
        if v.op in ("fill", "zeros"):
            return mk(v.op, *[self.ev(y, env) if isinstance(y, t.T) else y for y in v.a])
        return self.ev(v, env)


def freeindex(f):
    """does f talk about a single iteration?"""
    r = FREEIX.get(f)
    if r is None:
        out = set()
        freeloops(f, out)
        r = FREEIX[f] = bool(out)
    return r


FREEIX = {}


def huge(facts):
    """do the facts need a quantity of 2 GiB or more?"""
    for f, v in facts.items():
        if f.op == "lt0" and f.a[0].op == "lin" and v[0] == "eq":
            c = f.a[0].a[0]
            if v[1] == 0 and c < -(1 << 31) + (1 << 24) or v[1] == 1 and c > (1 << 31) - (1 << 24):
                return True
        # a 32-bit field that does not hold its value
        if f.op == "lin" and v[0] == "ne" and v[1] == frozenset((0,)):
            ts = [x for x, c in f.a[1] if x.op == "trunc" and x.a[1] >= 31 and abs(c) == 1]
            if len(ts) == 1 and any(t.addl(t.mulc(f, s), t.mulc(t.sub(ts[0], ts[0].a[0]), 1)) is ZERO for s in (1, -1)):
                return True
    return False


def freeloops(x, out, bound=()):
    if x.op in INDEXED and x.a[t.INDEX_OPS[x.op]] not in bound:
        L = x.a[t.INDEX_OPS[x.op]]
        if not (L.op == "L" and isinstance(L.a[0], int) and L.a[0] < 0) and L.op not in ("int", "Lnext", "Lrev", "Lat"):
            out.add(L)
    for c in t.children(x):
        if isinstance(c, t.T):
            freeloops(c, out, bound)


INDEXED = t.INDEX_OPS


def satisfiable(eng, facts, disj=(), segs=(), tries=24):
    """an assignment (and choice of iterations) that satisfies all the facts, or None"""
    Ls = set()
    for f in facts:
        freeloops(f, Ls)
    for c in disj:
        for l in c:
            freeloops(l, Ls)
    Ls = sorted((L for L in Ls if L in t.LOOPS), key=lambda x: x.i)
    flat = {f: v for f, v in facts.items() if not any(t.mentions(f, L) for L in Ls)}
    dj = [c for c in disj if not any(t.mentions(l, L) for l in c for L in Ls)]
    rest = [(f, v) for f, v in facts.items() if f not in flat]
    rdj = [c for c in disj if c not in dj]
    for m in models(eng, flat, segs, tries=tries, disj=dj):
        try:
            ns = [m.count(L, ()) for L in Ls]
        except Unknown:
            continue
        envs = [()]
        for L, n in zip(Ls, ns):
            envs = [e + ((L, k),) for e in envs for k in (range(n) if n <= 64 else (0, 1, n - 2, n - 1))][:400]
        for env in envs:
            try:
                if all(m.holds(f, v, env) for f, v in rest) and m.clauses(rdj, env):
                    return m
            except Unknown:
                continue
    return None


def constants(terms):
    """large literals in terms: quantities around them may be treated differently"""
    out, cut, seen, todo = set(), set(), set(), list(terms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "int":
            if 64 < abs(x.a[0]) < 1 << 31:
                out.add(abs(x.a[0]))
        elif x.op == "trunc" and x.a[1] < 31:
            cut.add(1 << x.a[1])
        elif x.op == "lin" and 64 < abs(x.a[0]) < 1 << 31:
            out.add(abs(x.a[0]))
        todo.extend(t.children(x))
    return tuple(sorted(out)) + tuple(sorted(cut)) * max(1, len(out) // max(1, len(cut)))


def affixes(terms):
    """the parts of names that the code asks for"""
    out, seen, todo = set(), set(), list(terms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("prefix", "suffix", "contains") and x.a[1].op == "str":
            out.add((x.op, x.a[1].a[0]))
        elif x.op == "trim":
            out.add(("trim", x.a[1]))
        todo.extend(t.children(x))
    return sorted(out)


def limits(terms):
    """numbers at which a value in the terms is cut off or wraps"""
    out, seen, todo = set(), set(), list(terms)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "trunc" and 8 <= x.a[1] <= 20:
            out.add(1 << x.a[1])
        elif x.op == "mod" and x.a[1].op == "int" and 8 <= x.a[1].a[0] <= 1 << 20:
            out.add(x.a[1].a[0])
        elif x.op == "band":
            for y in x.a:
                if isinstance(y, t.T) and y.op == "int" and 7 <= y.a[0] < 1 << 20 and y.a[0] & (y.a[0] + 1) == 0:
                    out.add(y.a[0] + 1)
        todo.extend(t.children(x))
    return sorted(out)


def models(eng, facts, segs, tries=24, budget=120, disj=(), terms=()):
    """assignments that satisfy the facts: small ones first, then ones with quantities near the constants that occur in
    the code, then ones with one very large population around the thresholds that occur in the facts"""
    n = 0
    consts = constants([f for f in facts if f.op in ("lt0", "eq", "lin")] + [l for c in disj for l in c])
    more = constants(terms)
    for big in (False, True) if consts or more else (False,):
        n = 0
        for seed in range(12 * tries):
            m = Model(eng, seed, facts=facts, disj=disj)
            if big:
                m.consts = consts if consts and (seed % 2 or not more) else more
                # values seen while the assignment was set up were chosen without the constants
                m.memo.clear()
                m.prefix.clear()
            try:
                if m.ok(facts, disj):
                    yield m
                    n += 1
                    if n >= tries:
                        break
            except Unknown:
                pass
    # names that have the parts the code looks for
    af = affixes(list(facts) + [l for c in disj for l in c] + list(terms))
    n = 0
    for seed in range(6 * tries if af else 0):
        m = Model(eng, seed, facts=facts, disj=disj)
        m.affix = af
        m.memo.clear()
        m.prefix.clear()
        try:
            if m.ok(facts, disj):
                yield m
                n += 1
                if n >= tries:
                    break
        except Unknown:
            pass
    # populations just large enough for an index or a count to be cut off
    n = 0
    for b in limits(terms):
        for seed in range(4):
            for seg in segs:
                m = Model(eng, seed, sizes={s: (seed + i) % 3 for i, s in enumerate(segs)}, facts=facts, disj=disj)
                m.sizes[seg] = b + (2, 5, 0, 33)[seed]
                try:
                    if m.ok(facts, disj):
                        yield m
                        n += 1
                        if n >= tries:
                            break
                except Unknown:
                    pass
    # thresholds
    big = sorted({abs(f.a[0].a[0]) for f in facts if f.op == "lt0" and f.a[0].op == "lin" and 500 < abs(f.a[0].a[0]) < 1 << 20})
    n = 0
    for seed in range(2):
        for d in (100, -1, 0, 1, -2, 2, -3, 3, -4, 4, -6, 6, -8, 8, -10, 10, -12, 12):
            for b in big:
                for seg in segs:
                    m = Model(eng, seed, sizes={s: (0 if (seed + d) % 2 else 1) for s in segs}, facts=facts, disj=disj)
                    m.sizes[seg] = b + d
                    try:
                        if m.ok(facts, disj):
                            yield m
                            n += 1
                            if n >= budget:
                                return
                    except Unknown:
                        pass
