"""Abstract file images.

A back end's summary is the sequence of items it writes: (position, type, value, size).  An image answers questions about
that sequence either symbolically (positions and values are terms over the unknown artifact) or under one assignment of
the unknowns; the readers in elfread.py / machread.py are written once against it."""
from engine import terms as t
from engine.terms import mk, I, ZERO, ONE
from engine.interp import State
from engine.evalm import Model, Unknown, models, freeindex


class Miss(Exception):
    """the image cannot be read further: `definite` when it is certain, else not resolved"""

    def __init__(self, why, definite=False):
        Exception.__init__(self, why)
        self.definite = definite


class Image:
    def __init__(self, eng, items, st, model=None):
        self.eng, self.st, self.model = eng, st, model
        self.gaps = []
        self.names = {}
        self.raw = items
        if model is not None:
            items = model.expand(items, gaps=self.gaps)
        self.items = items
        self.flat = []
        self._flat(items, ())
        self.bypos = {}
        for k, (x, ch) in enumerate(self.flat):
            if x.op == "w":
                self.bypos.setdefault(x.a[0], []).append(k)

    def _flat(self, items, ch):
        for x in items:
            if x.op in ("rep", "replog"):
                for j, al in enumerate(x.a[1]):
                    self._flat(al, ch + ((x.a[0], j),))
            else:
                self.flat.append((x, ch))

    # ---------------------------------------------------------------- values
    def ev(self, x):
        """the value of an expected term in this image"""
        return self.model.ev(x) if self.model is not None else self.st.known(x) if x.op != "str" else x

    def eq(self, a, b):
        """True / False / None"""
        if a is b:
            return True
        if self.model is not None:
            r = t.eq(self.ev(a), self.ev(b))
            return None if r.op != "int" else r is ONE
        return self._eq(a, b, self.st, 0)

    def truth(self, c):
        if self.model is not None:
            r = self.ev(c)
            return None if r.op != "int" else r is ONE
        return self._split(c, self.st, 0)

    def _eq(self, a, b, st, d):
        return self._split(t.eq(a, b), st, d) if a is not b else True

    def _split(self, c, st, d):
        c = st.known(c)
        if c.op == "int":
            return c is ONE
        r = implied(st, c)
        if r is not None:
            return r
        if d >= 14:
            return None
        k = t.findite(c)
        if k is None:
            k = next((x for x in subterms(c) if x.op in ("eq", "discr") and x is not c and boolish(x)), None)
        if k is None or k is c:
            # do the path's clauses settle it?
            ok = []
            for v in (1, 0):
                s2 = st.copy()
                ok.append(s2.assume(c, v) and not s2.refuted())
            return True if ok == [True, False] else False if ok == [False, True] else None
        seen = set()
        for v in (1, 0):
            s2 = st.copy()
            if implied(st, k) is (v == 0):
                continue
            if not s2.assume(k, v) or s2.refuted():
                continue
            c2 = t.replace(c, {k: I(v)})
            if k.op == "eq" and v == 1 and k.a[1].op == "discr" and k.a[0].op == "int":
                c2 = t.replace(c2, {k.a[1]: k.a[0]})
            if k.op == "eq" and v == 1 and k.a[0].op == "discr" and k.a[1].op == "int":
                c2 = t.replace(c2, {k.a[0]: k.a[1]})
            seen.add(self._split(c2, s2, d + 1))
            if None in seen:
                return None
        if seen == {True}:
            return True
        if seen == {False}:
            return False
        if not seen:
            return True
        return None

    def le(self, a, b):
        """a <= b"""
        if self.model is None and b.op == "max" and any(self.le(a, p) is True for p in b.a[0]):
            return True
        d = t.sub(a, b)                     # d <= 0
        if self.model is not None:
            d = self.ev(d)
            return d.a[0] <= 0 if d.op == "int" else None
        return self.truth(t.lt0(t.sub(d, ONE)))

    def divides(self, a, x):
        """is x a multiple of the power of two a?"""
        if self.model is not None:
            r = t.mod(self.ev(x), self.ev(a))
            return None if r.op != "int" else r is ZERO
        self.fuel = 300
        return self._divides(a, x, self.st, 0, {})

    def _divides(self, a, x, st, d, rp):
        a, x = st.known(t.replace(a, rp)), st.known(t.replace(x, rp))
        if a is ONE or t.mod(x, a) is ZERO:
            return True
        self.fuel -= 1
        if d >= 16 or self.fuel < 0:
            return None
        k = t.findite(a) or t.findite(x)
        if k is not None:
            return self._cases(k, st, lambda s, v: self._divides(a, x, s, d + 1, rp | {k: I(v)}))
        for p, c in sorted(t._lin(x)[1].items(), key=lambda pc: -pc[0].i):
            if c == 1 and p.op == "pad" and self._below(a, p.a[1], st, d + 1) and self._divides(a, t.sub(x, t.add(p.a[0], p)), st, d + 1, rp):
                return True
        for q, c in t._lin(x)[1].items():
            if c != 1 or q.op not in ("total", "Sum"):
                continue
            for i in sorted({h.a[1] for h in subterms(q, set(), True) if h.op == "hdr" and h.a[1] in t.SELFLEAF}):
                L, cs = t.SELFLEAF[i]
                rec = t.LOOPS[L]
                body = t.gate(rec, list(cs))
                if body is None or rec.source is None:
                    continue
                body = st.known(t.replace(body, rp))
                rest = t.sub(x, st.known(t.total(rec.source, body, L)))
                if q in t._lin(rest)[1]:
                    continue
                for p, c2 in t._lin(body)[1].items():
                    if c2 != 1 or p.op != "pad":
                        continue
                    v0 = t.sub(t.sub(p.a[0], mk("hdr", L, i)), t.sub(body, p))
                    if t.mentions(v0, L):
                        continue
                    n = t.segcount(rec.source)
                    last = t.replace(p.a[1], {mk("iter", L): t.sub(n, ONE)})

                    def case(s, v):
                        if v == 1:
                            return self._divides(a, rest, s, d + 1, rp)
                        return self._below(a, s.known(last), s, d + 1) and self._divides(a, t.sub(rest, v0), s, d + 1, rp)
                    if self._cases(t.eq(ZERO, n), st, case):
                        return True
        return None

    def _cases(self, k, st, fn):
        for v in (1, 0):
            s = st.copy()
            if implied(st, k) is (v == 0) or not s.assume(k, v) or s.refuted():
                continue
            if fn(s, v) is not True:
                return None
        return True

    def _below(self, a, m, st, d):
        """a <= m, both powers of two"""
        a, m = st.known(a), st.known(m)
        if a is m or a is ONE:
            return True
        if a.op == "int" and m.op == "int":
            return a.a[0] <= m.a[0]
        if m.op == "max" and any(self._below(a, p, st, d) for p in m.a[0]):
            return True
        k = t.findite(m) or t.findite(a) or (next((f for p in (m.a[0] if m.op == "max" else ()) for f in [t.findite(p)] if f is not None), None))
        if k is None or d >= 16:
            return None
        return self._cases(k, st, lambda s, v: self._below(t.replace(a, {k: I(v)}), t.replace(m, {k: I(v)}), s, d + 1))

    # ---------------------------------------------------------------- items
    def at(self, pos, typs=None, what=""):
        """the item written at a position"""
        pos = self.ev(pos)
        c = [k for k in self.bypos.get(pos, ()) if typs is None or self.flat[k][0].a[1] in typs]
        c = [k for k in c if not (self.flat[k][0].a[4] is ZERO)] or c
        if len(c) >= 1:
            return c[0]
        if self.model is None:
            # conditionals in the position
            for k, (x, ch) in enumerate(self.flat):
                if x.op == "w" and not ch and (typs is None or x.a[1] in typs) and self.eq(x.a[0], pos) is True:
                    return k
            raise Miss("%s: nothing resolved at %s" % (what, t.show(pos)[:80]))
        if pos.op == "int" and any(a <= pos.a[0] <= b for o, a, b in self.gaps):
            raise Miss("%s: inside a long repetition" % what)
        raise Miss("%s: nothing of type %s at offset %s" % (what, "/".join(typs or ()), t.show(pos)), True)

    def typed(self, typ):
        return [(x, ch) for x, ch in self.flat if x.op == "w" and x.a[1] == typ]

    def fields(self, x):
        """named fields of a written structure"""
        v = x.a[2]
        if v.op != "adt":
            raise Miss("%s value not resolved" % x.a[1])
        r = self.names.get(v.a[0])
        if r is None:
            for i in self.eng.pathty.get(v.a[0], []):
                vs = self.eng.types[i].get("variants")
                if vs:
                    r = [f["n"] for f in vs[v.a[1]]["f"]]
            self.names[v.a[0]] = r
        return dict(zip(r, [widen(x) for x in v.a[2]]))

    def first(self, i, ch):
        """a term in the first iteration of the loop that produces it"""
        if self.model is not None or not ch:
            return i
        for L, alt in ch:
            c, m = t._lin(i)
            r = I(c)
            for a, v in m.items():
                if a is mk("iter", L) or (a.op == "ptot" and a.a[2] is L and a.a[0] is t.LOOPS[L].source):
                    continue
                if t.mentions(a, L):
                    return None
                r = t.add(r, t.mulc(a, v))
            i = r
        return i

    def peak(self, i, ch):
        """(p, definite): an upper bound of a term over the iterations of the loops in ch that produce it"""
        if self.model is not None or not ch:
            return i
        if len(ch) != 1:
            return None
        L, alt = ch[0]
        rec = t.LOOPS[L]
        seg = rec.source
        if rec.n is None or seg is None:
            return None
        n = t.NCLS.get(seg)
        it = mk("iter", L)
        c, m = t._lin(i)
        ks = [None] if not n else list(range(n))
        w = dict.fromkeys(ks, 0)
        base, tot = t.ZERO, t.ZERO
        for a, v in m.items():
            if a is it:
                for k in ks:
                    w[k] += v
                tot = t.add(tot, t.mulc(rec.n, v))
            elif a.op == "ptot" and a.a[2] is L and a.a[0] is seg and n:
                b = t.rename(a.a[1], mk("L", -(t.tdepth(a.a[1]) + 1)), L)
                cl = mk("cls", mk("el", seg, L))
                for k in ks:
                    x = t.replace(b, {cl: I(k)})
                    if x.op != "int":
                        return None
                    w[k] += v * x.a[0]
                tot = t.add(tot, t.mulc(t.total(seg, b, L), v))
            elif t.mentions(a, L):
                return None
            else:
                base = t.add(base, t.mulc(a, v))
        if any(v < 0 for v in w.values()):
            return None
        here = ks
        if n:
            f = dict(rec.alts[alt].facts)
            cl = mk("cls", mk("el", seg, L))
            here = [k for k in ks if cl not in f or (k == f[cl][1] if f[cl][0] == "eq" else k not in f[cl][1])]
            here = [k for k in here if not any(g.op == "eq" and cl in g.a and any(x.op == "int" and (x.a[0] == k) != bool(v[1]) for x in g.a) for g, v in f.items() if v[0] == "eq")]
        return t.add(t.add(base, I(c)), t.sub(tot, I(min(w[k] for k in here))))


def widen(x):
    """fields of 32 bits and more are read as unbounded (the artifact is assumed to be far below 2 GiB)"""
    while x.op == "trunc" and x.a[1] >= 31:
        x = x.a[0]
    return x


def boolish(x):
    return x.op == "eq" and any(y.op == "discr" for y in x.a)


def subterms(x, seen=None, binders=False):
    if seen is None:
        seen = set()
    if x in seen:
        return
    seen.add(x)
    yield x
    if x.op in t.BINDERS and not binders:
        return
    for c in t.children(x):
        yield from subterms(c, seen, binders)


def implied(st, c):
    """truth of a comparison that follows from one known linear comparison"""
    if c.op == "not":
        r = implied(st, c.a[0])
        return None if r is None else not r
    if c.op == "eq":
        # a linear equality excluded by a sign fact
        return None
    if c.op != "lt0":
        return None
    e = c.a[0]
    for f, v in st.facts.items():
        if f.op != "lt0" or v[0] != "eq":
            continue
        g = f.a[0]
        if v[1] == 1:
            # g < 0, i.e. g <= -1
            if t.lt0(t.sub(t.sub(e, g), ONE)) is ONE:       # e <= g
                return True
            if t.lt0(t.sub(t.sub(t.mulc(e, -1), ONE), t.add(g, ONE))) is ONE and False:
                return False
            # e >= 0 contradicts g < 0 when g >= e
        else:
            # g >= 0
            if t.lt0(t.sub(t.sub(g, e), ONE)) is ONE:       # e >= g
                return False
    # e < 0 contradicted / forced through the negation
    n = t.sub(t.mulc(e, -1), ONE)                            # not c  <=>  n < 0
    for f, v in st.facts.items():
        if f.op != "lt0" or v[0] != "eq":
            continue
        g = f.a[0]
        if v[1] == 1 and t.lt0(t.sub(t.sub(n, g), ONE)) is ONE:
            return False
        if v[1] == 0 and t.lt0(t.sub(t.sub(g, n), ONE)) is ONE:
            return True
    return None


class Checker:
    """runs one obligation function on a summary symbolically and, where that does not settle it, on assignments"""

    def __init__(self, rep, eng, where):
        self.rep, self.eng, self.where = rep, eng, where

    def run(self, prefix, items, st, fn, segs=(), notes=None, tries=24):
        obs = self.collect(items, st, fn, None)
        notes = self.eng.notes if notes is None else notes
        open_ = {n: (v, why) for n, (v, why) in obs.items() if v is not True}
        for n, (v, why) in obs.items():
            if v is True:
                self.rep.ok(prefix + "/" + n)
        if not open_:
            return True
        if notes:
            w = "; ".join(sorted({str(x[1])[:80] for x in notes})[:3])
            for n in open_:
                self.rep.und(prefix + "/" + n, "not fully interpreted: " + w)
            return False
        if self.rep.enough():
            for n, (v, why) in open_.items():
                self.rep.und(prefix + "/" + n, why[:160])
            return False
        left = dict(open_)
        last = {}
        try:
            for m in models(self.eng, st.facts, segs, tries=tries, disj=st.disj, terms=[x for x in items if isinstance(x, t.T)]):
                try:
                    got = self.collect(items, st, fn, m)
                except Unknown as e:
                    last["why"] = str(e)
                    continue
                for n in list(left):
                    keys = [n] if n != "readable" else list(got)
                    for k in keys:
                        v, why = got.get(k, (None, ""))
                        if v is False:
                            self.rep.bad(prefix + "/" + (k if n == "readable" else n), "%s (for example with %s)" % (why, describe(m)), self.where)
                            left.pop(n, None)
                if not left:
                    break
        except Unknown as e:
            last["why"] = str(e)
        for n, (v, why) in left.items():
            self.rep.und(prefix + "/" + n, "%s%s" % (why[:160], " [%s]" % last["why"] if last else ""))
        return False

    def collect(self, items, st, fn, model):
        obs = {}

        def ob(name, v, why=""):
            if callable(v):
                try:
                    v = v()
                except Miss as e:
                    why = str(e)
                    v = False if e.definite else None
            old = obs.get(name)
            if old is None or old[0] is True or (old[0] is None and v is False):
                obs[name] = (v, why)
            return v
        try:
            img = Image(self.eng, items, st, model)
            fn(img, ob)
        except Miss as e:
            obs["readable"] = (False if e.definite and model is not None else None, str(e))
        except Unknown as e:
            if model is None:
                obs["readable"] = (None, str(e))
            else:
                raise
        return obs


def describe(m):
    return ", ".join("%s %s" % (n, t.show(s)[:40]) for s, n in sorted(m.sizes.items(), key=lambda kv: kv[0].i))[:160]
