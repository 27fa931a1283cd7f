"""Hash-consed terms: the value domain of the abstract interpreter.

Every abstract value is a term.  Terms are interned, so equality of abstract values is identity.
Integers are kept in linear normal form, alignment idioms are canonicalised to `pad(x, a)`.
"""


import copy


class T:
    __slots__ = ("op", "a", "i", "h", "idx")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.i = _n[0]
        _tab[k] = t
    return t


# side table: type id of symbolic terms
TY = {}


def typed(t, ty):
    if ty is not None and t not in TY:
        TY[t] = ty
    return t


def I(n):
    return mk("int", int(n))


ZERO = I(0)
ONE = I(1)


def B(b):
    return ONE if b else ZERO


def S(s):
    return mk("str", s)


UNIT = mk("tup", ())


def tup(*f):
    return mk("tup", tuple(f))


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- linear arithmetic
def _lin(t):
    """-> (const, {atom: coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(c, m):
    m = {k: v for k, v in m.items() if v != 0}
    if not m:
        return I(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(m.items(), key=lambda kv: kv[0].i)))


def add(x, y, ky=1):
    c1, m1 = _lin(x)
    c2, m2 = _lin(y)
    c = c1 + ky * c2
    for k, v in m2.items():
        m1[k] = m1.get(k, 0) + ky * v
    return _mklin(c, m1)


def sub(x, y):
    return add(x, y, -1)


def addl(*xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def mulc(x, k):
    c, m = _lin(x)
    return _mklin(c * k, {a: v * k for a, v in m.items()})


def is_pow2(n):
    return n > 0 and (n & (n - 1)) == 0


def _divmul(d, a):
    """(x + a - 1) / a * a"""
    z = sub(d.a[0], sub(a, ONE))
    if all(v > 0 and nonneg(k) for k, v in _lin(z)[1].items()) and _lin(z)[0] >= 0:
        return add(z, pad(z, a))
    return None


def mul(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op == "div" and p.a[1] is q:
            r = _divmul(p, q)
            if r is not None:
                return r
    if x.op == "int":
        return mulc(y, x.a[0])
    if y.op == "int":
        return mulc(x, y.a[0])
    # div(z + a - 1, a) * a  -> alignup
    for p, q in ((x, y), (y, x)):
        if p.op == "div" and p.a[1] is q:
            z = sub(p.a[0], sub(q, ONE))
            return add(z, pad(z, q))
        if p.op == "divceil" and p.a[1] is q:
            return add(p.a[0], pad(p.a[0], q))
    # distribute over linear forms
    if x.op == "lin" or y.op == "lin":
        cx, mx = _lin(x)
        cy, my = _lin(y)
        r = I(cx * cy)
        for k, v in my.items():
            r = add(r, mulc(k, v * cx))
        for k, v in mx.items():
            r = add(r, mulc(k, v * cy))
        for k, v in mx.items():
            for k2, v2 in my.items():
                r = add(r, mulc(_mulatom(k, k2), v * v2))
        return r
    return _mulatom(x, y)


def _mulatom(x, y):
    fs = []
    for t in (x, y):
        fs.extend(t.a[0] if t.op == "mul" else (t,))
    return mk("mul", tuple(sorted(fs, key=lambda t: t.i)))


POW2 = set()


POW2TAGS = set()


def is_ispow2(a):
    """powers of two: literals, shifts of one, the alignments callers pass (the API asserts it) and choices among them"""
    if a in POW2:
        return True
    if a.op == "max" or a.op == "min":
        return all(is_ispow2(x) for x in a.a[0])
    if a.op == "ite":
        return is_ispow2(a.a[1]) and is_ispow2(a.a[2])
    if a.op == "fld" and a.a[0].op == "lf" and a.a[1] == 1 and a.a[0].a[1] in POW2TAGS:
        return True
    return (a.op == "int" and is_pow2(a.a[0])) or a.op == "pow2" or a.op in ("ptrsize",)


def pad(x, a):
    """(a - x % a) % a"""
    if x.op == "int" and a.op == "int" and a.a[0] > 0:
        return I(-x.a[0] % a.a[0])
    if a is ONE:
        return ZERO
    if mod(x, a) is ZERO:
        return ZERO
    if a.op == "int":
        c, m = _lin(x)
        m2 = {k: v for k, v in m.items() if v % a.a[0] != 0}
        x = _mklin(c % a.a[0] if m2 else c, m2)
        if x.op == "int":
            return I(-x.a[0] % a.a[0])
    return mk("pad", x, a)


def alignup(x, a):
    return add(x, pad(x, a))


def aligned(t, a):
    """is t a known multiple of a?"""
    if t.op == "int" and a.op == "int" and a.a[0] > 0:
        return t.a[0] % a.a[0] == 0
    if t is ZERO or t is a:
        return True
    if t.op == "mul" and a in t.a[0]:
        return True
    return False


def mod(x, a):
    if a is ONE:
        return ZERO
    if x.op == "int" and a.op == "int" and a.a[0] > 0:
        return I(x.a[0] % a.a[0])
    c, m = _lin(x)
    # drop pad groups: z + pad(z, a)
    for k, v in list(m.items()):
        if k.op == "pad" and v == 1 and (k.a[1] is a or k.a[1].op == "int" and a.op == "int" and a.a[0] > 0 and k.a[1].a[0] % a.a[0] == 0):
            z = k.a[0]
            rest = sub(x, k)
            if rest is z or mod(sub(rest, z), a) is ZERO:
                return ZERO
    # a - mod(z,a)  mod a -> pad
    m2 = {}
    for k, v in m.items():
        if a.op == "int":
            if v % a.a[0] == 0:
                continue
        elif aligned(k, a):
            continue
        m2[k] = v
    if a.op == "int":
        c = c % a.a[0] if not m2 or all(v >= 0 for v in m2.values()) else c
    y = _mklin(c, m2)
    if y is ZERO:
        return ZERO
    if y.op == "int" and a.op == "int":
        return I(y.a[0] % a.a[0])
    if len(m2) == 1 and c == 0:
        (k, v), = m2.items()
        if v == -1 and k.op == "mod" and k.a[1] is a:
            return pad(k.a[0], a)
        if v == -1:
            return pad(k, a)
        if v == 1 and k.op in ("mod", "pad") and k.a[1] is a:
            return k
    if a.op == "int" and len(m2) == 1 and c % a.a[0] == 0:
        (k, v), = m2.items()
        if v == -1 and k.op == "mod" and k.a[1] is a:
            return pad(k.a[0], a)
    return mk("mod", y, a)


def div(x, a):
    if x.op == "int" and a.op == "int" and a.a[0] > 0:
        return I(x.a[0] // a.a[0])
    if a is ONE:
        return x
    if a.op == "int" and a.a[0] > 0:
        c, m = _lin(x)
        if c % a.a[0] == 0 and all(v % a.a[0] == 0 for v in m.values()):
            return _mklin(c // a.a[0], {k: v // a.a[0] for k, v in m.items()})
    return mk("div", x, a)


def pow2(e):
    if e.op == "int":
        return I(1 << e.a[0])
    if e.op == "log2":
        return e.a[0]
    if e.op == "max":
        r = pow2(e.a[0][0])
        for x in e.a[0][1:]:
            r = maxv(r, pow2(x))
        return r
    if e.op == "ite":
        return ite(e.a[0], pow2(e.a[1]), pow2(e.a[2]))
    return mk("pow2", e)


def log2(x):
    if x.op == "int" and is_pow2(x.a[0]):
        return I(x.a[0].bit_length() - 1)
    if x.op == "pow2":
        return x.a[0]
    if x.op == "max" and is_ispow2(x):
        r = log2(x.a[0][0])
        for y in x.a[0][1:]:
            r = maxv(r, log2(y))
        return r
    if x.op == "ite" and is_ispow2(x):
        return ite(x.a[0], log2(x.a[1]), log2(x.a[2]))
    return mk("log2", x)


def shl(x, k):
    if k.op == "int":
        return mulc(x, 1 << k.a[0])
    if x is ONE:
        return pow2(k)
    return mul(x, pow2(k))


def shr(x, k):
    if k.op == "int":
        return div(x, I(1 << k.a[0]))
    return mk("shr", x, k)


def bnot(x):
    if x.op == "bnot":
        return x.a[0]
    return mk("bnot", x)


def band(x, y, bits=64):
    if x.op == "int" and y.op == "int":
        return I(x.a[0] & y.a[0])
    for p, q in ((x, y), (y, x)):
        if q is ZERO:
            return ZERO
        # p & !(a-1)
        if q.op == "bnot":
            a = add(q.a[0], ONE)
            if is_ispow2(a):
                z = sub(p, sub(a, ONE))
                # p = z + (a-1): alignup(z)
                return add(z, pad(z, a)) if _looks_up(p, a) else sub(p, mod(p, a))
        if q.op == "lin" or q.op == "int":
            a = add(q, ONE)
            if is_ispow2(a) and q is not ZERO:
                if a.op == "int" and a.a[0] == (1 << bits):
                    return p
                if p.op in ("neg",):
                    return pad(p.a[0], a)
                if a.op != "int" or p.op == "lin":
                    return mod(p, a)
    return mk("band", *sorted((x, y), key=lambda t: t.i))


def _looks_up(p, a):
    c, _ = _lin(p)
    if a.op == "int":
        return c % a.a[0] == a.a[0] - 1
    _, m = _lin(p)
    return m.get(a, 0) == 1 and c % 2 != 0 or (m.get(a, 0) == 1 and c == -1)


def bor(x, y):
    c = 0
    s = []
    for t in (x, y):
        ps = t.a[0] if t.op == "bor" else (t,)
        for p in ps:
            if p.op == "int":
                c |= p.a[0]
            elif p not in s:
                s.append(p)
    if not s:
        return I(c)
    s = sorted(s, key=lambda t: t.i)
    if c:
        s = [I(c)] + s
    if len(s) == 1:
        return s[0]
    return mk("bor", tuple(s))


def bxor(x, y):
    if x.op == "int" and y.op == "int":
        return I(x.a[0] ^ y.a[0])
    if x in (ZERO, ONE) and isbool(y):
        return y if x is ZERO else not_(y)
    if y in (ZERO, ONE) and isbool(x):
        return x if y is ZERO else not_(x)
    return mk("bxor", *sorted((x, y), key=lambda t: t.i))


def maxv(x, y):
    if x is y:
        return x
    if x.op == "int" and y.op == "int":
        return I(max(x.a[0], y.a[0]))
    ps = []
    c = None
    for t in (x, y):
        for p in (t.a[0] if t.op == "max" else (t,)):
            if p.op == "int":
                c = p.a[0] if c is None else max(c, p.a[0])
            elif p not in ps:
                ps.append(p)
    if c is not None and c > 0:
        ps.append(I(c))
    if len(ps) == 1:
        return ps[0]
    return mk("max", tuple(sorted(ps, key=lambda t: t.i)))


def minv(x, y):
    if x is y:
        return x
    if x.op == "int" and y.op == "int":
        return I(min(x.a[0], y.a[0]))
    return mk("min", tuple(sorted((x, y), key=lambda t: t.i)))


BITS = {"u8": 8, "u16": 16, "u32": 32, "i8": 8, "i16": 16, "i32": 32, "u64": 64, "usize": 64, "i64": 64,
        "isize": 64, "u128": 128, "i128": 128}


def small(t, bits):
    """is term t known to fit in `bits` unsigned bits?"""
    if t.op == "int":
        return 0 <= t.a[0] < (1 << bits)
    if isbool(t) or t.op == "discr":
        return True
    if t.op == "trunc":
        return t.a[1] <= bits
    if t.op == "log2":
        return bits >= 8
    if t in TYBITS:
        return TYBITS[t] <= bits
    return False


TYBITS = {}


def trunc(x, bits, signed=False):
    if x.op == "int":
        v = x.a[0] & ((1 << bits) - 1)
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return I(v)
    if small(x, bits - (1 if signed else 0)) or (small(x, bits) and not signed):
        return x
    if x.op == "trunc" and x.a[1] >= bits:
        x = x.a[0]
    return mk("trunc", x, bits)


# ---------------------------------------------------------------- booleans
BOOLOPS = {"eq", "lt0", "not", "and", "or", "has", "isnew", "bool", "prefix", "suffix", "contains", "exists", "forall",
           "ispow2", "fits", "lastit"}


def isbool(t):
    return t.op in BOOLOPS or t is ZERO or t is ONE or (t.op == "ite" and isbool(t.a[1]) and isbool(t.a[2]))


def not_(x):
    if x.op == "int":
        return B(x.a[0] == 0)
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def and_(*xs):
    s = []
    for x in xs:
        if x is ZERO:
            return ZERO
        if x is ONE:
            continue
        for p in (x.a[0] if x.op == "and" else (x,)):
            if p not in s:
                s.append(p)
    if not s:
        return ONE
    if len(s) == 1:
        return s[0]
    return mk("and", tuple(sorted(s, key=lambda t: t.i)))


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


# hook set by interp: is this type a field-less enum?
FIELDLESS = [lambda ty: False]
VARIANT_DISCR = [lambda path, v: v]


def discr(v):
    if v.op == "adt":
        return I(VARIANT_DISCR[0](v.a[0], v.a[1]))
    if v.op == "int":
        return v
    if v.op == "ite":
        return ite(v.a[0], discr(v.a[1]), discr(v.a[2]))
    return mk("discr", v)


def cat(*ps):
    out = []
    for p in ps:
        for q in (p.a[0] if p.op == "cat" else (p,)):
            if q.op == "str" and q.a[0] == "":
                continue
            if q.op == "str" and out and out[-1].op == "str":
                out[-1] = S(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def streq(x, y):
    px = list(x.a[0]) if x.op == "cat" else [x]
    py = list(y.a[0]) if y.op == "cat" else [y]
    while px and py:
        a, b = px[0], py[0]
        if a is b:
            px.pop(0)
            py.pop(0)
            continue
        if a.op == "str" and b.op == "str":
            n = min(len(a.a[0]), len(b.a[0]))
            if a.a[0][:n] != b.a[0][:n]:
                return ZERO
            px[0] = S(a.a[0][n:])
            py[0] = S(b.a[0][n:])
            if px[0].a[0] == "":
                px.pop(0)
            if py[0].a[0] == "":
                py.pop(0)
            continue
        break
    while px and py:
        a, b = px[-1], py[-1]
        if a is b:
            px.pop()
            py.pop()
            continue
        if a.op == "str" and b.op == "str":
            n = min(len(a.a[0]), len(b.a[0]))
            if a.a[0][-n:] != b.a[0][-n:]:
                return ZERO
            px[-1] = S(a.a[0][:-n])
            py[-1] = S(b.a[0][:-n])
            if px[-1].a[0] == "":
                px.pop()
            if py[-1].a[0] == "":
                py.pop()
            continue
        break
    if not px and not py:
        return ONE
    for p, q in ((px, py), (py, px)):
        if not p and any(t.op == "str" for t in q):
            return ZERO
    a = cat(*px)
    b = cat(*py)
    return mk("eq", *sorted((a, b), key=lambda t: t.i))


def stringy(t):
    return t.op in ("str", "cat", "name", "resolve", "disp", "strdrop", "trim")


# interner labels: (label, position) -> string and (label, string) -> position
INTID = {}
IDINT = {}


def intid(label, s):
    r = IDINT.get((label, s))
    return r if r is not None else mk("id", label, s)


def discrlike(q):
    return q.op in ("discr", "int") or q.op == "ite" and discrlike(q.a[1]) and discrlike(q.a[2])


def eq(x, y):
    if x is y:
        return ONE
    if x.op == "int" and y.op == "int":
        return B(x.a[0] == y.a[0])
    for p, q in ((x, y), (y, x)):
        if p.op == "int" and not is_pow2(p.a[0]) and q.op != "ptrsize" and is_ispow2(q):
            return ZERO
        if p.op == "int" and q.op == "ite" and discrlike(q):
            return ite(q.a[0], eq(p, q.a[1]), eq(p, q.a[2]))
    if x.op == "vref" and y.op == "vref":
        return eq(x.a[0], y.a[0])
    if x.op == "resolve" and y.op == "resolve" and x.a[0] is y.a[0]:
        return eq(x.a[1], y.a[1])
    if stringy(x) and stringy(y):
        return streq(x, y)
    if x.op == "str" or y.op == "str" or x.op == "cat" or y.op == "cat":
        return streq(x, y)
    if x.op == "adt" and y.op == "adt":
        if x.a[1] != y.a[1]:
            return ZERO
        return and_(*[eq(p, q) for p, q in zip(x.a[2], y.a[2])])
    if x.op == "tup" and y.op == "tup":
        return and_(*[eq(p, q) for p, q in zip(x.a[0], y.a[0])])
    if x.op == "adt" or y.op == "adt":
        if y.op == "adt":
            x, y = y, x
        # x adt, y symbolic
        d = eq(discr(y), discr(x))
        fs = [eq(fld(y, x.a[1], i, None), f) for i, f in enumerate(x.a[2])]
        if ENUMTY[0](x.a[0]):
            return and_(d, *fs)
        return and_(*fs)
    if x.op == "resolve" and y.op == "resolve" and x.a[0] is y.a[0]:
        return eq(x.a[1], y.a[1])
    for p, q in ((x, y), (y, x)):
        if p.op == "id" and q.op == "int" and (p.a[0], q.a[0]) in INTID:
            return eq(p.a[1], INTID[(p.a[0], q.a[0])])
    if x.op == "id" and y.op == "id" and x.a[0] is y.a[0]:
        return streq(x.a[1], y.a[1])
    tx, ty_ = TY.get(x), TY.get(y)
    t = tx if tx is not None else ty_
    if t is not None and FIELDLESS[0](t):
        return eq(discr(x), discr(y))
    for p, q in ((x, y), (y, x)):
        if q in (ZERO, ONE) and isbool(p):
            return p if q is ONE else not_(p)
    if x.op == "discr" and y.op == "int" or y.op == "discr" and x.op == "int":
        pass
    elif x.op in ("lin", "int") or y.op in ("lin", "int"):
        d = sub(x, y)
        if d.op == "int":
            return B(d.a[0] == 0)
        c, m = _lin(d)
        k0 = min(m, key=lambda t: t.i)
        if m[k0] < 0:
            d = mulc(d, -1)
            c, m = _lin(d)
        if all(v > 0 for v in m.values()) and c > 0 and all(nonneg(k) for k in m):
            return ZERO
        if len(m) <= 2 and (NEWID or OLDID):
            r = newid(d, m)
            if r is not None:
                return r
        # id(s) == ilen(strings) -> isnew
        if len(m) == 2 and c == 0:
            ks = sorted(m, key=lambda t: t.op)
            if {t.op for t in ks} == {"id", "ilen"} and set(m.values()) == {1, -1}:
                idt = [t for t in ks if t.op == "id"][0]
                il = [t for t in ks if t.op == "ilen"][0]
                if il.a[0] is idt.a[0]:
                    return mk("isnew", il, idt.a[1])
        if len(m) == 1:
            (k, v), = m.items()
            if c % v != 0:
                return ZERO
            n = -c // v
            if n < 0 and nonneg(k):
                return ZERO
            if isbool(k):
                return B(False) if n not in (0, 1) else (k if n == 1 else not_(k))
            return mk("eq", *sorted((k, I(n)), key=lambda t: t.i))
        return mk("eq", *sorted((d, ZERO), key=lambda t: t.i))
    if {x.op, y.op} == {"id", "ilen"}:
        idt, il = (x, y) if x.op == "id" else (y, x)
        r = newid(sub(idt, il), {idt: 1})
        if r is not None:
            return r
        if il.a[0] is idt.a[0]:
            return mk("isnew", il, idt.a[1])
    return mk("eq", *sorted((x, y), key=lambda t: t.i))


# strings known to be absent (present) in an interner of a known length when they were interned (no-collision mode)
NEWID = {}
OLDID = set()


def newid(d, m):
    """truth of id(s) - x == 0 for a string with a known fate"""
    for k, v in m.items():
        if k.op == "id" and abs(v) == 1:
            x = sub(k, d) if v == 1 else add(k, d)
            n = NEWID.get(k)
            if n is x:
                return ONE
            if (k, x) in OLDID:
                return ZERO
    return None


ENUMTY = [lambda path: True]
SIGNED = set()


def nonneg(t):
    return t not in SIGNED


def lt(x, y):
    d = sub(x, y)
    if d.op == "int":
        return B(d.a[0] < 0)
    return lt0(d)


def lt0(d):
    c, m = _lin(d)
    if all(v > 0 and nonneg(k) for k, v in m.items()) and c >= 0:
        return ZERO
    if all(v < 0 and nonneg(k) for k, v in m.items()) and c < 0:
        return ONE
    if NCLS:
        e = expandkinds(d)
        if e is not None:
            c2, m2 = _lin(e)
            if c2 >= 0 and all(v > 0 and nonneg(k) for k, v in m2.items()):
                return ZERO
            if c2 < 0 and all(v < 0 and nonneg(k) for k, v in m2.items()):
                return ONE
    # mod(x,a) - a < 0
    if c == 0 and len(m) == 2:
        for k, v in m.items():
            if k.op in ("mod", "pad") and v == 1 and m.get(k.a[1]) == -1:
                return ONE
    if len(m) == 1:
        (k, v), = m.items()
        if v == 1 and k.op in ("mod", "pad") and k.a[1].op == "int" and -c >= k.a[1].a[0]:
            return ONE
        if nonneg(k):
            if v == 1 and c == -1:
                return eq(k, ZERO)
            if v == -1 and c == 0:
                return not_(eq(k, ZERO))
    k0 = min(m, key=lambda t: t.i)
    if m[k0] < 0:
        # d<0  <=>  not (-d-1 < 0)
        return not_(mk("lt0", sub(mulc(d, -1), ONE)))
    return mk("lt0", d)


# ---------------------------------------------------------------- structured values
def adt(path, variant, *fields):
    return mk("adt", path, variant, tuple(fields))


def fld(v, variant, i, ty=None):
    if v.op == "adt":
        if v.a[1] == variant and i < len(v.a[2]):
            return v.a[2][i]
        return mk("undef", v, variant, i)
    if v.op == "tup":
        return v.a[0][i]
    if v.op == "clos":
        return v.a[1][i]
    if v.op == "ite":
        return ite(v.a[0], fld(v.a[1], variant, i, ty), fld(v.a[2], variant, i, ty))
    t = mk("fld", v, variant, i)
    if ty is not None:
        typed(t, ty)
    return t


def vref(v):
    return mk("vref", v)


def coll(kind, segs=(), log=()):
    return mk("coll", kind, tuple(segs), tuple(log))


def one(v):
    return mk("one", v)


# filled by loops registry: Lid term -> record
LOOPS = {}
# number of elements a collection received in the iterations before the current one, where known
PRECNT = {}


def segcount(s):
    o = s.op
    if o == "one":
        return ONE
    if o == "many":
        return length(s.a[0])
    if o == "pre":
        return PRECNT.get(s) or mk("npre", s.a[0], s.a[1])
    if o == "rep":
        L, alts = s.a
        cs = [addl(*[segcount(x) for x in it]) for it in alts]
        return sumof(L, cs)
    if o == "fill":
        return s.a[1]
    if o == "range":
        return sub(s.a[1], s.a[0])
    if o == "run":
        return length(s.a[0])
    if o == "w":
        return s.a[4]
    if o == "zeros":
        return s.a[0]
    if o in ("rev", "lg"):
        return segcount(s.a[0])
    if o == "is":
        return segcount(s.a[0])
    if o == "pw":
        return s.a[5]
    if o == "sk":
        return ZERO
    return mk("cnt", s)


def sumof(L, cs):
    """sum over the iterations of loop L of per-alternative deltas cs"""
    if all(c is ZERO for c in cs):
        return ZERO
    if all(c is cs[0] for c in cs) and not mentions(cs[0], L):
        return mul(cs[0], niter(L))
    r = canonsum(L, cs)
    if r is not None:
        return r
    return mk("Sum", L, tuple(cs))


def tdepth(x, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(x)
    if r is None:
        r = max([tdepth(c, memo) for c in children(x)] or [0]) + (1 if x.op in ("total", "tmax") else 0)
        memo[x] = r
    return r


def onlyel(x, L, segs, memo=None):
    """does x depend on the iteration of L only through the element of one of `segs` (or its neighbour)?"""
    if memo is None:
        memo = {}
    r = memo.get(x)
    if r is not None:
        return r
    if x.op == "el" and x.a[1] is L:
        r = x.a[0] in segs
    elif x.op in ("iter", "hdr") and x.a[0] is L:
        r = True
    elif x.op == "Lnext" and x.a[0] is L:
        r = True
    elif x.op in ("ptot", "pmax") and x.a[2] is L:
        r = x.a[0] in segs and onlyel(x.a[1], L, segs, memo)
    elif x.op in INDEX_OPS and x.a[INDEX_OPS[x.op]] is L:
        r = False
    elif x.op in ("Sum", "rep", "replog") and x.a[0] is L:
        r = False
    elif x is L:
        r = False
    else:
        r = all(onlyel(c, L, segs, memo) for c in children(x))
    memo[x] = r
    return r


# mixed populations: segment -> number of kinds of element (the kind of an element e is cls(e))
NCLS = {}


def bycls(seg, c, L):
    """c as a linear combination of atoms [kind = k] * a for a mixed population: [(k or None, atom or None (= 1), coefficient)]"""
    n = NCLS.get(seg)
    cl = mk("cls", mk("el", seg, L)) if n else None
    if cl is None or not contains(c, cl):
        c0, m = _lin(c)
        return [(None, None, c0)] + [(None, a, k) for a, k in m.items()]
    out = {}
    for k in range(n):
        c0, m = _lin(replace(c, {cl: I(k)}))
        for a, v in [(None, c0)] + list(m.items()):
            out.setdefault(a, [0] * n)[k] = v
    res = []
    for a, vs in out.items():
        res.append((None, a, vs[0]))
        res += [(k, a, vs[k] - vs[0]) for k in range(1, n)]
    return [x for x in res if x[2]]


def contains(x, y, memo=None):
    if x is y:
        return True
    if memo is None:
        memo = {}
    r = memo.get(x)
    if r is None:
        r = any(contains(c, y, memo) for c in children(x))
        memo[x] = r
    return r


def kindsum(op, seg, k, a, L, one, *rest):
    """sum of atom a (None: 1) over the elements of kind k (None: all)"""
    if k is None:
        if a is None:
            return one
        if not mentions(a, L):
            return mul(a, one)
        b = mk("L", -(tdepth(a) + 1))
        return mk(op, seg, rename(a, L, b), *rest)
    cl = mk("cls", mk("el", seg, L))
    body = ite(eq(cl, I(k)), ONE if a is None or not mentions(a, L) else a, ZERO)
    b = mk("L", -(tdepth(body) + 1))
    r = mk(op, seg, rename(body, L, b), *rest)
    return r if a is None or mentions(a, L) else mul(a, r)


def nonempty(seg, c):
    """c, given that segment seg has an element (it has one wherever a sum over it evaluates c)"""
    z = eq(segcount(seg), ZERO)
    return replace(c, {z: ZERO}) if z.op == "eq" and contains(c, z) else c


def total(seg, c, L):
    """sum of c over the elements of segment seg (L: the iteration symbol in c)"""
    n = segcount(seg)
    c = nonempty(seg, c)
    return addl(*[mulc(kindsum("total", seg, k, a, L, n), v) for k, a, v in bycls(seg, c, L)])


# running sums whose increments depend on the running sum itself: (segment, increment) -> leaf; leaf -> (loop, increments)
SELFSUM = {}
SELFLEAF = {}


def selfkey(seg, c, L):
    return (seg, rename(nonempty(seg, c), L, mk("L", -77)))


def ptotal(seg, c, L):
    """sum of c over the elements of seg before the current one of loop L"""
    i = SELFSUM.get(selfkey(seg, c, L)) if SELFSUM else None
    if i is not None:
        return mk("hdr", L, i)
    it = mk("iter", L)
    c = nonempty(seg, c)
    return addl(*[mulc(kindsum("ptot", seg, k, a, L, it, L), v) for k, a, v in bycls(seg, c, L)])


KINDX = {}


def kindatom(a):
    """a sum over a whole mixed population as a sum over its kinds (None: not such a sum)"""
    if a in KINDX:
        return KINDX[a]
    seg = None
    if a.op in ("total", "ptot") and a.a[0] in NCLS and not (a.a[1].op in ("ite", "eq") and contains_op(a.a[1], ("cls",))):
        seg = a.a[0]
    elif a.op == "len" and a.a[0].op == "sym":
        seg = mk("many", a.a[0])
    elif a.op == "iter" and a.a[0] in LOOPS:
        seg = LOOPS[a.a[0]].source
    if seg not in NCLS:
        return None
    b = mk("L", -90)
    L = a.a[2] if a.op == "ptot" else a.a[0] if a.op == "iter" else None
    op, rest = ("ptot", (L,)) if L is not None else ("total", ())
    body = rename(a.a[1], mk("L", -(tdepth(a.a[1]) + 1)), b) if a.op in ("total", "ptot") else None
    cl = mk("cls", mk("el", seg, b))
    new = []
    for k in range(NCLS[seg]):
        x = ite(eq(cl, I(k)), ONE if body is None else body, ZERO)
        new.append(mk(op, seg, rename(x, b, mk("L", -(tdepth(x) + 1))), *rest))
    r = KINDX[a] = addl(*new)
    return r


def expandkinds(d):
    """rewrite sums over a whole mixed population as sums over its kinds (for sign tests)"""
    c, m = _lin(d)
    out = None
    for a, v in m.items():
        if a.op not in ("total", "ptot", "len", "iter"):
            continue
        x = kindatom(a)
        if x is not None:
            out = addl(d if out is None else out, mulc(a, -v), mulc(x, v))
    return out


def factcond(x, f):
    if f[0] == "eq":
        return (x if f[1] == 1 else not_(x)) if isbool(x) else eq(x, I(f[1]))
    return and_(*[not_(eq(x, I(n))) for n in sorted(f[1])])


def refutes(f, l):
    """do the facts f exclude the literal l?"""
    if l.op == "not":
        return f.get(l.a[0]) == ("eq", 1)
    if f.get(l) == ("eq", 0):
        return True
    if l.op == "eq":
        k, n = (l.a[0], l.a[1]) if l.a[1].op == "int" else (l.a[1], l.a[0])
        if n.op == "int" and k in f:
            v = f[k]
            return v[1] != n.a[0] if v[0] == "eq" else n.a[0] in v[1]
    return False


def exclusive(a, b):
    """can no iteration be of both alternatives?"""
    for k, v in a.facts.items():
        w = b.facts.get(k)
        if w is None:
            continue
        if v[0] == "eq" and (w[1] != v[1] if w[0] == "eq" else v[1] in w[1]) or v[0] == "ne" and w[0] == "eq" and w[1] in v[1]:
            return True
    for p, q in ((a, b), (b, a)):
        for c in p.disj:
            if c and all(refutes(q.facts, l) for l in c):
                return True
    return False


def gate(rec, cs):
    """one value for the alternatives of a loop iteration: conditional on the facts that tell them apart"""
    if all(c is cs[0] for c in cs):
        return cs[0]
    if len(cs) != len(rec.alts) or len(cs) > 12:
        return None
    fs = [a.facts for a in rec.alts]
    if any(not c for a in rec.alts for c in a.disj):
        return None
    for i, a in enumerate(rec.alts):
        for j in range(i):
            if cs[i] is not cs[j] and not exclusive(a, rec.alts[j]):
                return None
    common = {k for k in fs[0] if all(f.get(k) == fs[0][k] for f in fs)}
    out = None
    for f, c, a in reversed(list(zip(fs, cs, rec.alts))):
        if out is None:
            out = c
            continue
        if out is c:
            continue
        cond = and_(*[factcond(k, v) for k, v in sorted(f.items(), key=lambda kv: kv[0].i) if k not in common] + [or_(*sorted(d, key=lambda l: l.i)) for d in a.disj])
        if cond is ONE:
            return None
        out = ite(cond, c, out)
    return out


def regself(L, cs, i):
    """note that leaf i of loop L is the running sum of cs"""
    SELFLEAF[i] = (L, tuple(cs))
    rec = LOOPS.get(L)
    if rec is None or rec.source is None or rec.irregular or rec.source.op not in ("many", "range"):
        return
    c = gate(rec, list(cs))
    if c is not None and onlyel(c, L, (rec.source,)):
        SELFSUM[selfkey(rec.source, c, L)] = i


def canonmax(L, cs, prefix=False):
    """largest of the per-iteration values cs (0 if there is none)"""
    rec = LOOPS.get(L)
    if rec is None or rec.source is None or rec.irregular or rec.source.op != "many":
        return None
    c = gate(rec, cs)
    if c is None or not onlyel(c, L, (rec.source,)):
        return None
    if not mentions(c, L):
        return None
    b = mk("L", -(tdepth(c) + 1))
    body = rename(c, L, b)
    return mk("pmax", rec.source, body, L) if prefix else mk("tmax", rec.source, body)


def canonsum(L, cs, prefix=False):
    """sum over the iterations of a loop as a sum over the source collection"""
    rec = LOOPS.get(L)
    if rec is None or rec.source is None or rec.irregular:
        return None
    s = rec.source
    if s.op not in ("many", "range"):
        return None
    c = gate(rec, cs)
    if c is None or not onlyel(c, L, (s,)):
        return None
    return (ptotal if prefix else total)(s, c, L)


def psumof(L, cs):
    """sum of the per-alternative deltas cs over the iterations before the current one"""
    if all(c is cs[0] for c in cs) and not mentions(cs[0], L):
        return mul(cs[0], mk("iter", L))
    rec = LOOPS.get(L)
    if rec is not None:
        h = rec.selfs.get(tuple(cs))
        if h is not None:
            return h
    r = canonsum(L, cs, prefix=True)
    if r is not None:
        return r
    return mk("psum", L, tuple(cs))


def niter(L):
    r = LOOPS.get(L)
    if r is not None and r.n is not None:
        return r.n
    return mk("niter", L)


def length(v):
    if v.op == "str":
        return I(len(v.a[0].encode()))
    if v.op == "bytes":
        return I(len(v.a[0]))
    if v.op == "cat":
        return addl(*[length(p) for p in v.a[0]])
    if v.op == "coll":
        if v.a[0] == "interner":
            return mk("ilen", ilabel(v), v) if any(s.op != "one" for s in v.a[1]) else I(len(v.a[1]))
        return addl(*[segcount(s) for s in v.a[1]]) if v.a[1] else ZERO
    if v.op == "arr":
        return I(len(v.a[0]))
    if v.op == "arep":
        return I(v.a[1])
    if v.op == "slice":
        return sub(v.a[2], v.a[1])
    return mk("len", v)


def nchars(v):
    """number of characters of a string"""
    if v.op == "str":
        return I(len(v.a[0]))
    if v.op == "cat":
        return addl(*[nchars(p) for p in v.a[0]])
    return mk("nchars", v)


def ilabel(v):
    for s in v.a[2]:
        if s.op == "label":
            return s
    return mk("label", 0)


INDEX_OPS = {"el": 1, "hdr": 0, "iter": 0, "psum": 0, "npre": 0, "pre": 0, "prelog": 0, "ptot": 2, "pmax": 2, "lastit": 0, "Lnext": 0,
             "Lrev": 0, "Lat": 1}


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


_ment = {}


def mentions(t, L):
    """does t mention index-specific symbols of loop L (free)?"""
    k = (t, L)
    r = _ment.get(k)
    if r is not None:
        return r
    if t.op in INDEX_OPS and t.a[INDEX_OPS[t.op]] is L:
        r = True
    elif t.op in ("Sum", "rep", "replog") and t.a[0] is L:
        r = False
    elif t is L:
        r = False
    else:
        r = any(mentions(c, L) for c in children(t))
    _ment[k] = r
    return r


def contains_op(t, ops, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = t.op in ops or any(contains_op(c, ops, memo) for c in children(t))
    memo[t] = r
    return r


def rebuild(t, a):
    """re-normalise a term with new args"""
    o = t.op
    if a == t.a:
        return t
    if o == "lin":
        r = I(a[0])
        for k, v in a[1]:
            r = add(r, mulc(k, v) if k.op != "int" else I(k.a[0] * v))
        return r
    if o == "mul":
        r = ONE
        for k in a[0]:
            r = mul(r, k)
        return r
    if o == "pad":
        return pad(*a)
    if o == "mod":
        return mod(*a)
    if o == "div":
        return div(*a)
    if o == "pow2":
        return pow2(*a)
    if o == "log2":
        return log2(*a)
    if o == "ispow2" and (a[0].op == "int" or is_ispow2(a[0])):
        return B(a[0].op != "int" or is_pow2(a[0].a[0]))
    if o == "eq":
        return eq(*a)
    if o == "lt0":
        return lt0(a[0]) if a[0].op != "int" else B(a[0].a[0] < 0)
    if o == "not":
        return not_(a[0])
    if o == "and":
        return and_(*a[0])
    if o == "max":
        r = a[0][0]
        for x in a[0][1:]:
            r = maxv(r, x)
        return r
    if o == "min":
        return minv(*a[0])
    if o == "bor":
        r = ZERO
        for x in a[0]:
            r = bor(r, x)
        return r
    if o == "band":
        return band(*a)
    if o == "bxor":
        return bxor(*a)
    if o == "trunc":
        return trunc(*a)
    if o == "discr":
        return discr(a[0])
    if o == "fld":
        return keepty(t, fld(a[0], a[1], a[2], TY.get(t)))
    if o == "cat":
        return cat(*a[0])
    if o == "nchars":
        return nchars(a[0])
    if o == "len":
        return length(a[0])
    if o == "Sum":
        return sumof(a[0], list(a[1])) if a[0].op != "Lat" else mk("Sum", *a)
    if o == "ite":
        return ite(*a)
    return keepty(t, mk(o, *a))


def keepty(t, n):
    if t in TY and n not in TY and n.op not in ("adt", "int", "tup", "coll", "str"):
        TY[n] = TY[t]
    if t in TYBITS and n not in TYBITS:
        TYBITS[n] = TYBITS[t]
    if t in SIGNED:
        SIGNED.add(n)
    return n


def under(v, k, b):
    """v when the condition k is b"""
    return mapterm(v, lambda x: (x.a[1] if b else x.a[2]) if x.op == "ite" and x.a[0] is k else None, {})


def ite(c, x, y):
    if c is ONE:
        return x
    if c is ZERO:
        return y
    if x is y or y.op == "undef":
        return x
    if x.op == "undef":
        return y
    if c.op == "not":
        return ite(c.a[0], y, x)
    if c.op == "ite":
        k = c.a[0]
        return ite(k, ite(c.a[1], under(x, k, 1), under(y, k, 1)), ite(c.a[2], under(x, k, 0), under(y, k, 0)))
    if x.op == "ite" and x.a[0] is c:
        return ite(c, x.a[1], y)
    if y.op == "ite" and y.a[0] is c:
        return ite(c, x, y.a[2])
    if x is ONE and y is ZERO:
        return c
    if x is ZERO and y is ONE:
        return not_(c)
    if c.op == "eq":
        # z % a == 0 ? v : v + (a - z % a)
        m = c.a[0] if c.a[1] is ZERO else c.a[1] if c.a[0] is ZERO else None
        if m is not None and m.op == "mod" and isnum(x) and isnum(y) and sub(y, x) is sub(m.a[1], m):
            return add(x, pad(*m.a))
        if m is not None and m.op == "pad" and isnum(x) and isnum(y) and sub(y, x) is m:
            return y
    if c.op == "eq" and x.op == "int" and c.a[0].op == "int" and c.a[1] is y and c.a[0] is x:
        return y
    if c.op == "eq" and x.op == "int" and c.a[1].op == "int" and c.a[0] is y and c.a[1] is x:
        return y
    if c.op == "lt0" and isnum(x) and isnum(y) and not (x.op == "int" and x.a[0] <= 0) and not (y.op == "int" and y.a[0] <= 0):
        # the larger of two values
        d = sub(y, x)
        if c.a[0] is d or c.a[0] is sub(d, ONE):
            return maxv(x, y)
    # discriminant tests of one value: nested test already excluded by the outer one
    if c.op == "eq" and y.op == "ite" and y.a[0].op == "eq" and y.a[1] is x:
        pass
    r = mk("ite", c, x, y)
    for z in (x, y):
        if z in TY and r not in TY:
            TY[r] = TY[z]
        if z in TYBITS and r not in TYBITS:
            TYBITS[r] = TYBITS[z]
    return r


NUMOPS = frozenset(("int", "lin", "mod", "pad", "mul", "max", "min", "pow2", "log2", "len", "nchars", "psum", "hdr", "total", "ptot", "tmax", "pmax", "div", "iter"))


def isnum(x):
    return x.op in NUMOPS


BINDERS = frozenset(("total", "ptot", "tmax", "pmax", "Sum", "psum", "rep"))


ATOMIC = frozenset(("mod", "pad", "max", "min", "pow2", "log2"))   # numbers a conditional is not pulled out of


def findite(t, memo=None):
    """condition of some conditional inside t"""
    if t.op == "ite":
        return t.a[0]
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = None
    for c in (() if t.op in BINDERS or t.op in ATOMIC else children(t)):
        r = findite(c, memo)
        if r is not None:
            break
    memo[t] = r
    return r


def mapterm(t, f, memo):
    """bottom-up rewrite; f(t) -> replacement or None"""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        na = []
        for x in t.a:
            if isinstance(x, T):
                na.append(mapterm(x, f, memo))
            elif isinstance(x, tuple):
                na.append(tuple(
                    mapterm(y, f, memo) if isinstance(y, T) else
                    (tuple(mapterm(z, f, memo) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y)
                    for y in x))
            else:
                na.append(x)
        r = rebuild(t, tuple(na))
    memo[t] = r
    return r


def rename(t, L, N, memo=None):
    """rename index-specific symbols of loop L to N (N a Lid)"""
    if memo is None:
        memo = {}

    def f(x):
        if x.op in INDEX_OPS and x.a[INDEX_OPS[x.op]] is L:
            p = INDEX_OPS[x.op]
            a = list(x.a)
            a[p] = N
            # the other arguments may mention L too (nested)
            a = [mapterm(y, f, memo) if isinstance(y, T) and i != p else y for i, y in enumerate(a)]
            a = [tuple(mapterm(z, f, memo) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y for y in a]
            return keepty(x, mk(x.op, *a))
        if x.op in ("Sum", "rep", "replog"):
            if x.a[0] is L:
                return x
            rec = LOOPS.get(x.a[0])
            if rec is not None and L in rec.outer and x.a[0] is not N:
                return instrep(x, rec, L, N, f, memo)
        return None
    return mapterm(t, f, memo)


def instrep(x, rec, L, N, f, memo):
    """a nested loop inside an iteration that is renamed: its own symbols become an instance for the new iteration"""
    L1 = x.a[0]
    N1 = mk("Lin", L1, L, N)
    if N1 not in LOOPS:
        r2 = copy.copy(rec)
        LOOPS[N1] = r2
        r2.L = N1
        r2.outer = tuple(N if q is L else q for q in rec.outer)
        g = lambda y: mapterm(rename(y, L1, N1), f, memo) if isinstance(y, T) else y
        r2.n = g(rec.n) if rec.n is not None else None
        r2.source = g(rec.source) if rec.source is not None else None
        r2.selfs = {}
        r2.alts = []
        for a in rec.alts:
            b = copy.copy(a)
            b.facts = {g(k): v for k, v in a.facts.items()}
            b.disj = frozenset(frozenset(g(l) for l in c) for c in a.disj)
            r2.alts.append(b)
    y = mk(x.op, N1, *[tuple(tuple(rename(z, L1, N1) for z in w) if isinstance(w, tuple) else rename(w, L1, N1) for w in q) for q in x.a[1:]])
    # children only: the loop itself is now N1
    return mapterm_children(y, f, memo)


def mapterm_children(t, f, memo):
    na = []
    for x in t.a:
        if isinstance(x, T):
            na.append(mapterm(x, f, memo))
        elif isinstance(x, tuple):
            na.append(tuple(
                mapterm(y, f, memo) if isinstance(y, T) else
                (tuple(mapterm(z, f, memo) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y)
                for y in x))
        else:
            na.append(x)
    return rebuild(t, tuple(na))


def replace(t, mp, memo=None):
    if memo is None:
        memo = {}
    return mapterm(t, lambda x: mp.get(x), memo)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 9:
        return "…"
    o = t.op
    a = t.a
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "lin":
        s = " + ".join((show(k, d + 1) if v == 1 else "%d*%s" % (v, show(k, d + 1))) for k, v in a[1])
        return "(%s%s)" % (s, " + %d" % a[0] if a[0] else "")
    if o == "adt":
        return "%s#%d%s" % (a[0].split("::")[-1], a[1], show(a[2], d + 1) if a[2] else "")
    if o == "fld":
        return "%s.%s%d" % (show(a[0], d + 1), "%d:" % a[1] if a[1] else "", a[2])
    if o == "sym":
        return str(a[0])
    if o == "L":
        return "L%s" % a[0]
    if o == "Lat":
        return "%s@%s" % (show(a[0]), show(a[1]))
    if o == "vref":
        return "&" + show(a[0], d + 1)
    if o == "tup":
        return show(a[0], d + 1)
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))
