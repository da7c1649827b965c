"""Hash-consed value-flow terms: the IR every analysis here works on.

A term is an interned node ``T(kind, args)``.  Numeric values are kept in a
canonical (Laurent) polynomial form over *atoms*, conditions are decision trees
(``ite``) over canonical comparison atoms, so that two source fragments that
compute the same thing usually share one term.  Nothing in here runs any of the
analysed code.
"""
import functools
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)

_intern = {}
REBUILD = {}
REAPP = {}
_count = 0


class T:
    __slots__ = ("k", "a", "uid", "_atoms", "_size")

    def __repr__(self):
        return show(self)


def mk(k, *a):
    global _count
    key = (k, a)
    t = _intern.get(key)
    if t is None:
        t = T.__new__(T)
        t.k = k
        t.a = a
        t.uid = _count
        t._atoms = None
        t._size = None
        _count += 1
        _intern[key] = t
    return t


# ---------------------------------------------------------------- constants
class _Raw:
    """Wrap a python constant so that True/1/1.0 do not collide."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash((type(self.v), self.v))

    def __eq__(self, o):
        return isinstance(o, _Raw) and type(self.v) is type(o.v) and self.v == o.v


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("c", _Raw(v))
    if isinstance(v, int):
        return num(Fraction(v))
    if isinstance(v, float):
        if v != v:
            return mk("c", _Raw("<nan>"))
        if v in (float("inf"), float("-inf")):
            return mk("sym", "inf") if v > 0 else neg(mk("sym", "inf"))
        return num(Fraction(repr(v)))
    if isinstance(v, Fraction):
        return num(v)
    if isinstance(v, complex):
        return mk("c", _Raw(v))
    raise TypeError(v)


def is_const(t):
    return t.k == "c"


def cval(t):
    """Python value of a constant term (Fraction for numbers)."""
    if t.k == "c":
        return t.a[0].v
    n = as_number(t)
    if n is None:
        raise ValueError(t)
    return n


def is_str(t):
    return t.k == "c" and isinstance(t.a[0].v, str)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def sym(name):
    return mk("sym", name)


# ---------------------------------------------------------------- numbers
def num(fr):
    fr = Fraction(fr)
    if fr == 0:
        return mk("n")
    return mk("n", ((), fr))


def poly(t):
    """Polynomial view: dict monomial -> coefficient."""
    if t.k == "n":
        return dict(t.a)
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((x.uid, e) for x, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].k != "S":
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    return mk("n", *items)


def as_number(t):
    if t.k != "n":
        if t is TRUE:
            return Fraction(1)
        if t is FALSE:
            return Fraction(0)
        return None
    if not t.a:
        return Fraction(0)
    if len(t.a) == 1 and t.a[0][0] == ():
        return t.a[0][1]
    return None


def is_numeric(t):
    return t.k == "n"


def add(a, b):
    pa, pb = poly(a), poly(b)
    if len(pa) < len(pb):
        pa, pb = pb, pa
    d = dict(pa)
    for m, c in pb.items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(a, c):
    return from_poly({m: k * c for m, k in poly(a).items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """Multiply monomials; returns (monomial, [S-atoms to expand])."""
    d = {}
    for x, e in m1:
        d[x] = d.get(x, 0) + e
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    ex = []
    out = []
    for x, e in d.items():
        if e == 0:
            continue
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if x.k == "S" and isinstance(e, int) and e > 0:
            ex.append((x, e))
        elif x.k == "S" and as_number(x.a[0]) is not None and e > 1:  # radical of a constant
            ex.append((x, int(e // 1)))
            out.append((x, e % 1))
        else:
            out.append((x, e))
    out.sort(key=lambda p: p[0].uid)
    return tuple(out), ex


MAXTERMS = 4000


class TooBig(Exception):
    pass


def _common(p):
    """Largest monomial dividing every term."""
    ms = [dict(m) for m in p]
    low = []
    for x in {x for m in ms for x in m}:
        k = min(m.get(x, 0) for m in ms)
        if k and x.k != "S":
            low.append((x, k))
    return tuple(sorted(low, key=lambda xe: xe[0].uid))


def mul(a, b):
    pa, pb = poly(a), poly(b)
    # cancellation of a polynomial against its own inverse
    for p, q, at, bt in ((pa, pb, a, b), (pb, pa, b, a)):
        if len(p) > 1 and len(q) >= 1:
            if not any(x.k == "S" and e < 0 for m in q for x, e in m):
                continue
            low = _common(p)
            if low:
                at = from_poly({_mono_mul(m, tuple((x, -k) for x, k in low))[0]: c for m, c in p.items()})
            lead, S = _normal(at)
            if any(x is S and e < 0 for m in q for x, e in m):
                # replace at by lead * S^1
                d = {}
                for m, c in q.items():
                    mm, ex = _mono_mul(m, ((S, 1),))
                    if low:
                        mm, ex2 = _mono_mul(mm, low)
                        ex = ex + ex2
                    if ex:
                        sub_ = from_poly({mm: c * lead})
                        for x, e in ex:
                            for _ in range(e):
                                sub_ = _mul_plain(poly(sub_), poly(x.a[0]))
                        for m2, c2 in poly(sub_).items():
                            d[m2] = d.get(m2, 0) + c2
                    else:
                        d[mm] = d.get(mm, 0) + c * lead
                return from_poly(d)
    return _mul_plain(pa, pb)


def _mul_plain(pa, pb):
    if len(pa) * len(pb) > MAXTERMS:
        raise TooBig()
    d = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, ex = _mono_mul(m1, m2)
            if ex:
                extra.append((m, c1 * c2, ex))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = from_poly(d)
    for m, c, ex in extra:
        t = from_poly({m: c})
        for x, e in ex:
            for _ in range(e):
                t = _mul_plain(poly(t), poly(x.a[0]))
        r = add(r, t)
    return r


def _normal(t):
    """Multi-term polynomial -> (leading coef, S-atom of the monic version)."""
    p = poly(t)
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[-1][1]
    mon = from_poly({m: c / lead for m, c in p.items()})
    return lead, mk("S", mon)


def _iroot(n, d):
    """Exact rational root n**(1/d) or None."""
    if n < 0:
        return None

    def r(x):
        y = round(x ** (1.0 / d))
        for z in (y - 1, y, y + 1):
            if z >= 0 and z ** d == x:
                return z
        return None

    a, b = r(n.numerator), r(n.denominator)
    return None if a is None or b is None else Fraction(a, b)


@functools.lru_cache(None)
def factors(n):
    """Prime factors of n; a factor without small divisors counts as prime."""
    out, k = {}, 2
    while k * k <= n and k < 100000:
        while n % k == 0:
            out[k] = out.get(k, 0) + 1
            n //= k
        k += 1 if k == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


@functools.lru_cache(None)
def radical(n, e):
    """n ** e for a positive rational n: a rational number times roots of primes."""
    n, e = Fraction(n), Fraction(e)
    c, roots = Fraction(1), []
    for part, sign in ((n.numerator, 1), (n.denominator, -1)):
        for p, k in factors(part).items():
            x = k * sign * e
            whole = x // 1
            if abs(whole) > 512:
                return mk("app", "pow", (num(n), num(e)))
            c = c * Fraction(p) ** int(whole)
            if x != whole:
                roots.append((mk("S", num(p)), x - whole))
    roots.sort(key=lambda m: m[0].uid)
    return from_poly({tuple(roots): c})


def power(a, e):
    """a ** e for a rational number e."""
    e = Fraction(e)
    if e == 0:
        return num(1)
    if e == 1:
        return a
    n = as_number(a)
    if n is not None:
        if e.denominator == 1:
            if n == 0 and e < 0:
                return mk("app", "div0", ())
            if abs(e) < 64:
                return num(n ** int(e))
        if n == 0:
            return num(0)
        r = _iroot(n, e.denominator)
        if r is not None and abs(e.numerator) < 64:
            return num(r ** e.numerator)
        return radical(Fraction(n), e) if n > 0 else mk("app", "pow", (a, num(e)))
    p = poly(a)
    ie = int(e) if e.denominator == 1 else None
    if len(p) == 1:
        (m, c), = p.items()
        if ie is not None:
            cc = num(c ** ie)
        elif c == 1:
            cc = num(1)
        else:
            if c < 0:
                return mk("app", "pow", (a, num(e)))
            cc = power(num(c), e)
        mono = []
        extra = num(1)
        for x, k in m:
            ke = Fraction(k) * e
            ke = int(ke) if ke.denominator == 1 else ke
            if x.k == "S" and as_number(x.a[0]) is not None:  # radical of a constant
                extra = mul(extra, radical(as_number(x.a[0]), ke))
            elif x.k == "S" and isinstance(ke, int) and ke > 0:
                for _ in range(ke):
                    extra = mul(extra, x.a[0])
            else:
                mono.append((x, ke))
        return mul(mul(cc, from_poly({tuple(mono): Fraction(1)})), extra)
    if ie is not None and 0 < ie <= 4:
        r = a
        for _ in range(ie - 1):
            r = mul(r, a)
        return r
    if ie is not None:
        low = _common(p)
        if low:
            mono = from_poly({low: Fraction(1)})
            inv = from_poly({tuple((x, -k) for x, k in low): Fraction(1)})
            return mul(power(mono, ie), power(mul(a, inv), ie))
    lead, S = _normal(a)
    if ie is not None:
        return mul(num(lead ** ie), from_poly({((S, ie),): Fraction(1)}))
    if lead < 0:
        return mk("app", "pow", (a, num(e)))
    return mul(power(num(lead), e), from_poly({((S, e),): Fraction(1)}))


def div(a, b):
    return mul(a, power(b, -1))


def app(name, *args):
    return mk("app", name, tuple(args))


def exp(a):
    n = as_number(a)
    if n == 0:
        return num(1)
    p = poly(a)
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[-1][1]
    if lead < 0:
        return power(app("exp", neg(a)), -1)
    return app("exp", a)


# ---------------------------------------------------------------- booleans
BOOLK = ("lt", "le", "eqn", "eq", "truth")


def is_bool(t):
    return t is TRUE or t is FALSE or t.k in BOOLK or (
        t.k == "ite" and is_bool(t.a[1]) and is_bool(t.a[2]))


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.k == "ite":
        return ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    if c.k not in BOOLK:
        return ite(truth(c), a, b)
    if a.k == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.k == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a.k == "arr" and b.k == "arr" and a.a[0] is b.a[0]:
        j = fresh("m")
        return arr(a.a[0], j, ite(c, arr_at(a, j), arr_at(b, j)))
    if c.k == "le" and _tie(c, a, b):
        c = mk("lt", *c.a)
    if c.k == "lt" and (a.k == "n" or b.k == "n"):
        c = _whole_tie(c, a, b)
    return mk("ite", c, a, b)


def _tie(c, a, b):
    """Both branches have the same value where the comparison is an equality (min/max)."""
    if not (_numlike(a) and _numlike(b)) or is_bool(a) or is_bool(b):
        return False
    d = poly(_unscaled(sub(a, b)))
    p = dict(poly(c.a[0]))
    k = p.get((), Fraction(0)) - c.a[1]
    p.pop((), None)
    if k:
        p[()] = k
    if len(d) != len(p) or not p:
        return False
    r = None
    for m, x in p.items():
        y = d.get(m)
        if y is None:
            return False
        q = Fraction(y) / Fraction(x)
        if r is None:
            r = q
        elif q != r:
            return False
    return True


def _whole_tie(c, a, b):
    """The same choice between int(x) and k where int(x) == k."""
    if not (_numlike(a) and _numlike(b)) or is_bool(a) or is_bool(b):
        return c
    p = dict(poly(sub(a, b)))
    k = p.pop((), Fraction(0))
    if len(p) != 1:
        return c
    (m, q), = p.items()
    if abs(q) != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].k != "app" or m[0][0].a[0] != "int":
        return c
    x, k = m[0][0].a[1][0], -k / q
    if k > 0 and k.denominator == 1 and less(x, num(k + 1), True) is c:
        return less(x, num(k), True)
    return c


def not_(c):
    c = truth(c)
    return ite(c, FALSE, TRUE)


def and_(a, b):
    a = truth(a)
    if a is FALSE:
        return FALSE
    return ite(a, truth(b), FALSE)


def or_(a, b):
    a = truth(a)
    if a is TRUE:
        return TRUE
    return ite(a, TRUE, truth(b))


def truth(t):
    if is_bool(t):
        return t
    if t.k == "c":
        return TRUE if t.a[0].v else FALSE
    if t.k == "n":
        n = as_number(t)
        if n is not None:
            return TRUE if n else FALSE
        return not_(eq(t, num(0)))
    if t.k == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.k in ("tup", "dct"):
        return TRUE if t.a else FALSE
    if t.k in ("fn", "cls", "mod", "bm", "ref", "ext"):
        return TRUE
    return mk("truth", t)


# physical constants: positive by their meaning, so that they never decide a sign
POSITIVE = {"Constants." + x for x in (
    "dt water_density ice_density air_density lat_heat_melting lat_heat_vaporize lat_heat_sublimation spec_heat_air "
    "spec_heat_ice spec_heat_water k_i k_w k_a sigma zero_temperature").split()}


def positive_atom(x):
    if x.k == "sym":
        return x.a[0] in POSITIVE
    if x.k == "app" and x.a[0] == "int" and len(x.a[1]) == 1:  # the time step of a coupled run
        y = x.a[1][0]
        return y.k == "app" and y.a[0] == "." and len(y.a[1]) == 2 and is_const(y.a[1][1]) and y.a[1][1].a[0].v == "DT"
    return False


def _unscaled(d):
    """A product without its positive factors: the same sign and zeros."""
    p = poly(d)
    pi = sym("pi")
    k = min((e for m in p for x, e in m if x is pi), default=0)
    if k < 0:
        d = mul(d, from_poly({((pi, -k),): Fraction(1)}))
        p = poly(d)
    if len(p) != 1:  # sums stay comparable with each other
        return d
    low = [(x, -k) for x, k in _common(p) if positive_atom(x)]
    return mul(d, from_poly({tuple(low): Fraction(1)})) if low else d


def _base(d):
    """numeric difference -> (base, const, sign): d = sign*k*(base - const)."""
    p = poly(d)
    c0 = p.pop((), Fraction(0))
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[-1][1]
    base = from_poly({m: c / lead for m, c in p.items()})
    return base, -c0 / lead, 1 if lead > 0 else -1


def is_int(t):
    if t.k == "bv":
        return True
    if t.k == "sym":
        return t.a[0] in ("N", "p:idx", "p:pos") or t.a[0].startswith("i:")
    return t.k == "app" and t.a[0] == "len"


def whole(base):
    """x if base is the number x without its decimals."""
    p = poly(base)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].k == "app" and m[0][0].a[0] == "int":
        return m[0][0].a[1][0]
    return None


def less(a, b, strict):
    """a < b (strict) or a <= b."""
    if a.k == "ite" and not _numlike(a):
        return ite(a.a[0], less(a.a[1], b, strict), less(a.a[2], b, strict))
    d = _unscaled(sub(a, b))
    n = as_number(d)
    if n is not None:
        return const(n < 0 if strict else n <= 0)
    base, c, s = _base(d)
    if all(Fraction(q).denominator == 1 and all(is_int(x) and isinstance(e, int) and e > 0 for x, e in m)
           for m, q in poly(base).items()):
        # integers: only strict comparisons against an integer
        c = Fraction(c)
        if s > 0:
            return mk("lt", base, -((-c.numerator) // c.denominator) if strict else c.numerator // c.denominator + 1)
        k = c.numerator // c.denominator + 1 if strict else -((-c.numerator) // c.denominator)
        return ite(mk("lt", base, k), FALSE, TRUE)
    x = whole(base)
    if x is not None:
        c = Fraction(c)
        up = strict == (s > 0)  # int(x) < c
        k = -((-c.numerator) // c.denominator) if up else c.numerator // c.denominator + 1
        r = less(x, num(k), True) if k > 0 else less(x, num(k - 1), False)  # int(x) < k
        return r if s > 0 else ite(r, FALSE, TRUE)
    if s > 0:  # base - c < 0
        return mk("lt" if strict else "le", base, c)
    # -(base - c) < 0  <=> base > c <=> not base <= c
    return ite(mk("le" if strict else "lt", base, c), FALSE, TRUE)


_fresh = [0]


def fresh(tag="v"):
    _fresh[0] += 1
    return mk("bv", f"{tag}#{_fresh[0]}")


def _close(var, body):
    """Bind var in body with a canonical bound-variable index."""
    d = -1
    for x in subterms(body):
        if x.k == "bv" and isinstance(x.a[0], int):
            d = max(d, x.a[0])
    d += 1
    return d, subst(body, {var: mk("bv", d)})


def arr(n, var, body):
    """Array of length n with element body at index var."""
    d, b = _close(var, body)
    return mk("arr", n, d, b)


def arr_at(a, idx):
    return subst(a.a[2], {mk("bv", a.a[1]): idx})


def summ(n, var, body):
    if not contains(body, lambda x: x is var):
        return mul(n, body)
    d, b = _close(var, body)
    return mk("sum", n, d, b)


def sum_at(a, idx):
    return subst(a.a[2], {mk("bv", a.a[1]): idx})


def _rb_sum(n, d, b):
    k = as_number(n)
    if k is not None and k <= 0:
        return num(0)
    if not contains(b, lambda x: x.k == "bv" and x.a[0] == d):
        return mul(n, b)
    return mk("sum", n, d, b)


# ---- memories: per-attribute contents of a list of layers
def cdiff(i, j):
    """i - j if it is a known number."""
    return as_number(sub(i, j))


def read(mem, i):
    while True:
        k = mem.k
        if k == "ite":
            return ite(mem.a[0], read(mem.a[1], i), read(mem.a[2], i))
        if i.k == "ite":
            return ite(i.a[0], read(mem, i.a[1]), read(mem, i.a[2]))
        if k == "store":
            d = cdiff(i, mem.a[1])
            if d == 0:
                return mem.a[2]
            if d is not None:
                mem = mem.a[0]
                continue
        elif k == "ins":
            d = cdiff(i, mem.a[1])
            if d == 0:
                return mem.a[2]
            if d is not None and d < 0:
                mem = mem.a[0]
                continue
            if d is not None and d > 0:
                mem, i = mem.a[0], sub(i, num(1))
                continue
        elif k == "del":
            d = cdiff(i, mem.a[1])
            if d is not None:
                if d >= 0:
                    i = add(i, num(1))
                mem = mem.a[0]
                continue
        elif k == "arr":
            return arr_at(mem, i)
        return mk("app", "read", (mem, i))


def store(mem, i, v):
    if mem.k == "store":
        d = cdiff(i, mem.a[1])
        if d == 0:
            return store(mem.a[0], i, v)
        if d is not None and d < 0:
            return store(store(mem.a[0], i, v), mem.a[1], mem.a[2])
    if i.k == "ite":
        return ite(i.a[0], store(mem, i.a[1], v), store(mem, i.a[2], v))
    if mem.k == "ins" and cdiff(i, mem.a[1]) == 0:
        return mk("ins", mem.a[0], mem.a[1], v)
    if mem.k != "ite" and v is read(mem, i):
        return mem
    return mk("store", mem, i, v)


REAPP["read"] = read
REBUILD["store"] = store
REBUILD["sum"] = _rb_sum


def _numlike(t):
    return t.k == "n" or t.k in ("sym", "app", "bv", "mu", "out", "sum") or (
        t.k == "ite" and _numlike(t.a[1]) and _numlike(t.a[2]))


SOLID = ("tup", "dct", "fn", "cls", "mod", "bm", "ref", "ext", "arr", "node", "slice")


def eq(a, b):
    if a is b:
        return TRUE
    if a.k == "ite":
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.k == "ite":
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    na, nb = a.k == "n", b.k == "n"
    if na or nb:
        o = b if na else a
        if is_const(o) and not isinstance(o.a[0].v, bool):
            return FALSE
        if o.k in SOLID:
            return FALSE
        d = _unscaled(sub(a, b))
        n = as_number(d)
        if n is not None:
            return const(n == 0)
        base, c, _ = _base(d)
        x = whole(base)
        if x is not None:
            if Fraction(c).denominator != 1:
                return FALSE
            return ite(less(base, num(c), True), FALSE, less(base, num(c + 1), True))
        return mk("eqn", base, c)
    if is_const(a) and is_const(b):
        return const(a.a[0].v == b.a[0].v)
    if a.k == "tup" and b.k == "tup":
        if len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = and_(r, eq(x, y))
        return r
    if a.k in SOLID and b.k in SOLID and (is_const(a) or is_const(b) or a.k != b.k):
        return FALSE
    if (is_const(a) and b.k in SOLID) or (is_const(b) and a.k in SOLID):
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    # put the constant second
    if is_const(a):
        a, b = b, a
    return mk("eq", a, b)


def is_none(t):
    if t is NONE:
        return TRUE
    if t.k == "ite":
        return ite(t.a[0], is_none(t.a[1]), is_none(t.a[2]))
    if t.k in ("sym", "app", "mu", "out", "bv", "unk"):
        if t.k == "app" and t.a[0] in ARITH:
            return FALSE
        if t.k == "sym" and not t.a[0].startswith("p:") and not t.a[0].startswith("o:"):
            return FALSE
        return mk("eq", t, NONE)
    return FALSE


ARITH = {"exp", "log", "sin", "cos", "tanh", "arctan", "pow", "idx", "Sum", "read", "int"}


def tmax(args):
    r = args[0]
    for x in args[1:]:
        # canonical argument order
        p, q = (r, x) if r.uid <= x.uid else (x, r)
        r = ite(less(p, q, True), q, p)
    return r


def tmin(args):
    r = args[0]
    for x in args[1:]:
        p, q = (r, x) if r.uid <= x.uid else (x, r)
        r = ite(less(q, p, True), q, p)
    return r


# ---------------------------------------------------------------- traversal
def children(t):
    """Sub-terms of t (no order guarantee on numerics)."""
    k, a = t.k, t.a
    if k == "n":
        for m, _ in a:
            for x, _e in m:
                yield x
    elif k in ("c", "sym", "bv", "mu", "fn", "cls", "mod", "ext", "ref", "unk"):
        return
    elif k == "app":
        for x in a[1]:
            yield x
    elif k in ("lt", "le", "eqn"):
        yield a[0]
    elif k == "dct":
        for kk, v in a:
            yield kk
            yield v
    else:
        for x in a:
            if isinstance(x, T):
                yield x


def subterms(t, into_loops=True):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.k == "out" and not into_loops:
            continue
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, memo=None):
    """Replace terms (keys of m) in t, rebuilding canonically."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    k, a = t.k, t.a
    if k in ("c", "sym", "bv", "mu", "fn", "cls", "mod", "ext", "ref", "unk"):
        r = t
    else:
        r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


def cancelled(t):
    """A sum of fractions over the same polynomial whose numerators add up to a multiple of it."""
    if t.k != "n":
        return t
    p = poly(t)
    dens = {x for m in p for x, e in m if x.k == "S" and e < 0 and Fraction(e).denominator == 1}
    for S in sorted(dens, key=lambda x: x.uid):
        sp = poly(S.a[0])
        num_, rest = {}, {}
        for m, c in p.items():
            e = sum(k for x, k in m if x is S)
            if e < 0 and Fraction(e).denominator == 1:
                num_[_mono_mul(m, ((S, 1),))[0]] = Fraction(c)
            else:
                rest[m] = c
        if len(num_) < len(sp) or len(num_) > 400:
            continue
        order = sorted({x for m in sp for x, _e in m}, key=lambda x: x.uid)
        key = lambda m: tuple(dict(m).get(x, 0) for x in order)
        lead = max(sp, key=key)
        quot = {}
        for _ in range(len(num_)):
            if not num_:
                break
            m = max(num_, key=key)
            c = num_[m] / Fraction(sp[lead])
            q, _ex = _mono_mul(m, tuple((x, -e) for x, e in lead))
            if any(x.k == "S" and e > 0 for x, e in q):
                break
            quot[q] = quot.get(q, 0) + c
            for m2, c2 in sp.items():
                mm, ex = _mono_mul(q, m2)
                if ex:
                    break
                v = num_.get(mm, 0) - c * c2
                if v:
                    num_[mm] = v
                else:
                    num_.pop(mm, None)
            else:
                continue
            break
        if not num_:
            return cancelled(add(from_poly(rest), from_poly(quot)))
    return t


def rebuild(t, f):
    k, a = t.k, t.a
    if k in ("c", "sym", "bv", "mu", "fn", "cls", "mod", "ext", "ref", "unk"):
        return t
    if k == "n":
        changed = False
        mp = {}
        for mm, _ in a:
            for x, _e in mm:
                if x not in mp:
                    y = f(x)
                    mp[x] = y
                    if y is not x:
                        changed = True
        if not changed:
            return t
        r = num(0)
        keep = {}
        for mm, c in a:
            if all(mp[x] is x for x, _ in mm):
                keep[mm] = c
                continue
            v = num(c)
            for x, e in mm:
                y = mp[x]
                v = mul(v, y if e == 1 else power(y, e))
            r = add(r, v)
        return cancelled(add(from_poly(keep), r))
    if k == "S":
        x = f(a[0])
        if x is a[0]:
            return t
        return x
    if k == "ite":
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if k in ("lt", "le"):
        b = f(a[0])
        if b is a[0]:
            return t
        return less(b, num(a[1]), k == "lt")
    if k == "eqn":
        b = f(a[0])
        if b is a[0]:
            return t
        return eq(b, num(a[1]))
    if k == "eq":
        x, y = f(a[0]), f(a[1])
        if x is a[0] and y is a[1]:
            return t
        if y is NONE:
            return is_none(x)
        return eq(x, y)
    if k == "truth":
        x = f(a[0])
        return t if x is a[0] else truth(x)
    if k == "app":
        args = tuple(f(x) for x in a[1])
        if all(x is y for x, y in zip(args, a[1])):
            return t
        return reapp(a[0], args)
    if k == "dct":
        return mk("dct", *[(f(kk), f(v)) for kk, v in a])
    args = tuple(f(x) if isinstance(x, T) else x for x in a)
    if all(x is y for x, y in zip(args, a)):
        return t
    if k in REBUILD:
        return REBUILD[k](*args)
    return mk(k, *args)




def reapp(name, args):
    h = REAPP.get(name)
    if h is not None:
        return h(*args)
    return mk("app", name, tuple(args))


REAPP["exp"] = exp


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if depth <= 0:
        return "…"
    k, a = t.k, t.a
    s = lambda x: show(x, depth - 1)
    if k == "c":
        return repr(a[0].v)
    if k in ("sym", "ext", "mod"):
        return str(a[0])
    if k == "n":
        if not a:
            return "0"
        out = []
        for m, c in a[:12]:
            fs = []
            for x, e in m:
                b = s(x)
                if x.k in ("S", "n", "ite"):
                    b = "(" + b + ")"
                fs.append(b if e == 1 else f"{b}^{e}")
            cf = _fr(c)
            if not fs:
                out.append(cf)
            elif c == 1:
                out.append("*".join(fs))
            elif c == -1:
                out.append("-" + "*".join(fs))
            else:
                out.append(cf + "*" + "*".join(fs))
        r = " + ".join(out).replace("+ -", "- ")
        return r + (" + …" if len(a) > 12 else "")
    if k == "S":
        return s(a[0])
    if k == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if k == "lt":
        return f"{s(a[0])}<{_fr(a[1])}"
    if k == "le":
        return f"{s(a[0])}<={_fr(a[1])}"
    if k == "eqn":
        return f"{s(a[0])}=={_fr(a[1])}"
    if k == "eq":
        return f"{s(a[0])}=={s(a[1])}"
    if k == "truth":
        return f"bool({s(a[0])})"
    if k == "app":
        return f"{a[0]}({', '.join(s(x) for x in a[1])})"
    if k == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if k == "bv":
        return f"i{a[0]}"
    if k == "mu":
        return f"{a[1]}@"
    if k == "out":
        return f"loop.{a[1]}"
    if k == "arr":
        return f"[{s(a[2])} for i{a[1]}<{s(a[0])}]"
    if k == "sum":
        return f"sum({s(a[2])} for i{a[1]}<{s(a[0])})"
    if k == "fn":
        return getattr(a[0], "qual", str(a[0]))
    if k == "cls":
        return getattr(a[0], "name", str(a[0]))
    if k == "unk":
        return f"?{a[0]}"
    if k == "dct":
        return "{" + ", ".join(f"{s(x)}: {s(y)}" for x, y in a) + "}"
    return f"{k}(" + ", ".join(s(x) if isinstance(x, T) else str(x) for x in a) + ")"


def _fr(c):
    c = Fraction(c)
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return f"{f:.8g}"
