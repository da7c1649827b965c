"""Deciding whether two value-flow terms denote the same value.

``compare`` answers True (same), False (definitely different under the returned
branch conditions) or None (the normal forms do not line up; not decided).
It works by normalisation and case distinction on shared branch conditions; no
solver and no execution is involved.
"""
from fractions import Fraction
from itertools import permutations
from math import prod

from .terms import (T, app, positive_atom, TRUE, FALSE, NONE, add, not_, as_number, contains, fresh, from_poly, arr_at, less, is_int, read,
                    sum_at, is_const, ite, mk, mul, num, poly, power, rebuild, show, sub,
                    subst, subterms, children, TooBig, BOOLK)


import os
DEBUG = os.environ.get('SA_DEBUG')


class Facts:
    __slots__ = ("t", "b", "memo", "path", "sub")

    def __init__(self, t=None, b=None, path=(), sub=None):
        self.t = t or {}
        self.sub = sub or {}
        self.b = b or {}
        self.memo = {}
        self.path = path

    def decide(self, c):
        v = self.t.get(c)
        if v is not None:
            return v
        if c.k in ("lt", "le", "eqn"):
            lo, ls, hi, hs = self.bounds(c.a[0])
            k = c.a[1]
            if c.k == "lt":
                if hi is not None and (hi < k or (hi == k and hs)):
                    return True
                if lo is not None and lo >= k:
                    return False
            elif c.k == "le":
                if hi is not None and hi <= k:
                    return True
                if lo is not None and (lo > k or (lo == k and ls)):
                    return False
            else:
                if lo is not None and (lo > k or (lo == k and ls)):
                    return False
                if hi is not None and (hi < k or (hi == k and hs)):
                    return False
                if lo is not None and lo == hi == k:
                    return True
        elif c.k == "eq":
            for c2, v2 in self.t.items():
                if v2 and c2.k == "eq" and c2.a[0] is c.a[0]:
                    if solid(c2.a[1]) and solid(c.a[1]) and c2.a[1] is not c.a[1]:
                        return False
        return None

    def bounds(self, base):
        b = self.b.get(base)
        return b if b is not None else (None, False, None, False)

    def add(self, c, v):
        """Facts extended with c == v, or None if contradictory."""
        d = self.decide(c)
        if d is not None:
            return self if d == v else None
        t = dict(self.t)
        t[c] = v
        b = self.b
        if c.k in ("lt", "le", "eqn"):
            lo, ls, hi, hs = self.bounds(c.a[0])
            k = c.a[1]
            if c.k == "eqn":
                if v:
                    lo, ls, hi, hs = k, False, k, False
                elif lo == k and not ls:
                    ls = True
                elif hi == k and not hs:
                    hs = True
            elif v and c.k == "lt" and integral(c.a[0]):
                if hi is None or k - 1 < hi:
                    hi, hs = k - 1, False
            elif v:  # base < k / <= k
                if hi is None or k < hi or (k == hi and c.k == "lt"):
                    hi, hs = k, c.k == "lt"
            else:  # base >= k / > k
                if lo is None or k > lo or (k == lo and c.k == "le"):
                    lo, ls = k, c.k == "le"
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
                return None
            b = dict(b)
            b[c.a[0]] = (lo, ls, hi, hs)
        sb = self.sub
        if c.k in ("lt", "le", "eqn"):
            lo, ls, hi, hs = b[c.a[0]]
            if lo is not None and lo == hi:
                s = solve(c.a[0], lo)
                if s is not None:
                    sb = dict(sb)
                    sb[s[0]] = s[1]
        if v and c.k == "eq" and solid(c.a[1]) and c.a[0].k in ("sym", "app", "mu", "out"):
            sb = dict(sb)
            sb[c.a[0]] = c.a[1]
        f = Facts(t, b, self.path + ((c, v),), sb)
        if sb is not self.sub:
            for c2, v2 in list(t.items()):
                if c2 is c:
                    continue
                c3 = f.restate(c2)
                if c3 is TRUE or c3 is FALSE:
                    if (c3 is TRUE) != v2:
                        return None
                elif c3 is not c2 and c3.k in BOOLK:
                    f = f.add(c3, v2)
                    if f is None:
                        return None
        return f

    def restated(self):
        """The path with branches inside its conditions resolved; None if contradictory."""
        res = []
        for c, v in self.path:
            res.append((c, v))
            if contains(c, lambda x: x.k == "ite"):
                c2 = rebuild(c, self.simplify)
                if c2 is TRUE or c2 is FALSE:
                    if (c2 is TRUE) != v:
                        return None
                elif c2 is not c:
                    while c2.k == "ite" and c2.a[1] is FALSE and c2.a[2] is TRUE:
                        c2, v = c2.a[0], not v
                    res.append((c2, v))
        return tuple(res)

    def restate(self, c):
        """A recorded condition with the substitutions applied."""
        return Facts(sub=self.sub, t={TRUE: True}).simplify(c)

    def simplify(self, t):
        if not self.t:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t in self.sub:
            r = self.sub[t]
            self.memo[t] = r
            return r
        if t.k in BOOLK:
            d = self.decide(t)
            if d is not None:
                r = TRUE if d else FALSE
                self.memo[t] = r
                return r
        r = rebuild(t, self.simplify)
        if r is not t and r.k in BOOLK:
            d = self.decide(r)
            if d is not None:
                r = TRUE if d else FALSE
        if r.k == "app" and r.a[0] == "sl" and r.a[1][1] is NONE and r.a[1][3] is NONE and r.a[1][2] is not NONE:
            x, n = r.a[1][0], r.a[1][2]
            if as_number(n) is None and self.simplify(less(n, self.simplify(app("len", x)), True)) is FALSE:
                r = x
        self.memo[t] = r
        return r


MEMK = ("sym", "store", "ins", "del", "mu")


def within(facts, v, n):
    """Facts extended with 0 <= v < n for an index v."""
    if n.k == "app" and n.a[0] == "reals":
        return facts
    for c, want in ((less(v, num(0), True), False), (less(v, n, True), True)):
        if c is TRUE or c is FALSE:
            if (c is TRUE) != want:
                return None
            continue
        while c.k == "ite" and c.a[1] is FALSE and c.a[2] is TRUE:
            c, want = c.a[0], not want
        if c.k in ("lt", "le"):
            facts = facts.add(c, want)
            if facts is None:
                return None
    return facts


def solve(base, k):
    """x, value such that base == k iff x == value, for an atom x of base."""
    p = dict(poly(base))
    if len(p) == 1 and k == 0:
        (mono, _c), = p.items()
        for x, e in mono:
            if e > 0 and x.k in ("sym", "app", "mu", "bv", "out") and not (x.k == "sym" and x.a[0].startswith("Constants.")):
                return x, num(0)
        return None
    best = None
    for mono, c in p.items():
        if len(mono) != 1 or mono[0][1] != 1 or mono[0][0].k not in ("sym", "app", "mu", "bv", "out"):
            continue
        x = mono[0][0]
        if x.k == "sym" and x.a[0].startswith("Constants.") and len(p) > 1:
            continue
        if any(m is not mono and any(y is x or contains(y, lambda z: z is x) for y, _e in m) for m in p):
            continue
        if best is None or x.uid > best[0].uid:
            best = (x, mono, c)
    if best is None:
        return None
    x, mono, c = best
    del p[mono]
    rest = sub(num(k), from_poly(p))
    return x, mul(rest, num(1 / Fraction(c)))


def integral(base):
    return all(Fraction(q).denominator == 1 and all(is_int(x) and isinstance(e, int) and e > 0 for x, e in m)
               for m, q in poly(base).items())


def solid(t):
    return t.k in ("c", "n") and (t.k == "c" or as_number(t) is not None)


def pick(t, seen=None):
    """A branch condition occurring in t outside loop/array bodies, outermost first."""
    seen = set()
    st = [t]
    i = 0
    while i < len(st):
        x = st[i]
        i += 1
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            c = x.a[0]
            inner = pick_in_cond(c)
            return inner if inner is not None else c
        if x.k in BOOLK and x is not t:
            inner = pick_in_cond(x)
            return inner if inner is not None else x
        if x.k in ("loop", "arr", "sum", "mudef"):
            continue
        st.extend(children(x))
    return None


def pick_in_cond(c):
    """A condition nested inside the atoms of condition c."""
    for x in children(c):
        p = pick_any(x)
        if p is not None:
            return p
    return None


def pick_any(t):
    if t.k == "ite":
        inner = pick_in_cond(t.a[0])
        return inner if inner is not None else t.a[0]
    return pick(t)


class Budget(Exception):
    pass


class Comparer:
    def __init__(self, budget=60000, known=()):
        self.budget = budget
        self.known = tuple(known) or ("call:", "fn:")
        self.vocabulary = set()  # operations the reference definition uses anywhere
        self.fail = None  # (facts path, code term, spec term)
        self.cache = {}
        self.undecided = []
        self.same, self.apart = {}, set()

    def compare(self, a, b, facts=None):
        facts = facts or Facts()
        try:
            b = self.align(a, b, facts)
            self.top = (a, b)
            return self._cmp(a, b, facts)
        except TooBig:
            self.undecided.append("polynomial too large")
            return None
        except Budget:
            self.undecided.append("budget exhausted")
            return None
        except RecursionError:
            self.undecided.append("recursion")
            return None

    def shared_outs(self, a, b):
        """Every loop result in a and b is one that code and reference have in common."""
        common = set(self.same.values())
        xs, ys = set(free_outs(a)), set(free_outs(b))
        common |= xs & ys
        return xs <= common and ys <= common

    def align(self, a, b, facts):
        """Replace loop results of b by equal loop results of a, innermost first."""
        b = subst(b, self.same)
        for y0 in free_outs(b):
            y = subst(y0, self.same)
            if y in self.same or y.k != "out":
                continue
            xs = free_outs(a)
            if y in xs:
                continue
            n2, tried = y.a[1], 0
            for x in xs:
                if (x, y) in self.apart or x.a[0].a[0] != y.a[0].a[0] or len(x.a[0].a) != len(y.a[0].a):
                    continue
                if (x.a[1].startswith("m:") or n2.startswith("m:")) and x.a[1] != n2:
                    continue
                old, self.undecided = self.undecided, []
                r = self._quiet(x, y, facts)
                self.undecided = old
                if r is True:
                    self.same = {k: subst(v, {y: x}) for k, v in self.same.items()}
                    self.same[y] = x
                    self.same[y0] = x
                    break
                self.apart.add((x, y))
        return subst(b, self.same)

    def _cmp(self, a, b, facts):
        if a is b:
            return True
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        a = facts.simplify(a)
        b = facts.simplify(b)
        if a is b:
            return True
        key = (a, b, frozenset(facts.t.items()))
        hit = self.cache.get(key)
        if hit is not None and (hit[0] is not False or self.fail is not None):
            return hit[0]
        c = None
        for t in (a, b):
            if t.k in BOOLK:
                inner = pick_in_cond(t)
                c = inner if inner is not None else t
            else:
                c = pick(t)
            if c is not None:
                break
        if c is None:
            r = self._leaf(a, b, facts)
        else:
            soft = False
            if heavy(c):
                a2, b2, soft = self._unify(c, a, b, facts)
                if a2 is not a or b2 is not b:
                    return self._cmp(a2, b2, facts)
            r = True
            for v in (True, False):
                f2 = facts.add(c, v)
                if f2 is None:
                    continue
                s = self._quiet(a, b, f2) if soft else self._cmp(a, b, f2)
                if s is False:
                    if soft:
                        self.undecided.append("branch condition of undecided equality")
                        r = None
                        continue
                    return False
                if s is None:
                    r = None
        self.cache[key] = (r,)
        return r

    def _unify(self, c, a, b, facts):
        """Identify condition c with equal conditions of the other side that are written differently."""
        soft = False
        ca, cb = conditions(a), conditions(b)
        sa_, sb_ = set(ca), set(cb)
        for mine, theirs, left in ((ca, sb_, True), (cb, sa_, False)):
            for c2 in mine:
                if c2 is c or c2.k != c.k or c2 in theirs or not heavy(c2):
                    continue
                if c in (sb_ if not left else sa_) and c not in theirs:
                    continue  # both belong to one side only
                if c.k in ("lt", "le", "eqn"):
                    if c.a[1] != c2.a[1]:
                        continue
                    r = self._quiet(c.a[0], c2.a[0], facts)
                else:
                    r = self._all_quiet(zip(c.a, c2.a), facts)
                if r is True:
                    return (subst(a, {c2: c}), b, False) if left else (a, subst(b, {c2: c}), False)
                if r is None:
                    soft = True
        return a, b, soft

    def _all_quiet(self, pairs, facts):
        r = True
        for x, y in pairs:
            s = self._quiet(x, y, facts)
            if s is not True:
                return s
        return r

    def _no(self, a, b, facts):
        why = self.excuse(a, b, facts)
        if why == "infeasible":
            return True
        if why and not self.altered(a, b, facts):
            self.undecided.append(why)
            return None
        if self.fail is None:
            self.fail = (facts.path, a, b)
        return False

    stale = False
    top = None

    def altered(self, a, b, facts):
        """One side is the other one after an operation that changes values."""
        n = len(self.undecided)
        try:
            for x, y in ((a, b), (b, a)):
                if x.k == "app" and x.a[0] in CHANGING and x.a[1] and self._quiet(bare(x.a[1][0]), bare(y), facts) is True:
                    path = facts.restated()
                    return path is not None and not infeasible(path)
        finally:
            del self.undecided[n:]
        return False

    def excuse(self, a, b, facts):
        """Reason why a difference between a and b is not a definite one."""
        if has_unk(a) or has_unk(b):
            return "unknown construct"
        if a.k == "fn" or b.k == "fn":
            return "function values"
        va, vb = vocabulary(a), vocabulary(b)
        odd = {x for x in va ^ vb if x not in KNOWN and x not in self.vocabulary and not x.startswith(self.known)}
        if odd:
            return "uninterpreted operation on one side only: " + ", ".join(sorted(odd)[:4])
        path = facts.restated()
        if path is None or infeasible(path):
            return "infeasible"
        why = self.foreign_condition(facts.path)
        if why:
            return why
        if forced_equal(a, b, path):
            return "infeasible"
        if not any(contains(t, lambda x: x.k == "ite" or x.k in BOOLK) for t in (a, b)) and same_values(a, b):
            return "values agree on sampled points"
        return None

    def foreign_condition(self, path):
        """A condition of the code with an unknown operation may be the reference's condition that the code lacks."""
        if self.top is None:
            return None
        new = {}
        for c, _v in path:
            odd = {x for x in vocabulary(c) if x not in KNOWN and x not in self.vocabulary and not x.startswith(self.known)}
            if odd:
                new[c] = odd
        if not new:
            return None
        a, b = ({t for t in subterms(x) if t.k in BOOLK} for x in self.top)
        if any(c in b and c not in a for c, _v in path):
            return "uninterpreted condition: " + ", ".join(sorted(set().union(*new.values()))[:4])
        return None

    def _quiet(self, a, b, facts):
        """Compare without recording a failure."""
        old = self.fail
        self.fail = self.fail or ((), a, b)
        r = self._cmp(a, b, facts)
        self.fail = old
        return r

    def _leaf(self, a, b, facts):
        if unset(a) != unset(b) and not (has_unk(a) and has_unk(b)):
            # a name that no assignment on this path has set
            path = facts.restated()
            if path is None or infeasible(path):
                return True
            if self.fail is None:
                self.fail = (facts.path, a, b)
            return False
        if has_unk(a) or has_unk(b):
            # a difference that does not come from the unknown part is not chased
            self.undecided.append("unknown construct: " + ", ".join(
                sorted({x.a[0] for t in (a, b) for x in subterms(t) if x.k == "unk"})[:3]))
            return None
        ka, kb = a.k, b.k
        if "out" in (ka, kb):
            a2, b2 = settled(a, facts), settled(b, facts)
            if (a2 is not a or b2 is not b) and (ka != kb or a2 is not a and b2 is not b):
                return self._cmp(a2, b2, facts)
        if ka == "n" or kb == "n":
            return self._num(a, b, facts)
        if ka != kb:
            if ka == "arr" and kb in MEMK or kb == "arr" and ka in MEMK:
                x, m = (a, b) if ka == "arr" else (b, a)
                v = fresh("c")
                f2 = within(facts, v, x.a[0])
                if f2 is None:
                    return True
                p, q = arr_at(x, v), read(m, v)
                return self._cmp(p, q, f2) if x is a else self._cmp(q, p, f2)
            path = facts.restated()
            if path is None or infeasible(path):
                return True
            if self._disjoint(a, b, facts):
                if self.fail is None:
                    self.fail = (facts.path, a, b)
                return False
            if ("out" in (ka, kb) and not self.shared_outs(a, b)
                    or "arr" in (ka, kb) and ("app" in (ka, kb) or "mu" in (ka, kb))):
                self.undecided.append(f"shape {ka} vs {kb}")
                return None
            if {ka, kb} & {"store", "ins", "del"} and contains_loop(a, b):
                self.undecided.append("loop shape")
                return None
            return self._no(a, b, facts)
        if ka == "app":
            if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
                return self._no(a, b, facts)
            return self._all(zip(a.a[1], b.a[1]), facts)
        if ka == "tup":
            if len(a.a) != len(b.a):
                return self._no(a, b, facts)
            return self._all(zip(a.a, b.a), facts)
        if ka == "dct":
            da, db = dict(a.a), dict(b.a)
            if set(da) != set(db):
                return self._no(a, b, facts)
            return self._all([(da[k], db[k]) for k in da], facts)
        if ka == "arr" or ka == "sum":
            v = fresh("c")
            at = arr_at
            r1 = self._cmp(a.a[0], b.a[0], facts)
            if r1 is not True:
                return r1
            f2 = within(facts, v, a.a[0])
            if f2 is None:
                return True
            return self._cmp(at(a, v), at(b, v), f2)
        if ka == "out":
            return self._loops(a, b, facts)
        if ka in ("store", "ins", "del", "S", "slice", "node", "bm"):
            if len(a.a) != len(b.a):
                return self._no(a, b, facts)
            return self._all([(x, y) for x, y in zip(a.a, b.a) if isinstance(x, T)], facts)
        return self._no(a, b, facts)

    def _all_under(self, c, a, b, facts):
        r = True
        for v in (True, False):
            f2 = facts.add(c, v)
            s = True if f2 is None else self._cmp(a, b, f2)
            if s is False:
                return False
            r = None if s is None else r
        return r

    def _disjoint(self, a, b, facts):
        """A constant (or constant-filled array) against a loop result that never takes that value."""
        for x, y in ((a, b), (b, a)):
            if y.k != "out" or has_unk(x) or has_unk(y):
                continue
            d = mudefs(y.a[0])[y.a[1]]
            mu, init, nxt = d.a[1], d.a[2], d.a[3]
            if x.k == "c" and not contains_loop(x):
                vals = [v for v in leaves(init) + leaves(nxt) if v is not mu]
                if vals and all(v.k in ("arr", "app", "n", "S") and not (v.k == "app" and v.a[0] in ("result", "uninit"))
                                or v.k == "c" and v is not x for v in vals) and any(v.k != "c" for v in vals):
                    return True
            if x.k == "arr" and not contains(x.a[2] if len(x.a) > 2 else x, lambda t: t.k in ("bv", "mu", "out", "app")):
                ws = [v for v in leaves(nxt) if v is not mu]
                if ws and all(v.k == "app" and v.a[0] == "upd" and v.a[1][0] is mu for v in ws) and any(
                        contains(v.a[1][2], lambda t: t.k in ("app", "mu", "sym")) for v in ws):
                    return True
        return False

    def _all(self, pairs, facts):
        r = True
        for x, y in pairs:
            s = self._cmp(x, y, facts)
            if s is False:
                return False
            if s is None:
                r = None
        return r

    def _num(self, a, b, facts):
        for x in (a, b):
            if x.k in ("c", "tup", "fn", "cls", "mod", "ref", "dct"):
                return self._no(a, b, facts)
            if x.k == "arr":
                self.undecided.append("array vs scalar")
                return None
        d = sub(a, b)
        n = as_number(d)
        if n is not None:
            return True if n == 0 else self._no(a, b, facts)
        A = {x for m, _ in poly(a).items() for x, _e in m}
        B = {x for m, _ in poly(b).items() for x, _e in m}
        onlyA = sorted(A - B, key=lambda t: t.uid)
        onlyB = sorted(B - A, key=lambda t: t.uid)
        m = {}
        left = list(onlyA)
        open_ = []
        for y in onlyB:
            for x in left:
                if x.k != y.k or x.k in ("sym", "mu", "bv"):
                    continue
                if x.k == "app" and (x.a[0] != y.a[0] or len(x.a[1]) != len(y.a[1])):
                    continue
                r = self._quiet(x, y, facts)
                if r is True:
                    m[y] = x
                    left.remove(x)
                    break
                if r is None:
                    open_.append((x, y))
        maybe = any(x in left and y not in m for x, y in open_)
        for k in ("out", "arr"):  # one side only: may be another form of the other side
            i, j = sum(x.k == k for x in left), sum(y.k == k and y not in m for y in onlyB)
            if i != j and len(left) and len(onlyB) > len(m):
                maybe = True
        if m:
            d = sub(a, subst(b, m))
        if not clearly_nonzero(d):
            d = clear_denominators(d)
            n = as_number(d)
            if n == 0:
                return True
        if maybe:
            path = facts.restated()
            if path is None or infeasible(path):
                return True
            self.undecided.append("atoms of undecided equality")
            return None
        # a loop result on one side only: other algorithm shape
        oa = any(x.k == "out" for x in left)
        ob = any(x.k == "out" for x in onlyB if x not in m)
        if oa != ob:
            self.undecided.append("loop result vs closed form")
            return None
        return self._no(a, b, facts)

    # -------------------------------------------------------------- loops
    def _loops(self, a, b, facts):
        L1, n1 = a.a
        L2, n2 = b.a
        if L1.a[0] != L2.a[0]:
            self.undecided.append("different loop kinds")
            return None
        d1, d2 = mudefs(L1), mudefs(L2)
        c = d1[n1].a[3].a[0] if d1[n1].a[3].k == "ite" else None
        if (c is not None and d2[n2].a[3].k == "ite" and d2[n2].a[3].a[0] is c and facts.decide(c) is None
                and not contains(c, lambda x: x.k in ("mu", "bv", "out", "ite"))
                and self._quiet(d1[n1].a[2], d2[n2].a[2], facts) is False):
            return self._all_under(c, a, b, facts)  # a choice that is the same in every pass
        s1, s2 = loop_slice(L1, n1), loop_slice(L2, n2)
        if len(s1) != len(s2):
            r = self.left_over(a, b, s1, facts) if len(s1) > len(s2) else self.left_over(b, a, s2, facts)
            if r:
                if self.fail is None:
                    self.fail = (facts.path, a, b)
                return False
            self.undecided.append(f"loop-carried state differs: {s1} vs {s2}")
            return None
        if L1.a[0] == "for" and kinds(L1.a[2]) != kinds(L2.a[2]):
            self.undecided.append("different loop domains")
            return None
        rest1 = [x for x in s1 if x != n1]
        rest2 = [x for x in s2 if x != n2]
        cands = []
        if set(rest1) == set(rest2):
            cands.append(tuple(rest1))
            rest2 = list(rest1)
        def typed(x):
            return x if x.startswith(("m:", "$")) else ""

        odd1 = [x for x in rest1 if x not in rest2]
        odd2 = [x for x in rest2 if x not in rest1]
        if sorted(map(typed, odd1)) == sorted(map(typed, odd2)) and len(odd1) <= 5:
            for p in permutations(odd2):
                m = dict(zip(odd1, p))
                q = tuple(m.get(x, x) for x in rest1)
                if all(typed(x) == typed(y) for x, y in m.items()) and q not in cands:
                    cands.append(q)
        loose1 = [x for x in rest1 if not typed(x)]
        loose2 = [x for x in rest2 if not typed(x)]
        if len(loose1) == len(loose2) <= 5 and not n1.startswith("$") and not n2.startswith("$"):
            for p in permutations(loose2):
                m = dict(zip(loose1, p))
                q = tuple(m.get(x, x) for x in rest1)
                if q not in cands and set(q) == set(rest2):
                    cands.append(q)
        res = []
        old = self.fail
        first_fail = None
        for p in cands:
            self.fail = None
            pairs = [(n1, n2)] + list(zip(rest1, p))
            mp = {L2.a[1]: L1.a[1]}
            for x, y in pairs:
                mp[d2[y].a[1]] = d1[x].a[1]
            todo = [(L1.a[2], L2.a[2])]
            todo += [(d1[x].a[2], d2[y].a[2]) for x, y in pairs]
            r = self._all(todo, facts)
            inner = facts
            if L1.a[0] == "for" and r is not False:
                inner = within(facts, L1.a[1], L1.a[2])
                if inner is None:
                    self.fail = old
                    return True
            inner = counters(inner, [d1[x] for x, _y in pairs])
            if inner is None:
                self.fail = old
                return True
            if r is not False:
                r2 = self._cmp(L1.a[3], subst(L2.a[3], mp), inner)
                if r2 is not False:
                    body = holds(inner, L1.a[3])
                    if body is None:
                        self.fail = old
                        return True
                    r3 = self._all(self.inside([(d1[x].a[3], subst(d2[y].a[3], mp)) for x, y in pairs], body), body)
                    r2 = r3 if r2 is True else (False if r3 is False else None)
                r = r2 if r is True else (False if r2 is False else None)
            if DEBUG and r is not True:
                f = self.fail
                if f and r is False:
                    print("FAIL", path_text(f[0])[-900:], "\n    ", show(f[1], 8)[:300], "\n    ", show(f[2], 8)[:300])
                print("LOOP", n1, n2, r, p, [(x, self._quiet(d1[x].a[3], subst(d2[y].a[3], mp), inner)) for x, y in pairs],
                      [(x, self._quiet(d1[x].a[2], d2[y].a[2], inner)) for x, y in pairs], self.undecided[-3:])
            if r is True:
                self.fail = old
                return True
            if first_fail is None:
                first_fail = self.fail
            res.append(r)
        self.fail = old
        if any(r is None for r in res) or not res:
            self.undecided.append("loop correspondence")
            return None
        if self.fail is None:
            self.fail = first_fail or (facts.path, a, b)
        return False


    def inside(self, pairs, facts):
        """The results of a loop body with equal inner loops of both sides identified."""
        if not any(set(free_outs(y)) - set(free_outs(x)) for x, y in pairs):
            return pairs
        kept = self.same, self.apart
        self.same, self.apart = dict(self.same), set(self.apart)
        old = self.fail
        try:
            return [(x, self.align(x, y, facts)) for x, y in pairs]
        finally:
            self.same, self.apart = kept
            self.fail = old

    def left_over(self, a, b, carried, facts):
        """The loop of a is the loop of b except that one variable keeps its content from one iteration to the next."""
        L, n = a.a
        d = mudefs(L)
        old, k = self.fail, len(self.undecided)
        try:
            for x in carried:
                if x == n or d[x].a[3] is d[x].a[1]:
                    continue
                fresh_ = {d[x].a[1]: d[x].a[2]}
                if self._quiet(d[x].a[2], subst(d[x].a[3], fresh_), facts) is True:
                    continue
                M = mk("loop", *L.a[:3], subst(L.a[3], fresh_), *[mk(
                    y.k, *y.a[:3], subst(y.a[3], fresh_)) for y in L.a[4:] if y.a[0] != x])
                self.stale = False
                r = self._quiet(mk("out", M, n), b, facts)
                if r is True or r is False and self.stale:     # differs only where a nested loop keeps its content, too
                    self.stale = True
                    return True
        finally:
            self.fail = old
            del self.undecided[k:]
        return False


def bare(t):
    while t.k == "app" and t.a[0] == "m:copy" and t.a[1]:
        t = t.a[1][0]
    return t


def kinds(t):
    """Structure of a number of iterations: products of unknowns and operations other than plain sizes."""
    r = {x.a[0] for x in subterms(t) if x.k == "app" and x.a[0] in ("flat", "filter", "floordiv", "mod", "len")}
    if any(len(m) > 1 or m and m[0][1] > 1 for m, _c in poly(t).items()):
        r.add("product")
    return r


def free_outs(t):
    """Loop results in t that do not occur inside the body of another loop, dependencies first."""
    res, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "out":
            res.append(x)
            L = x.a[0]
            stack.append(L.a[2])
            stack += [d.a[2] for d in L.a[4:]]
        elif x.k in ("arr", "sum"):
            stack.append(x.a[0])
        elif x.k != "loop":
            stack += children(x)
    return sorted(res, key=lambda x: x.uid)


def holds(facts, c):
    """Facts extended with every conjunct of c."""
    if c.k == "ite" and c.a[2] is FALSE:
        facts = holds(facts, c.a[0])
        return None if facts is None else holds(facts, c.a[1])
    if c.k == "ite" and c.a[1] is FALSE and c.a[2] is not TRUE:
        facts = holds(facts, not_(c.a[0]))
        return None if facts is None else holds(facts, c.a[2])
    want = True
    while c.k == "ite" and c.a[1] is FALSE and c.a[2] is TRUE:
        c, want = c.a[0], not want
    if c is TRUE or c is FALSE:
        return facts if (c is TRUE) == want else None
    if c.k in BOOLK and c.k != "ite":
        return facts.add(c, want)
    return facts


def leaves(t):
    return leaves(t.a[1]) + leaves(t.a[2]) if t.k == "ite" else [t]


def nonneg(t, facts, depth=0):
    """t >= 0 by its shape or by the recorded bounds."""
    n = as_number(t)
    if n is not None:
        return n >= 0
    if depth > 6:
        return False
    if t.k == "ite":
        return nonneg(t.a[1], facts, depth + 1) and nonneg(t.a[2], facts, depth + 1)
    if t.k == "sum":
        return all(nonneg(x, facts, depth + 1) for x in leaves(t.a[2]))
    if t.k == "app" and t.a[0] in ("len", "abs", "exp"):
        return True
    if t.k in ("n",):
        c = less(t, num(0), True)
        if facts.decide(c) is False:
            return True
        return all(q > 0 and all(nonneg(x, facts, depth + 1) for x, e in m) for m, q in poly(t).items())
    if t.k in ("sym", "mu", "out", "bv"):
        c = less(t, num(0), True)
        neg = False
        while c.k == "ite" and c.a[1] is FALSE and c.a[2] is TRUE:
            c, neg = c.a[0], not neg
        return facts.decide(c) is neg
    return False


def counters(facts, defs):
    """Facts extended with mu >= its initial value for variables that never decrease."""
    for d in defs:
        _k, mu, init, nxt = d.a[:4]
        if init.k in ("c", "tup", "dct", "arr", "unk", "ref"):
            continue
        ok = False
        for x in leaves(nxt):
            try:
                ok = (x is mu or as_number(sub(x, mu)) is not None and as_number(sub(x, mu)) >= 0)
            except (TooBig, TypeError, AttributeError, AssertionError):
                ok = False
            if not ok:
                break
        if not ok or not nonneg(init, facts):
            continue
        c, want = less(mu, num(0), True), False
        while c.k == "ite" and c.a[1] is FALSE and c.a[2] is TRUE:
            c, want = c.a[0], not want
        if c.k in ("lt", "le"):
            facts = facts.add(c, want)
            if facts is None:
                return None
    return facts


def mudefs(L):
    return {x.a[0]: x for x in L.a[4:]}


def loop_slice(L, name):
    """Loop-carried variables the given one (and the loop condition) depends on."""
    d = mudefs(L)
    bymu = {x.a[1]: n for n, x in d.items()}
    need = [name]
    roots = [d[name].a[3]]
    if L.a[0] == "while":
        roots.append(L.a[3])
    seen = set()
    while roots:
        for x in subterms(roots.pop()):
            if x in seen:
                continue
            seen.add(x)
            n = bymu.get(x)
            if n is not None and n not in need:
                need.append(n)
                roots.append(d[n].a[3])
    return need


def settled(t, facts):
    """The result of a loop that, under these facts, assigns the same value in every pass."""
    if t.k != "out" or t.a[0].a[0] != "for":
        return t
    d = mudefs(t.a[0])
    if "$brk" in d and d["$brk"].a[3] is not FALSE:
        return t
    v = facts.simplify(d[t.a[1]].a[3])
    if v.k not in ("c", "n", "tup") or any(x.k in ("mu", "bv", "out", "ite") or x.k in BOOLK for x in subterms(v)):
        return t
    return ite(less(t.a[0].a[2], num(1), True), d[t.a[1]].a[2], v)


def heavy(c):
    return contains(c, lambda x: x.k in ("out", "sum", "arr", "loop"))


def conditions(t):
    """Branch conditions occurring in t outside loop and array bodies."""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k in BOOLK:
            out.append(x)
        if x.k in ("loop", "arr", "sum", "mudef"):
            continue
        st.extend(children(x))
    return out


CHANGING = {"m:" + x for x in ("cumsum", "cumprod", "diff", "fillna", "abs", "round", "clip", "shift", "interpolate", "ffill",
                               "bfill", "sort_values", "sort_index", "dropna", "transpose", "drop_duplicates", "pct_change")} | {
    "abs", "floor", "ceil", "round", "cumsum", "diff", "flip", "flipud", "fliplr", "nan_to_num", "sort", "rounded", "int"}
KNOWN = {"rounded", "read", "exp", "log", "log10", "log2", "tanh", "sinh", "cosh", "sin", "cos", "tan", "arcsin", "arccos", "arctan",
         "arctan2", "sqrt", "abs", "floor", "ceil", "round", "trunc", "int", "pow", "mod", "floordiv", "isnan", "isfinite",
         "amin", "amax", "aargmin", "aargmax", "append", "filt", "len", "elem", "uninit", "min", "max", "sign", "inf", "nan",
         "full", "concat", "str", "range", "idx", ".", "result", "after", "upd"}


def vocabulary(t):
    return {x.a[0] for x in subterms(t) if x.k == "app"}


def infeasible(path):
    """Fourier-Motzkin elimination over the (linearised) gating conditions."""
    for i, (c, v) in enumerate(path):
        # a whole number that differs from k is below or above it
        if c.k == "eqn" and not v:
            p = poly(c.a[0])
            ys = [m for m in p if m != ()]
            if len(ys) == 1 and len(ys[0]) == 1 and ys[0][0][0].k == "app" and ys[0][0][0].a[0] == "int":
                rest = tuple(path[:i]) + tuple(path[i + 1:])
                return (infeasible(rest + ((mk("lt", c.a[0], c.a[1]), True),))
                        and infeasible(rest + ((mk("le", c.a[0], c.a[1]), False),)))
    rows = []
    for c, v in path:
        if c.k not in ("lt", "le", "eqn"):
            continue
        p = dict(poly(c.a[0]))
        k = Fraction(c.a[1]) - p.pop((), Fraction(0))
        p = {m: Fraction(q) for m, q in p.items()}
        neg = {m: -q for m, q in p.items()}
        if c.k == "eqn":
            if v:
                rows += [(p, k, False), (neg, -k, False)]
        elif v:
            rows.append((p, k, c.k == "lt"))
        else:
            rows.append((neg, -k, c.k == "le"))
    # truncation towards zero stays within one of its operand
    whole = [y for p, _k, _s in rows for mono in p for y, _e in mono if y.k == "app" and y.a[0] == "int" and len(y.a[1]) == 1]
    for y in dict.fromkeys(whole):
        one = ((y, 1),)
        for i, (p, k, strict) in enumerate(rows):
            if set(p) == {one} and strict:  # a bound on a whole number
                rows[i] = ({one: Fraction(1 if p[one] > 0 else -1)}, Fraction(-(-(k / abs(p[one])) // 1)) - 1, False)
        p = {m: Fraction(q) for m, q in poly(y.a[1][0]).items()}
        k0 = p.pop((), Fraction(0))
        if len(p) < 4:
            rows.append(({**p, one: Fraction(-1)}, 1 - k0, True))
            rows.append(({**{m: -q for m, q in p.items()}, one: Fraction(1)}, 1 + k0, True))
    # a count over a list lies between 0 and the length of the list
    for x in {y for p, _k, _s in rows for mono in p for y, _e in mono if y.k == "sum"}:
        vals = [as_number(v) for v in leaves(x.a[2])]
        if all(v is not None and v >= 0 for v in vals):
            rows.append(({((x, 1),): Fraction(-1)}, Fraction(0), False))
            if max(vals) <= 1 and x.a[0].k in ("sym", "mu", "out"):
                rows.append(({((x, 1),): Fraction(1), ((x.a[0], 1),): Fraction(-1)}, Fraction(0), False))
    rows += rescaled(rows)
    while True:
        vs = {}
        for p, k, s in rows:
            if not p and (k < 0 or (k == 0 and s)):
                return True
            for m in p:
                vs[m] = vs.get(m, 0) + 1
        if not vs:
            return False
        m = min(vs, key=lambda x: (vs[x], str([(t.uid, e) for t, e in x])))
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rows = [r for r in rows if m not in r[0]]
        if len(pos) * len(neg) + len(rows) > 400:
            return False
        for p, k, s in pos:
            for q, l, u in neg:
                a, b = p[m], -q[m]
                n = {}
                for x in list(p) + list(q):
                    w = p.get(x, 0) * b + q.get(x, 0) * a
                    if w and x != m:
                        n[x] = w
                rows.append((n, k * b + l * a, s or u))


def rescaled(rows):
    """Inequalities multiplied by positive factors so that their terms match those of other inequalities."""
    def split(m):
        return (tuple((x, e) for x, e in m if not positive_atom(x)), {x: e for x, e in m if positive_atom(x)})

    terms = {}
    for p, _k, _s in rows:
        for m in p:
            rest, f = split(m)
            if rest:
                terms.setdefault(rest, {})[m] = f
    terms = {r: v for r, v in terms.items() if len(v) > 1}
    new, seen = [], {(frozenset(p.items()), k) for p, k, _s in rows}
    for p, k, s in rows:
        for m in p:
            rest, f = split(m)
            for m2, f2 in terms.get(rest, {}).items():
                ratio = [(x, f2.get(x, 0) - f.get(x, 0)) for x in {*f, *f2}]
                ratio = {x: e for x, e in ratio if e}
                if not ratio or k or any(Fraction(e).denominator != 1 for e in ratio.values()):
                    continue
                q = {}
                for mono, c in p.items():
                    r = dict(mono)
                    for x, e in ratio.items():
                        r[x] = r.get(x, 0) + e
                    q[tuple(sorted(((x, e) for x, e in r.items() if e), key=lambda xe: xe[0].uid))] = c
                key = (frozenset(q.items()), k)
                if key not in seen and len(new) < 40:
                    seen.add(key)
                    new.append((q, k, s))
    return new


def forced_equal(a, b, path):
    """The gating conditions force a - b = 0 (for instance on the tie of a minimum)."""
    try:
        p = dict(poly(sub(a, b)))
    except (TooBig, TypeError, AttributeError, AssertionError):
        return False
    if not p or not path:
        return False
    ms = list(p)
    common = {x: e for x, e in ms[0]}
    for m in ms[1:]:
        d = dict(m)
        common = {x: min(e, d[x]) for x, e in common.items() if x in d}
    q = {}
    for m, c in p.items():
        n = tuple((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0) != 0)
        q[n] = c
    d = from_poly(q)
    if as_number(d) is not None:
        return False
    lt1, lt2 = mk("lt", d, 0), mk("lt", mul(num(-1), d), 0)
    return infeasible(path + ((lt1, True),)) and infeasible(path + ((lt2, True),))


class NoValue(Exception):
    pass


def same_values(a, b, points=6):
    """Polynomial-identity style test of two terms at pseudo-random points."""
    hits = 0
    for i in range(points):
        try:
            x, y = value(a, i, {}), value(b, i, {})
        except (NoValue, ZeroDivisionError, OverflowError, ValueError, RecursionError, TypeError):
            continue
        hits += 1
        if isinstance(x, float) and isinstance(y, float):
            if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
                return False
        elif x != y:
            return False
    return hits >= 3


def _h(*k):
    import hashlib
    d = hashlib.sha256(repr(k).encode()).digest()
    return int.from_bytes(d[:6], "big") / float(1 << 48)


def value(t, i, env):
    import math
    k, a = t.k, t.a
    if k == "n":
        r = 0.0
        for m, c in a:
            x = float(c)
            for y, e in m:
                v = value(y, i, env)
                if not isinstance(v, float):
                    raise NoValue
                x *= v ** (int(e) if Fraction(e).denominator == 1 else float(e))
                if isinstance(x, complex):
                    raise NoValue
            r += x
        return r
    if k == "c":
        v = a[0].v
        if isinstance(v, bool) or isinstance(v, str) or v is None:
            return ("c", v)
        raise NoValue
    if k == "S":
        return value(a[0], i, env)
    if k == "sym":
        if a[0] in ("N", "p:idx", "p:pos") or a[0].startswith("i:"):
            return float(2 + int(3 * _h("s", a[0], i)))
        return 0.4 + 1.3 * _h("s", a[0], i)
    if k in ("mu", "bv"):
        if t in env:
            return env[t]
        return 0.4 + 1.3 * _h(k, a, i)
    if k == "ite":
        c = value(a[0], i, env)
        return value(a[1] if c == ("c", True) else a[2], i, env)
    if k in ("lt", "le", "eqn"):
        v = value(a[0], i, env)
        if not isinstance(v, float):
            raise NoValue
        w = float(a[1])
        return ("c", v < w if k == "lt" else v <= w if k == "le" else abs(v - w) < 1e-12)
    if k == "app":
        nm, args = a
        if nm == "read":
            return rd(args[0], value(args[1], i, env), i, env)
        f = {"exp": math.exp, "log": math.log, "tanh": math.tanh, "sin": math.sin, "cos": math.cos, "tan": math.tan,
             "arctan": math.atan, "arcsin": math.asin, "arccos": math.acos, "abs": abs, "sinh": math.sinh,
             "cosh": math.cosh, "floor": math.floor, "int": int, "trunc": int, "ceil": math.ceil, "log10": math.log10,
             "round": round}.get(nm)
        vs = [value(x, i, env) for x in args]
        if f is not None and len(vs) == 1 and isinstance(vs[0], float):
            return float(f(vs[0]))
        if nm == "pow" and all(isinstance(x, float) for x in vs):
            r = vs[0] ** vs[1]
            if isinstance(r, complex):
                raise NoValue
            return r
        return 0.4 + 1.3 * _h(nm, [round(x, 9) if isinstance(x, float) else x for x in vs], i)
    if k == "sum":
        n = value(a[0], i, env)
        if not isinstance(n, float) or not -0.5 < n < 60:
            raise NoValue
        bv = mk("bv", a[1])
        r = 0.0
        for j in range(int(round(n))):
            e2 = dict(env)
            e2[bv] = float(j)
            r += value(a[2], i, e2)
        return r
    if k == "tup":
        return ("t",) + tuple(value(x, i, env) for x in a)
    raise NoValue


def rd(mem, j, i, env):
    if mem.k == "store":
        if abs(value(mem.a[1], i, env) - j) < 1e-9:
            return value(mem.a[2], i, env)
        return rd(mem.a[0], j, i, env)
    if mem.k == "ins":
        p = value(mem.a[1], i, env)
        if abs(p - j) < 1e-9:
            return value(mem.a[2], i, env)
        return rd(mem.a[0], j if j < p else j - 1, i, env)
    if mem.k == "del":
        p = value(mem.a[1], i, env)
        return rd(mem.a[0], j if j < p - 1e-9 else j + 1, i, env)
    if mem.k == "arr":
        e2 = dict(env)
        e2[mk("bv", mem.a[1])] = j
        return value(mem.a[2], i, e2)
    if mem.k == "ite":
        return rd(mem.a[1] if value(mem.a[0], i, env) == ("c", True) else mem.a[2], j, i, env)
    if mem.k in ("sym", "mu"):
        return 0.4 + 1.3 * _h("m", mem.a, round(j, 6), i)
    raise NoValue


def contains_loop(*ts):
    return any(contains(t, lambda x: x.k == "out") for t in ts)


def unset(t):
    return t.k == "unk" and str(t.a[0]).startswith(("undef:", "unbound name"))


def has_unk(t):
    return contains(t, lambda x: x.k == "unk")


def clear_denominators(d):
    for _ in range(12):
        worst = {}
        for m, _c in poly(d).items():
            for x, e in m:
                if x.k == "S" and e < 0 and Fraction(e).denominator == 1:
                    worst[x] = min(worst.get(x, 0), e)
        if not worst:
            return d
        x = max(worst, key=lambda t: t.uid)
        d = mul_all(d, x, -worst[x])
    return d


def clearly_nonzero(d):
    """The polynomial is non-zero for some assignment of generic values to its atoms."""
    for i in range(3):
        r = m = 0.0
        try:
            for mono, c in poly(d).items():
                x = float(c)
                for y, e in mono:
                    v = atom_value(y, i)
                    x *= v ** (int(e) if Fraction(e).denominator == 1 else float(e))
                    if isinstance(x, complex):
                        raise NoValue
                r += x
                m += abs(x)
        except (NoValue, ZeroDivisionError, OverflowError):
            continue
        if m and abs(r) > 1e-6 * m:
            return True
    return False


def atom_value(y, i):
    """A generic value per atom; multi-term denominators follow from their atoms."""
    if y.k == "S":
        return sum(float(c) * prod(atom_value(x, i) ** (int(e) if Fraction(e).denominator == 1 else float(e))
                                   for x, e in mono) for mono, c in poly(y.a[0]).items())
    return 0.4 + 1.3 * _h("atom", y.uid, i)


def mul_all(d, S, e):
    """Multiply by S**e term by term, expanding."""
    if len(poly(d)) > 3000:
        raise TooBig()
    r = num(0)
    for m, c in poly(d).items():
        t = from_poly({tuple((x, k) for x, k in m if x is not S): c})
        have = sum(k for x, k in m if x is S)
        k = have + e
        assert k >= 0
        for _ in range(k):
            t = mul(t, S.a[0])
        r = add(r, t)
    return r


def path_text(path):
    return " and ".join(("" if v else "not ") + "(" + show(c, 5) + ")" for c, v in path) or "always"
