"""Linear integer expressions over interned symbols, and a small linear-inequality domain
(conjunctions of e>=0, equalities as substitutions, disequalities) with Fourier-Motzkin entailment."""

BIG = 1 << 62


class SymTab:
    def __init__(self):
        self.ids = {}
        self.info = []  # (key, lo, hi)

    def get(self, key, lo=0, hi=BIG):
        i = self.ids.get(key)
        if i is None:
            i = len(self.info)
            self.ids[key] = i
            self.info.append((key, lo, hi))
        return i

    def fresh(self, hint, lo=0, hi=BIG):
        return self.get((hint, "#%d" % len(self.info)), lo, hi)


TAB = SymTab()


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return self.h

    def __repr__(self):
        s = []
        for k, v in self.t:
            n = keyname(TAB.info[k][0])
            s.append(("%d*%s" % (v, n)) if v != 1 else n)
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s).replace("+-", "-")


def keyname(k):
    if isinstance(k, tuple):
        return ".".join(keyname(x) for x in k)
    return str(k)


def sym(key, lo=0, hi=BIG):
    return Lin(0, ((TAB.get(key, lo, hi), 1),))


def fresh(hint, lo=0, hi=BIG):
    return Lin(0, ((TAB.fresh(hint, lo, hi), 1),))


def mk(c, d):
    t = tuple(sorted((k, v) for k, v in d.items() if v))
    if not t:
        return c
    return Lin(c, t)


def is_num(a):
    return isinstance(a, (int, Lin))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        return Lin(a + b.c, b.t) if a else b
    if isinstance(b, int):
        return Lin(a.c + b, a.t) if b else a
    d = dict(a.t)
    for k, v in b.t:
        d[k] = d.get(k, 0) + v
    return mk(a.c + b.c, d)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((s, v * k) for s, v in a.t))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return add(a, mulc(b, -1))


def syms(a):
    return () if isinstance(a, int) else tuple(k for k, _ in a.t)


def substs(a, s):
    """apply substitution {sym: Lin|int}"""
    if isinstance(a, int) or not s:
        return a
    hit = False
    for k, _ in a.t:
        if k in s:
            hit = True
            break
    if not hit:
        return a
    r = a.c
    rest = {}
    for k, v in a.t:
        if k in s:
            r = add(r, mulc(s[k], v))
        else:
            rest[k] = v
    return add(r, mk(0, rest))


class Cons:
    """immutable conjunction"""

    __slots__ = ("ge", "ne", "eq", "cache")

    def __init__(self, ge=(), ne=frozenset(), eq=None):
        self.ge = ge
        self.ne = ne
        self.eq = eq or {}
        self.cache = {}

    def key(self):
        return (frozenset(self.ge), self.ne, frozenset(self.eq.items()))

    def norm(self, a):
        if isinstance(a, int) or not self.eq:
            return a
        return substs(a, self.eq)

    # --- queries -------------------------------------------------------
    def ge0(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return e >= 0
        r = self.cache.get(e)
        if r is None:
            r = self._ge0(e)
            self.cache[e] = r
        return r

    def _ge0(self, e):
        # interval check first
        lo = e.c
        for k, v in e.t:
            _, l, h = TAB.info[k]
            b = l if v > 0 else h
            if b is None:
                lo = None
                break
            lo += v * b
        if lo is not None and lo >= 0:
            return True
        for g in self.ge:
            d = sub(e, g)
            if isinstance(d, int) and d >= 0:
                return True
        return self._unsat_with(mulc(add(e, 1), -1))

    def eq0(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return e == 0
        return self.ge0(e) and self.ge0(mulc(e, -1))

    def ne0(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return e != 0
        if e in self.ne or mulc(e, -1) in self.ne:
            return True
        return self.ge0(sub(e, 1)) or self.ge0(sub(mulc(e, -1), 1))

    def same(self, a, b):
        if a == b:
            return True
        return self.eq0(sub(a, b))

    def _unsat_with(self, neg):
        # FM over the connected component of neg
        cons = [self.norm(g) for g in self.ge]
        cur = set(syms(neg))
        sel = [neg]
        rest = [c for c in cons if not isinstance(c, int)]
        for c in cons:
            if isinstance(c, int) and c < 0:
                return True
        changed = True
        while changed:
            changed = False
            nr = []
            for c in rest:
                if cur.intersection(syms(c)):
                    sel.append(c)
                    n0 = len(cur)
                    cur.update(syms(c))
                    changed = True
                else:
                    nr.append(c)
            rest = nr
        for s in list(cur):
            _, lo, hi = TAB.info[s]
            if lo is not None:
                sel.append(Lin(-lo, ((s, 1),)))
            if hi is not None:
                sel.append(Lin(hi, ((s, -1),)))
        return fm_unsat(sel)

    # --- updates (None = infeasible) ------------------------------------
    def add_ge(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return self if e >= 0 else None
        if self.ge0(e):
            return self
        if self.ge0(sub(mulc(e, -1), 1)):
            return None
        if self.ge0(mulc(e, -1)):
            return self.add_eq(e)
        if mulc(e, 1) in self.ne or mulc(e, -1) in self.ne:
            e = sub(e, 1)
        return Cons(self.ge + (e,), self.ne, self.eq)

    def add_ne(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return self if e != 0 else None
        if self.ne0(e):
            return self
        if self.ge0(e):
            return self.add_ge(sub(e, 1))
        if self.ge0(mulc(e, -1)):
            return self.add_ge(sub(mulc(e, -1), 1))
        return Cons(self.ge, self.ne | {e}, self.eq)

    def add_eq(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return self if e == 0 else None
        if self.ne0(e):
            return None
        if self.ge0(sub(e, 1)) or self.ge0(sub(mulc(e, -1), 1)):
            return None
        # one equation can fix its symbols (256*hi + lo == N), by their bounds
        fixed = _forced(e)
        if fixed is None:
            return None
        if fixed:
            r = self
            for k, v in fixed.items():
                r = r.add_eq(Lin(-v, ((k, 1),)))
                if r is None:
                    return None
            return r.add_eq(e)
        # solve for the newest symbol with coefficient +-1
        best = None
        for k, v in e.t:
            if v in (1, -1) and (best is None or k > best[0]):
                best = (k, v)
        if best is None:
            return Cons(self.ge + (e, mulc(e, -1)), self.ne, self.eq)
        k, v = best
        rest = mk(e.c, {a: b for a, b in e.t if a != k})
        val = mulc(rest, -1) if v == 1 else rest
        s1 = {k: val}
        neq = {a: substs(b, s1) for a, b in self.eq.items()}
        neq[k] = val
        _, lo, hi = TAB.info[k]
        ge = []
        for g in self.ge:
            g2 = substs(g, s1)
            if isinstance(g2, int):
                if g2 < 0:
                    return None
                continue
            ge.append(g2)
        r = Cons((), self.ne, neq)
        ne = set()
        for n in self.ne:
            n2 = substs(n, s1)
            if isinstance(n2, int):
                if n2 == 0:
                    return None
                continue
            ne.add(n2)
        r = Cons(tuple(ge), frozenset(ne), neq)
        # bounds of the eliminated symbol
        for b in (sub(val, lo) if lo is not None else 0, sub(hi, val) if hi is not None else 0):
            r2 = r.add_ge(b)
            if r2 is None:
                return None
            r = r2
        return r


def _forced(e):
    """symbols with a single possible value under e == 0 and the bounds of
    the others; None when e == 0 has no solution within the bounds"""
    if len(e.t) < 2:
        return {}
    rng = {}
    for k, v in e.t:
        _, lo, hi = TAB.info[k]
        if lo is None or hi is None:
            return {}
        rng[k] = (v * lo, v * hi) if v > 0 else (v * hi, v * lo)
    slo = e.c + sum(a for a, _ in rng.values())
    shi = e.c + sum(b for _, b in rng.values())
    out = {}
    for k, v in e.t:
        # v*x = -(rest)
        a, b = -(shi - rng[k][1]), -(slo - rng[k][0])
        if v < 0:
            a, b, v = -b, -a, -v
        lo, hi = max(-(-a // v), TAB.info[k][1]), min(b // v, TAB.info[k][2])
        if lo > hi:
            return None
        if lo == hi:
            out[k] = lo
    return out


def _tighten(e):
    # divide by gcd
    from math import gcd

    g = 0
    for _, v in e.t:
        g = gcd(g, abs(v))
    if g > 1:
        return Lin(e.c // g, tuple((k, v // g) for k, v in e.t))
    return e


def fm_unsat(cs):
    work = set()
    for c in cs:
        if isinstance(c, int):
            if c < 0:
                return True
        else:
            work.add(_tighten(c))
    steps = 0
    while work:
        steps += 1
        # dominated constraints: same terms keep the smallest constant
        best = {}
        for c in work:
            o = best.get(c.t)
            if o is None or c.c < o:
                best[c.t] = c.c
        work = {Lin(c, t) for t, c in best.items()}
        # immediate contradiction e>=0 and -e+c>=0
        cnt = {}
        for c in work:
            for k, v in c.t:
                p = cnt.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        k = min(cnt, key=lambda s: cnt[s][0] * cnt[s][1])
        if cnt[k][0] * cnt[k][1] > 400:
            return False
        pos, neg, new = [], [], set()
        for c in work:
            co = 0
            for s, v in c.t:
                if s == k:
                    co = v
                    break
            if co > 0:
                pos.append((c, co))
            elif co < 0:
                neg.append((c, -co))
            else:
                new.add(c)
        for p, a in pos:
            for n, b in neg:
                e = add(mulc(p, b), mulc(n, a))
                if isinstance(e, int):
                    if e < 0:
                        return True
                    continue
                new.add(_tighten(e))
        if len(new) > 600:
            return False
        work = new
    return False
