"""Path-sensitive abstract interpretation over monomorphic MIR facts (see DESIGN.md)."""
import re
import json
import os
import math
import sys
from fractions import Fraction

from lin import TAB, Cons, Lin, add, fresh, is_num, mk, mulc, sub, substs, sym, syms, keyname

sys.setrecursionlimit(100000)

NH = ("NH",)  # a transfer function declines the call
U = ("U",)
OWNED_WRAP = ("std::path::PathBuf", "std::ffi::os_str::OsString", "std::sys::os_str::bytes::Buf", "alloc::string::String")
EMPTY_OWNED = ("alloc::vec::Vec", "alloc::string::String", "std::path::PathBuf", "std::ffi::os_str::OsString")
UNIT = ("A", "tuple", 0, ())


class NeedFork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Mismatch(Exception):
    pass


class Infeasible(Exception):
    pass


class Limit(Exception):
    pass


class OutOfTime(BaseException):
    """the scenario's time is over; nothing on the way handles it"""


NATIVE_DROP = ("alloc::io::buffered::bufwriter::BufWriter",)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.impls = {}  # crate -> [[trait, type, polarity]]
        for f in os.listdir(os.path.dirname(path) or "."):
            if f.endswith(".impls.json"):
                self.impls[f.split(".")[0]] = json.load(open(os.path.join(os.path.dirname(path), f)))
        self.types = d["types"]
        self.insts = d["insts"]
        self.roots = d["roots"]
        self.files = d["files"]
        self.statics = d["statics"]
        self.dyn = {(t, n): i for t, n, i in d["dyn"]}
        self.drops = {t: i for t, i in d["drops"]}
        self.aux_next = {t: i for t, i in d.get("next", [])}
        self.info = {}
        self._needs = {}
        for t in self.types:
            if t.get("path") == "core::cmp::Ordering":
                for v in t["variants"]:
                    v["discr"] = {"255": -1, 255: -1}.get(v["discr"], v["discr"])
        sg = {i: t["bits"] for i, t in enumerate(self.types) if t.get("k") == "int" and t.get("signed")}
        for i in self.insts:
            for _, t, _ in (i.get("body") or {}).get("blocks", ()):
                if t[0] == "sw" and t[4] in sg:
                    # switch values are printed as unsigned bit patterns
                    w = sg[t[4]]
                    for x in t[2]:
                        if x[0] >> (w - 1) == 1:
                            x[0] -= 1 << w
        self._tname = {t["s"]: i for i, t in enumerate(self.types)}

    def ty(self, t):
        return self.types[t]

    def body_info(self, ii):
        r = self.info.get(ii)
        if r is None:
            r = BodyInfo(self.insts[ii]["body"])
            self.info[ii] = r
        return r

    def needs_drop(self, t, stack=()):
        """does dropping a value of type t run a destructor written in the workspace?"""
        r = self._needs.get(t)
        if r is not None:
            return r
        if t in stack:
            return False
        ty = self.types[t]
        k = ty["k"]
        st = stack + (t,)
        r = False
        if t in self.drops:
            r = True
        elif k == "adt":
            if ty["path"] in NATIVE_DROP or any(self.needs_drop(a, st) for a in ty["args"]):
                r = True
            else:
                for v in ty["variants"]:
                    for _, ft in v["fields"]:
                        if ft is not None and self.needs_drop(ft, st):
                            r = True
        elif k in ("array", "slice"):
            r = self.needs_drop(ty["elem"], st)
        elif k == "tuple":
            r = any(self.needs_drop(a, st) for a in ty["args"])
        elif k == "closure":
            r = any(self.needs_drop(a, st) for a in ty["upvars"])
        if not stack:
            self._needs[t] = r
        return r


def _place_uses(p, uses):
    uses.add(p[0])
    for e in p[1:]:
        if e != "D" and e[0] == "i":
            uses.add(e[1])


def _op_uses(o, uses):
    if o[0] in ("c", "m"):
        _place_uses(o[1], uses)


class BodyInfo:
    def __init__(self, b):
        self.b = b
        blocks = b["blocks"]
        n = len(blocks)
        self.succ = []
        for st, t, _ in blocks:
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "sw":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[5 - 1]] if False else ([t[5]] if t[5] is not None else [])
            elif k == "assert":
                s = [t[5]]
            else:
                s = []
            self.succ.append(s)
        # loop heads: targets of back edges in a DFS
        self.heads = set()
        color = [0] * n
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(self.succ[v])))
                    break
                elif color[v] == 1:
                    self.heads.add(v)
            else:
                color[u] = 2
                stack.pop()
        # blocks of each loop
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in self.succ[u]:
                pred[v].append(u)
        reach = [None] * n

        def reachable(u):
            if reach[u] is None:
                seen = set()
                td = [u]
                while td:
                    x = td.pop()
                    for y in self.succ[x]:
                        if y not in seen:
                            seen.add(y)
                            td.append(y)
                reach[u] = seen
            return reach[u]

        full = (1 << n) - 1
        dom = [full] * n
        dom[0] = 1
        ch = True
        while ch:
            ch = False
            for u in range(1, n):
                d = full
                for p in pred[u]:
                    d &= dom[p]
                d |= 1 << u
                if d != dom[u]:
                    dom[u] = d
                    ch = True
        self.loops = {}
        for h in self.heads:
            body = {h}
            td = [u for u in pred[h] if u in reachable(h) and dom[u] >> h & 1]
            if not td:  # irreducible
                td = [u for u in pred[h] if u in reachable(h)]
            while td:
                x = td.pop()
                if x in body:
                    continue
                body.add(x)
                td += [y for y in pred[x] if y in reachable(h)]
            self.loops[h] = body
        # liveness at block entry
        self.live = None
        use, dfn = [], []
        for st, t, _ in blocks:
            us, ds = set(), set()

            def u_op(o):
                x = set()
                _op_uses(o, x)
                us.update(x - ds)

            def u_place(p):
                x = set()
                _place_uses(p, x)
                us.update(x - ds)

            def d_place(p):
                if len(p) == 1:
                    ds.add(p[0])
                else:
                    u_place(p)

            for s in st:
                if s[0] == "=":
                    rv = s[2]
                    for o in rv_operands(rv):
                        u_op(o)
                    for p in rv_places(rv):
                        u_place(p)
                    d_place(s[1])
                elif s[0] == "sd":
                    u_place(s[1])
                elif s[0] == "cno":
                    for o in s[1:]:
                        u_op(o)
            k = t[0]
            if k == "sw":
                u_op(t[1])
            elif k == "drop":
                u_place(t[1])
            elif k == "call":
                u_op(t[1])
                for o in t[3]:
                    u_op(o)
                d_place(t[4])
            elif k == "assert":
                u_op(t[1])
                for o in t[4]:
                    u_op(o)
            elif k == "ret":
                us.update({0} - ds)
            use.append(us)
            dfn.append(ds)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                x = use[i] | (o - dfn[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        self.live = live


def rv_operands(rv):
    k = rv[0]
    if k in ("use", "rep"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[4]
    return []


def rv_places(rv):
    if rv[0] in ("ref", "disc"):
        return [rv[1]]
    return []


class State:
    __slots__ = ("heap", "cons", "binds", "mon", "log", "nf", "taint", "frames", "last")

    def __init__(self):
        self.heap = {}
        self.cons = Cons()
        self.binds = {}
        self.mon = {}
        self.log = ()
        self.nf = 0
        self.taint = frozenset()
        self.frames = ()
        self.last = None  # was the last case split about inputs alone?

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.cons = self.cons
        s.binds = dict(self.binds)
        s.mon = dict(self.mon)
        s.log = self.log
        s.nf = self.nf
        s.taint = self.taint
        s.frames = self.frames
        s.last = self.last
        return s


def inputs_only(e):
    """the term speaks about inputs alone: no joined (phi) or summarised quantity"""
    for k in syms(e):
        nm = TAB.info[k][0]
        if isinstance(nm, tuple) and nm and (nm[0] == "phi" or isinstance(nm[-1], str) and nm[-1].startswith("#")):
            return False
    return True


def hard(st, c):
    return isinstance(c, tuple) and c and c[0] == "C" and inputs_only(st.cons.norm(c[2]))


# ---------------------------------------------------------------- bytes
ZERO = ("zero",)


def lit(b):
    return ("B", ((("lit", bytes(b)), 0, len(b)),)) if b else ("B", ())


def seg(origin, off, ln):
    return ("B", ((origin, off, ln),)) if ln != 0 else ("B", ())


def zeros(n):
    return seg(ZERO, 0, n)


def blen(b):
    r = 0
    for _, _, l in b[1]:
        r = add(r, l)
    return r


def bmerge(segs, cons):
    out = []
    for o, off, l in segs:
        l = cons.norm(l)
        if l == 0:
            continue
        off = cons.norm(off)
        if out:
            po, poff, pl = out[-1]
            if po[0] == "lit" and o[0] == "lit" and all(isinstance(x, int) for x in (poff, pl, off, l)):
                out[-1] = (("lit", po[1][poff : poff + pl] + o[1][off : off + l]), 0, pl + l)
                continue
            if po == o:
                if o == ZERO:
                    out[-1] = (o, 0, add(pl, l))
                    continue
                if o[0] == "mix":
                    out[-1] = (o, 0, add(pl, l))
                    continue
                if cons.norm(sub(add(poff, pl), off)) == 0:
                    out[-1] = (o, poff, add(pl, l))
                    continue
            if po[0] == "mix" and o[0] == "mix":
                out[-1] = (("mix", po[1] | o[1]), 0, add(pl, l))
                continue
        if o[0] in ("zero", "mix"):
            off = 0
        out.append((o, off, l))
    return tuple(out)


def deps_of_origin(o):
    if o[0] == "mix":
        return o[1]
    if o[0] in ("zero", "lit"):
        return frozenset()
    if o[0] == "line":
        return frozenset([("line", o[1], None)])
    return frozenset([o])


class Engine:
    MAXSTEPS = 3_000_000

    def __init__(self, prog, mon=None, natives=None):
        self.p = prog
        self.mon = mon
        self.glob = {}
        self.ncell = 0
        self.nver = 0
        self.inits = {}  # initial content of lazily created cells
        self.constcache = {}
        self.natives = natives
        self.stack = []  # (inst path, span)
        self.steps = 0
        self.unmodelled = {}
        self.undecided = {}
        self.used = set()
        self.viol = {}
        self.special = []  # extra symbols for loop-invariant templates
        self.skolem = {}  # list key -> index symbol
        self.calls = 0
        self.depth = 0
        self.loops = 0
        self.exact = False
        self.bytehook = None

    # ------------------------------------------------------------ basics
    def newcell(self, st, v):
        self.ncell += 1
        st.heap[self.ncell] = v
        return self.ncell

    def globcell(self, v):
        self.ncell += 1
        self.glob[self.ncell] = v
        return self.ncell

    def where(self):
        for path, sp in reversed(self.stack):
            if sp is not None:
                f = self.p.files[sp[0]]
                if "/rustlib/" not in f and "/.cargo/" not in f and "/registry/" not in f:
                    return "%s:%d (%s)" % (f, sp[1], path)
        return self.stack[-1][0] if self.stack else "?"

    def report(self, st, key, msg):
        if st is not None and st.taint:
            self.undecided.setdefault(key, (msg, sorted(st.taint)[:3]))
            return
        if key not in self.viol:
            self.viol[key] = (msg, self.where(), [p for p, _ in self.stack])

    # ------------------------------------------------------------ branching
    def cond_status(self, st, c):
        """True/False/None for a bool value"""
        if c is True or c is False:
            return c
        if isinstance(c, int):
            return bool(c)
        if c[0] == "C":
            op, e = c[1], c[2]
            if op == "ge":
                if st.cons.ge0(e):
                    return True
                if st.cons.ge0(sub(mulc(e, -1), 1)):
                    return False
                return None
            if op in ("eq", "ne"):
                if st.cons.eq0(e):
                    return op == "eq"
                if st.cons.ne0(e):
                    return op == "ne"
                return None
        raise Limit("cond %r" % (c,))

    def neg(self, c):
        if c is True or c is False:
            return not c
        op, e = c[1], c[2]
        if op == "ge":
            return ("C", "ge", sub(mulc(e, -1), 1))
        return ("C", "ne" if op == "eq" else "eq", e)

    def assume(self, st, c):
        """add a condition; False if infeasible"""
        if c is True:
            return True
        if c is False:
            return False
        op, e = c[1], c[2]
        n = st.cons.add_ge(e) if op == "ge" else st.cons.add_eq(e) if op == "eq" else st.cons.add_ne(e)
        if n is None:
            return False
        st.cons = n
        return True

    def decide(self, st, c):
        r = self.cond_status(st, c)
        if r is None:
            raise NeedFork([c, self.neg(c)])
        return r

    def mkge(self, st, a, b):
        return self._mkc(st, "ge", sub(a, b))

    def mkeq(self, st, a, b):
        return self._mkc(st, "eq", sub(a, b))

    def _mkc(self, st, op, e):
        e = st.cons.norm(e)
        if isinstance(e, int):
            return e >= 0 if op == "ge" else e == 0 if op == "eq" else e != 0
        return ("C", op, e)

    # ------------------------------------------------------------ symbolic values
    def S(self, key, tid):
        return ("S", key, tid)

    def res(self, st, v):
        while v[0] == "S":
            b = st.binds.get(v[1])
            if b is None:
                b = self.expand(st, v)
                if b is None:
                    return v
            v = b
        return v

    def discsym(self, v):
        n = len(self.p.ty(v[2])["variants"])
        return sym(("disc", v[1]), 0, n - 1)

    def expand(self, st, v, variant=None):
        """expand a lazily symbolic value by its type; None if it must stay symbolic"""
        key, tid = v[1], v[2]
        ty = self.p.ty(tid)
        k = ty["k"]
        r = None
        if k == "int":
            lo, hi = (0, (1 << ty["bits"]) - 1)
            if ty["signed"]:
                lo, hi = -(1 << (ty["bits"] - 1)), (1 << (ty["bits"] - 1)) - 1
            if hi > (1 << 62):
                hi = 1 << 62
            if lo < -(1 << 62):
                lo = -(1 << 62)
            return self._ret_int(sym(key, lo, hi))
        if k == "bool":
            return ("C", "eq", sub(sym(key, 0, 1), 1))
        if k == "char":
            return self._ret_int(sym(key, 0, 0x10FFFF))
        if k == "adt":
            path = ty["path"]
            r = self.natives.expand(self, st, key, ty, tid)
            if r is None:
                if ty["adt"] == "enum":
                    if variant is None:
                        d = st.cons.norm(self.discsym(v))
                        if not isinstance(d, int):
                            return None
                        variant = d
                    vd = ty["variants"][variant]
                    r = ("A", tid, variant, tuple(self.S(key + (vd["name"], n), t) if t is not None else ("S", key + (vd["name"], n), None) for n, t in vd["fields"]))
                elif ty["adt"] == "struct":
                    fs = ty["variants"][0]["fields"]
                    if any(t is None for _, t in fs):
                        return None
                    r = ("A", tid, 0, tuple(self.S(key + (n,), t) for n, t in fs))
        elif k == "tuple":
            r = ("A", "tuple", 0, tuple(self.S(key + (str(i),), t) for i, t in enumerate(ty["args"])))
        elif k in ("ref", "ptr"):
            et = self.p.ty(ty["elem"])
            c = ("c", key)
            if et["k"] in ("str", "slice") or (et["k"] == "adt" and et["path"] in ("std::path::Path", "std::ffi::os_str::OsStr")):
                n = self.len_sym(key)
                if et["k"] == "slice" and not self.is_u8(et["elem"]):
                    k = st.cons.norm(n)
                    if isinstance(k, int) and k <= 8 and key not in self.skolem:
                        cont = ("L", tuple(("e", self.S(key + ("[]", i), et["elem"])) for i in range(k)))
                    else:
                        cont = ("L", (("s", key, et["elem"], 0, n),))
                else:
                    cont = seg(("sym", key), 0, n)
                if c not in st.heap:
                    st.heap[c] = self.inits[c] = cont
                r = ("R", c, (), (0, n))
            else:
                if c not in st.heap:
                    st.heap[c] = self.inits[c] = self.S(key + ("*",), ty["elem"])
                r = ("R", c, (), None)
        elif k == "array":
            if self.is_u8(ty["elem"]):
                r = seg(("sym", key), 0, ty["len"])
            else:
                r = ("L", tuple(("e", self.S(key + (i,), ty["elem"])) for i in range(ty["len"])))
        elif k == "closure":
            r = ("A", tid, 0, tuple(self.S(key + ("up%d" % i,), t) for i, t in enumerate(ty["upvars"])))
        if r is not None:
            st.binds[key] = r
        return r

    def _ret_int(self, l):
        return ("I", l)

    def len_sym(self, key):
        return sym(("len", key), 0, 1 << 40)

    def is_u8(self, tid):
        t = self.p.ty(tid)
        return t["k"] == "int" and t["bits"] == 8

    # ------------------------------------------------------------ reading / writing
    def cell(self, st, c):
        v = st.heap.get(c)
        if v is None:
            v = self.glob.get(c, U)
        return v

    def proj(self, st, v, p):
        if is_num(v):
            return v
        v = self.res(st, v)
        t = p[0]
        if t == "f":
            if v[0] == "A":
                if p[1] < len(v[3]):
                    return v[3][p[1]]
                raise Limit("field %r of %r" % (p, v[:3]))
            if v[0] in ("R", "X", "V", "P", "U"):
                return v  # Box/Unique/NonNull wrappers
            if v[0] == "T":
                return ("T", "fld", v, p[1])
            raise Limit("field %r of %r" % (p, v))
        if t == "v":
            if v[0] == "S":
                r = self.expand(st, v, variant=p[1])
                # the discriminant was tested before
                return r if r is not None else v
            return v
        if t == "i":
            return self.index(st, v, p[1])
        raise Limit("proj")

    def index(self, st, v, i):
        i = st.cons.norm(i)
        if v[0] == "B":
            pos = 0
            for o, off, l in v[1]:
                end = add(pos, l)
                if st.cons.ge0(sub(sub(end, i), 1)):
                    if st.cons.ge0(sub(i, pos)):
                        return self.byte(st, o, add(off, sub(i, pos)))
                    break
                if not st.cons.ge0(sub(i, end)):
                    break
                pos = end
            return fresh("byte?", 0, 255)
        if v[0] == "L":
            pos = 0
            for it in v[1]:
                if it[0] == "e":
                    if st.cons.eq0(sub(i, pos)):
                        return it[1]
                    if not st.cons.ne0(sub(i, pos)):
                        raise NeedFork([("C", "eq", st.cons.norm(sub(i, pos))), ("C", "ne", st.cons.norm(sub(i, pos)))])
                    pos = add(pos, 1)
                elif it[0] == "s":
                    _, key, tid, off, l = it
                    end = add(pos, l)
                    c = self.mkge(st, sub(end, 1), i)
                    if self.decide(st, c):
                        return self.elem(st, key, tid, add(off, sub(i, pos)))
                    pos = end
                else:
                    raise Limit("index into summarised list")
            raise Limit("index out of list")
        if v[0] == "V":
            return self.index(st, self.cell(st, v[1]), i)
        raise Limit("index %r" % (v[:2],))

    def elem(self, st, key, tid, idx):
        idx = st.cons.norm(idx)
        if key[0] == "lines":
            return self.natives.line(self, st, key[1], idx)
        k = self.skolem.get(key)
        if k is not None:
            if self.decide(st, self.mkeq(st, idx, k)):
                idx = "K"
            else:
                # some other element
                self.ncell += 1
                return ("S", ("any", self.ncell), tid)
        return ("S", key + ("[]", idx), tid)

    def byte(self, st, o, off):
        off = st.cons.norm(off)
        if self.bytehook is not None:
            r = self.bytehook(self, st, o, off)
            if r is not None:
                return r
        if o[0] == "lit" and isinstance(off, int):
            return o[1][off]
        if o == ZERO:
            return 0
        if o[0] == "b1":
            return o[1]
        if o[0] == "mix":
            return fresh("byte?", 0, 255)
        return sym(("byte", o, off), 0, 255)

    def length(self, st, v):
        v = self.res(st, v)
        if v[0] == "B":
            return st.cons.norm(blen(v))
        if v[0] == "L":
            r = 0
            for it in v[1]:
                if it[0] == "e":
                    r = add(r, 1)
                elif it[0] == "s":
                    r = add(r, it[4])
                else:
                    r = add(r, it[1])
            return st.cons.norm(r)
        if v[0] == "V":
            return self.length(st, self.cell(st, v[1]))
        raise Limit("length of %r" % (v[:2],))

    def bslice(self, st, b, off, ln):
        """bytes [off, off+ln) of b"""
        C = st.cons
        off = C.norm(off)
        ln = C.norm(ln)
        if ln == 0:
            return ("B", ())
        total = C.norm(blen(b))
        if off == 0 and C.same(ln, total):
            return b
        out = []
        pos = 0
        end = add(off, ln)
        for o, so, l in b[1]:
            se = add(pos, l)
            # relation of segment [pos,se) to [off,end)
            if C.ge0(sub(off, se)):
                pos = se
                continue
            if C.ge0(sub(pos, end)):
                break
            if C.ge0(sub(pos, off)):
                a = pos
            elif C.ge0(sub(off, pos)):
                a = off
            else:
                return self.mix(st, b, ln)
            if C.ge0(sub(end, se)):
                z = se
            elif C.ge0(sub(se, end)):
                z = end
            else:
                return self.mix(st, b, ln)
            if not C.ge0(sub(z, a)):
                return self.mix(st, b, ln)
            out.append((o, add(so, sub(a, pos)), sub(z, a)))
            pos = se
        r = ("B", bmerge(out, C))
        if not C.same(blen(r), ln):
            return self.mix(st, b, ln)
        return r

    def mix(self, st, b, ln):
        d = frozenset()
        for o, _, _ in b[1]:
            d |= deps_of_origin(o)
        return ("B", ((("mix", d), 0, ln),))

    def bsplice(self, st, b, off, ln, new):
        """replace [off,off+ln) by new (same length)"""
        C = st.cons
        total = blen(b)
        pre = self.bslice(st, b, 0, off)
        post = self.bslice(st, b, add(off, ln), sub(sub(total, off), ln))
        return ("B", bmerge(pre[1] + new[1] + post[1], C))

    def lslice(self, st, l, off, ln):
        off = st.cons.norm(off)
        ln = st.cons.norm(ln)
        if off == 0 and st.cons.same(ln, self.length(st, l)):
            return l
        its = l[1]
        if isinstance(off, int) and isinstance(ln, int) and all(i[0] == "e" for i in its[: off + ln]):
            return ("L", its[off : off + ln])
        if len(its) == 1 and its[0][0] == "s":
            _, k, t, o, _ = its[0]
            return ("L", (("s", k, t, add(o, off), ln),))
        # symbolic tail of a concrete prefix
        out = []
        pos = 0
        for it in its:
            if it[0] == "e":
                if st.cons.ge0(sub(pos, off)) and st.cons.ge0(sub(sub(add(off, ln), pos), 1)):
                    out.append(it)
                elif not (st.cons.ge0(sub(sub(off, pos), 1)) or st.cons.ge0(sub(pos, add(off, ln)))):
                    raise Limit("lslice")
                pos = add(pos, 1)
            else:
                raise Limit("lslice")
        return ("L", tuple(out))

    def slice_of(self, st, v, rng):
        v = self.res(st, v)
        if v[0] == "V":
            v = self.cell(st, v[1])
        if v[0] == "B":
            return self.bslice(st, v, rng[0], rng[1])
        if v[0] == "L":
            return self.lslice(st, v, rng[0], rng[1])
        raise Limit("slice of %r" % (v[:2],))

    def get(self, st, loc):
        c, path, rng = loc
        v = self.cell(st, c)
        for p in path:
            v = self.proj(st, v, p)
        if rng is not None:
            return self.slice_of(st, v, rng)
        return v

    def val(self, st, v):
        """resolve a value one level (ints become Lin/int)"""
        if is_num(v):
            return v
        if v[0] == "S":
            v = self.res(st, v)
        if not is_num(v) and v[0] == "I":
            return st.cons.norm(v[1])
        return v

    def set(self, st, loc, new):
        c, path, rng = loc
        if not path and rng is None:
            st.heap[c] = new
            return
        old = self.cell(st, c)
        st.heap[c] = self._set(st, old, path, 0, rng, new)

    def _set(self, st, v, path, i, rng, new):
        if i == len(path):
            if rng is None:
                return new
            v = self.res(st, v)
            if v[0] == "V":
                cc = v[1]
                st.heap[cc] = self._set(st, self.cell(st, cc), path, i, rng, new)
                return v
            if v[0] == "B":
                return self.bsplice(st, v, rng[0], rng[1], new)
            if v[0] == "L":
                pre = self.lslice(st, v, 0, rng[0])
                post = self.lslice(st, v, add(rng[0], rng[1]), sub(sub(self.length(st, v), rng[0]), rng[1]))
                return ("L", pre[1] + new[1] + post[1])
            raise Limit("set range")
        p = path[i]
        if not is_num(v):
            v = self.res(st, v)
        t = p[0]
        if t == "v":
            if v[0] == "S":
                v = self.expand(st, v, variant=p[1])
            return self._set(st, v, path, i + 1, rng, new)
        if t == "f":
            if v[0] == "U":
                # partial initialisation of an aggregate
                fs = [U] * (p[1] + 1)
                v = ("A", "part", 0, tuple(fs))
            if v[0] == "A":
                fs = list(v[3])
                while len(fs) <= p[1]:
                    fs.append(U)
                fs[p[1]] = self._set(st, fs[p[1]], path, i + 1, rng, new)
                return ("A", v[1], v[2], tuple(fs))
            if v[0] in ("R", "X", "V"):
                return self._set(st, v, path, i + 1, rng, new)
            raise Limit("set field of %r" % (v[:2],))
        if t == "i":
            if v[0] == "V":
                cc = v[1]
                st.heap[cc] = self._set(st, self.cell(st, cc), path, i, rng, new)
                return v
            idx = st.cons.norm(p[1])
            if v[0] == "B":
                nv = new
                if not is_num(nv):
                    nv = self.val(st, nv)
                o = ("lit", bytes([nv])) if isinstance(nv, int) else ("b1", nv)
                return self.bsplice(st, v, idx, 1, ("B", ((o, 0, 1),)))
            if v[0] == "L":
                its = list(v[1])
                if all(x[0] == "e" for x in its):
                    for j in range(len(its)):
                        if self.decide(st, self.mkeq(st, idx, j)):
                            its[j] = ("e", self._set(st, its[j][1], path, i + 1, rng, new))
                            return ("L", tuple(its))
                raise Limit("store into summarised list")
        raise Limit("set %r" % (p,))

    # ------------------------------------------------------------ places and operands
    def loc(self, st, fr, place):
        c, path, rng = fr[place[0]], (), None
        for e in place[1:]:
            if e == "D":
                v = self.get(st, (c, path, rng)) if rng is None else None
                v = self.res(st, v)
                while v[0] == "D":
                    v = self.res(st, v[1])
                if v[0] == "R":
                    c, path, rng = v[1], v[2], v[3]
                elif v[0] == "X":
                    c, path, rng = v[1], (), None
                elif v[0] == "V":
                    c, path, rng = v[1], (), (0, self.length(st, self.cell(st, v[1])))
                else:
                    raise Limit("deref of %r" % (v[:3],))
            else:
                k = e[0]
                if k == "f":
                    path = path + (("f", e[1]),)
                elif k == "v":
                    path = path + (("v", e[1]),)
                elif k == "i":
                    i = self.val(st, self.cell(st, fr[e[1]]))
                    if rng is not None:
                        i = add(rng[0], i)
                        rng = None
                    path = path + (("i", i),)
                elif k == "ci":
                    if rng is not None:
                        i = add(rng[0], e[1]) if not e[3] else sub(add(rng[0], rng[1]), e[1])
                        rng = None
                    else:
                        i = e[1] if not e[3] else sub(self.length(st, self.get(st, (c, path, None))), e[1])
                    path = path + (("i", st.cons.norm(i)),)
                elif k == "ss":
                    base, n = rng if rng is not None else (0, self.length(st, self.get(st, (c, path, None))))
                    if e[3]:
                        rng = (add(base, e[1]), sub(sub(n, e[1]), e[2]))
                    else:
                        rng = (add(base, e[1]), e[2] - e[1])
                else:
                    raise Limit("place %r" % (e,))
        return (c, path, rng)

    def read_place(self, st, fr, place):
        if len(place) == 1:
            return self.cell(st, fr[place[0]])
        return self.get(st, self.loc(st, fr, place))

    def const(self, k):
        r = self.constcache.get(id(k))
        if r is None:
            r = self._const(k.get("v"), k["t"]) if "v" in k else ("F", k["t"])
            self.constcache[id(k)] = r
        return r

    def _const(self, v, t):
        ty = self.p.ty(t)
        k = ty["k"]
        if "i" in v:
            if k == "bool":
                return bool(v["i"])
            return v["i"]
        if "s" in v:
            b = v["s"].encode("utf-8", "surrogatepass")
            return ("R", self.globcell(lit(b)), (), (0, len(b)))
        if "fndef" in v:
            return ("F", v["fndef"])
        if "fnptr" in v:
            return ("P", v["fnptr"])
        if "static" in v:
            c = ("static", v["static"])
            if c not in self.glob:
                sv = self.p.statics.get(v["static"])
                et = ty.get("elem")
                self.glob[c] = self._const(sv, et) if sv and et is not None else ("S", ("static", v["static"]), et)
            return ("R", c, (), None)
        if "r" in v:
            et = ty.get("elem")
            inner = self._const(v["r"], et)
            c = self.globcell(inner)
            e = self.p.ty(et)
            if e["k"] in ("slice", "str"):
                n = blen(inner) if inner[0] == "B" else len(inner[1])
                return ("R", c, (), (0, n))
            return ("R", c, (), None)
        if "b" in v:
            if k in ("ref", "ptr"):
                return ("R", self.globcell(lit(bytes(v["b"]))), (), (0, len(v["b"])))
            return lit(bytes(v["b"]))
        if "a" in v:
            et = ty.get("elem")
            return ("L", tuple(("e", self._const(x, et)) for x in v["a"]))
        if "adt" in v:
            vd = ty["variants"][v["adt"]]
            fs = []
            for x, (n, ft) in zip(v["f"], vd["fields"]):
                fs.append(self._const(x, ft) if ft is not None else ("T", "const?"))
            return ("A", t, v["adt"], tuple(fs))
        if "tup" in v:
            return ("A", "tuple", 0, tuple(self._const(x, ft) for x, ft in zip(v["tup"], ty["args"])))
        if "z" in v:
            return self.zst(t)
        if "addr" in v:
            return ("T", "addr", v["addr"])
        return ("S", ("const?", t), t)

    def zst(self, t):
        """the only value of a zero-sized type"""
        ty = self.p.ty(t)
        k = ty["k"]
        if k == "fndef":
            return ("F", t)
        if k == "tuple":
            return ("A", "tuple", 0, tuple(self.zst(x) for x in ty["args"])) if ty.get("args") else UNIT
        if k == "closure":
            return ("A", t, 0, tuple(self.zst(x) for x in ty.get("upvars", ())))
        if k == "adt" and ty.get("adt") == "struct" and ty.get("variants"):
            return ("A", t, 0, tuple(self.zst(x) if x is not None else UNIT for _, x in ty["variants"][0]["fields"]))
        return ("A", t, 0, ())

    def operand(self, st, fr, o):
        k = o[0]
        if k == "k":
            v = self.const(o[1])
            if type(v) is tuple and v[0] == "A" and isinstance(v[1], int):
                ty = self.p.ty(v[1])
                if ty.get("path") in EMPTY_OWNED:
                    # constants of owned containers can only be empty
                    u8 = ty["path"] != "alloc::vec::Vec" or self.is_u8(ty["args"][0])
                    return ("V", self.newcell(st, ("B", ()) if u8 else ("L", ())))
            return v
        if k in ("c", "m"):
            return self.read_place(st, fr, o[1])
        return False  # runtime checks

    # ------------------------------------------------------------ rvalues
    def as_int(self, st, v):
        v = self.val(st, v)
        if v is True:
            return 1
        if v is False:
            return 0
        if is_num(v):
            return v
        if v[0] == "C":
            return 1 if self.decide(st, v) else 0
        raise Limit("int expected, got %r" % (v[:2],))

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            p = rv[1]
            if len(p) >= 2 and p[-1] == "D" :
                l = self.loc(st, fr, p)
                return ("R",) + l
            return ("R",) + self.loc(st, fr, p)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                v = self.val(st, v)
                if v is True or v is False:
                    return not v
                if not is_num(v) and v[0] == "C":
                    return self.neg(v)
                ty = self.p.ty(rv[3])
                if isinstance(v, int):
                    return v ^ ((1 << ty["bits"]) - 1) if not ty["signed"] else ~v
                return fresh("not", 0, (1 << ty["bits"]) - 1)
            if rv[1] == "Neg":
                return mulc(self.as_int(st, v), -1)
            if rv[1] == "PtrMetadata":
                v = self.res(st, v)
                if v[0] == "R" and v[3] is not None:
                    return st.cons.norm(v[3][1])
                if v[0] == "V":
                    return self.length(st, v)
                return ("T", "meta", v)
            raise Limit("unop " + rv[1])
        if k == "disc":
            v = self.read_place(st, fr, rv[1])
            return self.disc(st, v, rv[2])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[4]]
            return self.aggregate(st, rv, ops)
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if is_num(v) or v[0] == "I":
                x = self.val(st, v)
                if x == 0:
                    # only byte arrays can be told apart by their declared type; callers fix up
                    return ("rep", 0, n)
                return ("rep", x, n)
            return ("L", tuple(("e", v) for _ in range(n))) if n <= 4096 else ("L", (("m", n, v, ("rep",)),))
        if k == "tls":
            return ("R", ("static", rv[1]), (), None)
        raise Limit("rvalue %s" % k)

    def fix_rep(self, v, tid):
        _, x, n = v
        ty = self.p.ty(tid)
        if ty["k"] == "array" and self.is_u8(ty["elem"]):
            if x == 0:
                return zeros(n)
            if isinstance(x, int):
                return lit(bytes([x]) * n)
            return seg(("mix", frozenset()), 0, n)
        if n > 4096:
            return ("L", (("m", n, x, ("rep",)),))
        return ("L", tuple(("e", x) for _ in range(n)))

    def aggregate(self, st, rv, ops):
        k, t, var = rv[1], rv[2], rv[3]
        if k == "array":
            if self.is_u8(t):
                segs = []
                for o in ops:
                    x = self.val(st, o)
                    if not is_num(x):
                        x = self.as_int(st, x)
                    segs.append(((("lit", bytes([x])) if isinstance(x, int) else ("b1", x)), 0, 1))
                return ("B", bmerge(segs, st.cons))
            return ("L", tuple(("e", o) for o in ops))
        if k == "tuple":
            return ("A", "tuple", 0, tuple(ops))
        if k == "rawptr":
            p = self.res(st, ops[0])
            m = self.val(st, ops[1])
            if p[0] == "R" and is_num(m):
                return ("R", p[1], p[2], (p[3][0] if p[3] else 0, m))
            return p
        if k == "adt":
            if len(rv) > 5 and rv[5] is not None:
                return ops[0]  # union
            path = self.p.ty(t).get("path")
            if path == "alloc::vec::Vec" and ops[-1] == 0:
                # Vec::new(), inlined
                return ("V", self.newcell(st, ("B", ()) if self.is_u8(self.p.ty(t)["args"][0]) else ("L", ())))
            if len(ops) == 1 and path in OWNED_WRAP and not is_num(ops[0]) and ops[0][0] == "V":
                return ops[0]
            return ("A", t, var, tuple(ops))
        return ("A", t, var, tuple(ops))

    def disc(self, st, v, tid):
        v = self.res(st, v)
        ty = self.p.ty(tid)
        vs = ty.get("variants")
        if v[0] == "A":
            if vs:
                return int(vs[v[2]]["discr"])
            return v[2]
        if v[0] == "S":
            d = self.discsym(v)
            if all(int(x["discr"]) == i for i, x in enumerate(vs)):
                return st.cons.norm(d)
            b = int(vs[0]["discr"])
            bits = 1 << 128
            if b > (1 << 100):
                b -= bits
            if b > 2**31:  # i8 -1 printed unsigned
                for w in (8, 16, 32, 64):
                    if b == (1 << w) - 1:
                        b = -1
            return st.cons.norm(add(d, b))
        if v[0] == "T":
            return sym(("disc", v), 0, max(0, len(vs) - 1))
        if v[0] == "U" and vs:  # value of a zero-sized type: its assignment was elided
            return int(vs[0]["discr"])
        raise Limit("discriminant of %r" % (v[:2],))

    CMP = {"Eq": "eq", "Ne": "ne"}

    def binop(self, st, op, a, b, tid):
        a = self.val(st, a)
        b = self.val(st, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and (not is_num(a) or not is_num(b)):
            if isinstance(a, bool) or isinstance(b, bool) or (not is_num(a) and a[0] == "C") or (not is_num(b) and b[0] == "C"):
                if a is True or a is False:
                    a, b = b, a
                if b is True or b is False:
                    if op == "Eq":
                        return a if b else (not a if isinstance(a, bool) else self.neg(a))
                    if op == "Ne":
                        return a if not b else (not a if isinstance(a, bool) else self.neg(a))
                a = self.as_int(st, a)
                b = self.as_int(st, b)
            elif op in ("Eq", "Ne"):
                if a == b:
                    return op == "Eq"
                return self.termbool(st, ("eq", a, b), op == "Ne")
            else:
                return self.termbool(st, (op, a, b), False)
        if isinstance(a, bool):
            if op in ("BitAnd", "BitOr", "BitXor") :
                if op == "BitAnd":
                    return b if a else False
                if op == "BitOr":
                    return True if a else b
                if isinstance(b, bool):
                    return a != b
                return self.neg(b) if a else b
            a = int(a)
        if isinstance(b, bool):
            if op in ("BitAnd", "BitOr", "BitXor"):
                return self.binop(st, op, b, a, tid)
            b = int(b)
        if op in ("BitAnd", "BitOr", "BitXor") and not is_num(a) and a[0] == "C":
            x = self.decide(st, a)
            return self.binop(st, op, x, b, tid)
        if op == "Offset":
            return ("T", "offset", a, b)
        if not is_num(a) or not is_num(b):
            return ("T", op, a, b)
        ty = self.p.ty(tid)
        if op == "Eq":
            return self._mkc(st, "eq", sub(a, b))
        if op == "Ne":
            return self._mkc(st, "ne", sub(a, b))
        if op == "Ge":
            return self._mkc(st, "ge", sub(a, b))
        if op == "Le":
            return self._mkc(st, "ge", sub(b, a))
        if op == "Gt":
            return self._mkc(st, "ge", sub(sub(a, b), 1))
        if op == "Lt":
            return self._mkc(st, "ge", sub(sub(b, a), 1))
        if op == "Cmp":
            if self.decide(st, self._mkc(st, "eq", sub(a, b))):
                r = 1
            elif self.decide(st, self._mkc(st, "ge", sub(a, b))):
                r = 2
            else:
                r = 0
            return ("A", "ordering", r, ())
        if op.endswith("WithOverflow"):
            r = self.arith(st, op[:3], a, b, ty)
            lo, hi = self.bounds(ty)
            ov = self.overflow(st, r, lo, hi)
            return ("A", "tuple", 0, (r, ov))
        if op.endswith("Unchecked"):
            op = op[: -len("Unchecked")]
        return self.arith(st, op, a, b, ty)

    def termbool(self, st, t, neg):
        c = ("C", "eq", sub(sym(("bool", t), 0, 1), 1))
        return self.neg(c) if neg else c

    def bounds(self, ty):
        if ty["k"] != "int":
            return None, None
        if ty["signed"]:
            return -(1 << (ty["bits"] - 1)), (1 << (ty["bits"] - 1)) - 1
        return 0, (1 << ty["bits"]) - 1

    def overflow(self, st, r, lo, hi):
        r = st.cons.norm(r)
        if isinstance(r, int):
            return not (lo <= r <= hi)
        lo_ok = st.cons.ge0(sub(r, lo))
        hi_ok = hi >= (1 << 60) or st.cons.ge0(sub(hi, r))
        if lo_ok and hi_ok:
            return False
        if not lo_ok:
            return ("C", "ge", sub(sub(lo, r), 1)) if hi_ok else self.termbool(st, ("ovf", r), False)
        return ("C", "ge", sub(sub(r, hi), 1))

    def arith(self, st, op, a, b, ty):
        a = st.cons.norm(a)
        b = st.cons.norm(b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            if isinstance(a, int):
                return mulc(b, a)
            if isinstance(b, int):
                return mulc(a, b)
            return sym(("mul", a, b), None, None)
        if op in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    return 0
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "Div" else a - q * b
            if isinstance(b, int) and b > 0 and st.cons.ge0(a):
                q = sym(("div", a, b), 0, 1 << 62)
                for f in (sub(a, mulc(q, b)), sub(add(mulc(q, b), b - 1), a)):
                    n = st.cons.add_ge(f)
                    if n is not None:
                        st.cons = n
                return st.cons.norm(q) if op == "Div" else st.cons.norm(sub(a, mulc(q, b)))
            return sym((op, a, b), None, None)
        if isinstance(a, int) and isinstance(b, int):
            bits = ty.get("bits", 64)
            m = (1 << bits) - 1
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "Shl":
                return (a << b) & m
            if op == "Shr":
                return a >> b
        lo, hi = self.bounds(ty)
        return sym((op, a, b), lo, hi)

    def cast(self, st, kind, v, ft, tt):
        if kind.startswith("IntToInt"):
            x = self.val(st, v)
            if isinstance(x, bool):
                return int(x)
            if not is_num(x) and x[0] == "C":
                return self.as_int(st, x)
            if not is_num(x):
                if x[0] in ("A", "S"):  # fieldless enum as int
                    return self.disc(st, x, ft)
                return ("T", "cast", x)
            t = self.p.ty(tt)
            lo, hi = self.bounds(t)
            if lo is None:
                return x
            if isinstance(x, int):
                if lo <= x <= hi:
                    return x
                w = x & ((1 << t["bits"]) - 1)
                if t["signed"] and w > hi:
                    w -= 1 << t["bits"]
                return w
            if st.cons.ge0(sub(x, lo)) and (hi >= (1 << 60) or st.cons.ge0(sub(hi, x))):
                return x
            # may wrap
            if self.decide(st, ("C", "ge", sub(x, lo))) and (hi >= (1 << 60) or self.decide(st, ("C", "ge", sub(hi, x)))):
                return x
            return sym(("wrap", x, t["bits"]), lo, min(hi, 1 << 62))
        if kind == "Unsize":
            v = self.res(st, v)
            f = self.p.ty(ft)
            t = self.p.ty(tt)
            fe = f.get("elem") if f["k"] in ("ref", "ptr") else (f["args"][0] if f.get("args") else None)
            te = t.get("elem") if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else None)
            if te is not None and self.p.ty(te)["k"] == "slice" and fe is not None and self.p.ty(fe)["k"] == "array":
                n = self.p.ty(fe)["len"]
                if v[0] == "R":
                    return ("R", v[1], v[2], (0, n))
                if v[0] == "X":
                    return ("V", v[1])
            if te is not None and self.p.ty(te)["k"] == "dyn" and fe is not None:
                return ("D", v, fe)
            return v
        if kind.startswith("ReifyFnPointer") or kind.startswith("ClosureFnPointer") or kind.startswith("UnsafeFnPointer"):
            return v
        return v

    # ------------------------------------------------------------ execution
    def run_root(self, name, args=None, st=None):
        ii = self.p.roots[name]
        body = self.p.insts[ii]["body"]
        st = st or State()
        if args is None:
            args = []
            names = {l: n for l, n in body["names"]}
            for i in range(1, body["argc"] + 1):
                args.append(self.S((names.get(i, "arg%d" % i),), body["locals"][i]))
        return self.call_inst(st, ii, args)

    def run_inst(self, st, ii, args):
        return self.call_inst(st, ii, args)

    def call_inst(self, st, ii, args):
        inst = self.p.insts[ii]
        body = inst.get("body")
        if body is None:
            return self.unknown(st, ii, args)
        self.used.add(ii)
        self.calls += 1
        self.depth += 1
        if self.depth > 220:
            self.depth -= 1
            raise Limit("call depth")
        info = self.p.body_info(ii)
        nl = len(body["locals"])
        base = self.ncell
        self.ncell += nl
        fr = list(range(base + 1, base + nl + 1))
        spread = body.get("spread")
        if spread is not None:
            # arguments arrive as a tuple in the spread local already
            pass
        for i, a in enumerate(args):
            if i + 1 < nl:
                st.heap[fr[i + 1]] = a
        st.frames = st.frames + (tuple(fr),)
        self.stack.append([inst["path"], None])
        out = []
        try:
            work = [(st, 0, (), ())]
            heads = {}
            dead = set()  # superseded loop states; what descends from them is covered by their successors
            fin = []
            while work:
                s, bb, ctx, lin = work.pop()
                if dead and not dead.isdisjoint(lin):
                    continue
                if bb in info.heads:
                    s, ctx, lin = self.at_head(s, fr, info, bb, heads, ctx, lin, dead)
                    if s is None:
                        continue
                nxt = []
                try:
                    self.block(s, fr, body, bb, nxt, out)
                except Infeasible:
                    pass
                if out:
                    fin += [(s2, lin) for s2 in out]
                    out.clear()
                for s2, b2 in nxt:
                    work.append((s2, b2, tuple(x for x in ctx if b2 in info.loops[x[0]]) if ctx else ctx, lin))
            out = [s2 for s2, lin in fin if dead.isdisjoint(lin)]
        except Exception as x:
            if not hasattr(x, "trace"):
                x.trace = [(a, b and "%s:%d" % (self.p.files[b[0]].split("/")[-1], b[1])) for a, b in self.stack]
            raise
        finally:
            self.stack.pop()
            self.depth -= 1
        res = []
        frset = fr
        for s in out:
            rv = s.heap.get(fr[0], UNIT if self.p.ty(body["locals"][0])["s"] == "()" else U)
            if rv == U:
                rv = UNIT
            for c in frset:
                s.heap.pop(c, None)
            s.frames = s.frames[:-1]
            res.append((s, rv))
        if len(res) > 1:
            res = self.merge_results(res)
            if len(res) > 1 and getattr(self.mon, "merging", None) == inst.get("crate"):
                res = self.join_results(res)
        return res

    def join_results(self, res):
        """joins outcomes of a call that return the same value and that the monitor does not tell apart"""
        from natives import snap

        out = []
        for s, v in res:
            self.mon.settle(self, s, v)
            try:
                x = snap(self, s, v)
                k = (x, v if isinstance(v, bool) or is_num(v) else (v[0], v[1] if isinstance(v[1], (int, str)) else None), frozenset((k, m) for k, m in s.mon.items() if k != "#phi"), s.taint)
            except (Limit, TypeError, NeedFork):
                out.append([None, s, v])
                continue
            c = "ret"
            s.heap[c] = v
            s.frames = s.frames + ((c,),)
            done = False
            for o in out:
                if o[0] != k:
                    continue
                try:
                    j = Joiner(self, o[1], s, False).join()
                except Mismatch:
                    continue
                o[1], done = j, True
                break
            if not done:
                out.append([k, s, None])
        r = []
        for k, s, v in out:
            if k is not None:
                v = s.heap.pop("ret")
                s.frames = s.frames[:-1]
            r.append((s, v))
        return r

    def merge_results(self, res):
        seen = {}
        out = []
        for s, v in res:
            try:
                k = (v, s.cons.key(), s.log, frozenset(s.mon.items()), s.taint, frozenset(s.binds.items()), frozenset(self.reach(s, v).items()))
            except TypeError:
                out.append((s, v))
                continue
            if k in seen:
                continue
            seen[k] = True
            out.append((s, v))
        return out

    def reach(self, st, *extra):
        """heap restricted to what is reachable from the live frames"""
        seen = {}
        todo = []
        anys = {}
        for k in st.binds:
            i = anyid(k)
            if i is not None:
                anys.setdefault(i, []).append(k)
        live = set()

        def scan(v):
            stack = [v]
            while stack:
                x = stack.pop()
                if isinstance(x, tuple):
                    if len(x) >= 2:
                        if x[0] in ("R", "X", "V", "O"):
                            c = x[1] if x[0] != "O" else x[2]
                            if c not in seen and c in st.heap:
                                seen[c] = st.heap[c]
                                todo.append(c)
                        elif x[0] == "any" and x[1] not in live:
                            live.add(x[1])
                            for k in anys.get(x[1], ()):
                                stack.append(st.binds[k])
                    stack.extend(x)
                elif isinstance(x, Lin):
                    for k, _ in x.t:
                        stack.append(TAB.info[k][0])
                elif isinstance(x, frozenset):
                    stack.extend(x)

        for f in st.frames:
            for c in f:
                if c in st.heap and c not in seen:
                    seen[c] = st.heap[c]
                    todo.append(c)
        weak = []
        for k, b in st.binds.items():
            if anyid(k) is None:
                if indexed(k) and self.pristine(st, b):
                    weak.append(k)
                else:
                    scan(b)
        for m in st.mon.values():
            scan(m)
        for e in extra:
            scan(e)
        while todo:
            scan(st.heap[todo.pop()])
        self.live_any = live
        # expansions of list elements that can be made again when they are needed again
        self.weak = {k for k in weak if not (isinstance(st.binds[k], tuple) and len(st.binds[k]) > 1 and st.binds[k][1] in seen)}
        return seen

    def pristine(self, st, b):
        """a lazily made value whose content cell has not been written since"""
        return isinstance(b, tuple) and len(b) > 1 and b[0] in ("V", "R") and isinstance(b[1], tuple) and b[1][:1] == ("c",) and b[1] in self.inits and st.heap.get(b[1]) == self.inits[b[1]]

    def fork_on(self, st, e):
        """states refined by the alternatives of a NeedFork"""
        r = []
        for c in e.conds:
            s = st.fork()
            s.nf += 1
            s.last = hard(st, c)
            if self.assume(s, c):
                r.append(s)
        return r

    def block(self, st, fr, body, bb, work, out):
        stmts, term, _ = body["blocks"][bb]
        i = 0
        n = len(stmts)
        self.steps += n + 1
        if self.steps > self.MAXSTEPS:
            raise Limit("step limit")
        pend = [(st, 0)]
        while pend:
            s, i = pend.pop()
            ok = True
            while i < n:
                try:
                    self.stmt(s, fr, body, stmts[i])
                except NeedFork as e:
                    for s2 in self.fork_on(s, e):
                        pend.append((s2, i))
                    ok = False
                    break
                i += 1
            if ok:
                self.term(s, fr, body, term, work, out)

    def stmt(self, st, fr, body, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fr, s[2])
            place = s[1]
            if type(v) is tuple and v[0] == "rep":
                v = self.fix_rep(v, self.place_ty(body, place))
            if type(v) is tuple and len(v) == 4 and v[1] == "ordering":
                pass
            if len(place) == 1:
                st.heap[fr[place[0]]] = v
            else:
                self.set(st, self.loc(st, fr, place), v)
        elif k == "sd":
            l = self.loc(st, fr, s[1])
            v = self.get(st, l)
            v = self.res(st, v)
            if v[0] == "A":
                self.set(st, l, ("A", v[1], s[2], v[3]))
            else:
                self.set(st, l, ("A", "part", s[2], ()))
        elif k == "cno":
            raise Limit("copy_nonoverlapping")

    def place_ty(self, body, place):
        t = body["locals"][place[0]]
        for e in place[1:]:
            ty = self.p.ty(t) if t is not None else None
            if e == "D":
                t = ty.get("elem") if ty["k"] in ("ref", "ptr") else ty["args"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = ty.get("elem")
        return t

    def term(self, st, fr, body, t, work, out):
        k = t[0]
        if k == "goto":
            work.append((st, t[1]))
        elif k == "ret":
            out.append(st)
        elif k == "sw":
            self.stack[-1][1] = t[5]
            try:
                v = self.val(st, self.operand(st, fr, t[1]))
            except NeedFork as e:
                for s2 in self.fork_on(st, e):
                    self.term(s2, fr, body, t, work, out)
                return
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                for x, b in t[2]:
                    if x == v:
                        work.append((st, b))
                        return
                work.append((st, t[3]))
                return
            if type(v) is tuple and v[0] == "C":
                r = self.cond_status(st, v)
                alts = [(False, x[1]) for x in t[2] if x[0] == 0] + [(True, x[1]) for x in t[2] if x[0] == 1]
                if len(alts) < 2:
                    alts.append((not alts[0][0], t[3]))
                for truth, b in alts:
                    if r is None:
                        s2 = st.fork()
                        s2.nf += 1
                        if self.assume(s2, v if truth else self.neg(v)):
                            work.append((s2, b))
                    elif r == truth:
                        work.append((st, b))
                return
            if isinstance(v, Lin):
                s = st
                alts = []
                rest = st.fork()
                for x, b in t[2]:
                    s2 = rest.fork()
                    if self.assume(s2, self._mkc(s2, "eq", sub(v, x))):
                        alts.append((s2, b))
                    if not self.assume(rest, self._mkc(rest, "ne", sub(v, x))):
                        rest = None
                        break
                if rest is not None:
                    # skip an otherwise edge that is marked unreachable
                    tb = body["blocks"][t[3]]
                    if not (tb[1][0] == "unreach" and not tb[0]):
                        alts.append((rest, t[3]))
                for s2, b in alts:
                    if len(alts) > 1:
                        s2.nf += 1
                    work.append((s2, b))
                return
            if type(v) is tuple and v[0] == "A" and v[1] == "ordering":
                d = v[2] - 1
                for x, b in t[2]:
                    if x == d or x == d & 0xFF:
                        work.append((st, b))
                        return
                work.append((st, t[3]))
                return
            if type(v) is tuple and v[0] == "T":
                self.taint(st, "switch on opaque value " + str(v[1]))
                for x, b in t[2]:
                    work.append((st.fork(), b))
                work.append((st, t[3]))
                return
            raise Limit("switch on %r" % (v[:2],))
        elif k == "drop":
            self.stack[-1][1] = t[4]
            if self.p.needs_drop(t[3]):
                for s2 in self.drop_place(st, fr, t[1], t[3]):
                    work.append((s2, t[2]))
            else:
                work.append((st, t[2]))
        elif k == "call":
            self.stack[-1][1] = t[6]
            try:
                args = [self.operand(st, fr, o) for o in t[3]]
                f = self.operand(st, fr, t[1])
            except NeedFork as e:
                for s2 in self.fork_on(st, e):
                    self.term(s2, fr, body, t, work, out)
                return
            res = self.call(st, f, t[2], args, t[7], t[8])
            if t[5] is None:
                return
            for s2, v in res:
                if type(v) is tuple and v[0] == "rep":
                    v = self.fix_rep(v, t[8])
                if len(t[4]) == 1:
                    s2.heap[fr[t[4][0]]] = v
                else:
                    self.set(s2, self.loc(s2, fr, t[4]), v)
                work.append((s2, t[5]))
        elif k == "assert":
            self.stack[-1][1] = t[6]
            if t[3] == "other":  # alignment and null checks of the debug build
                work.append((st, t[5]))
                return
            try:
                c = self.val(st, self.operand(st, fr, t[1]))
                r = self.cond_status(st, c)
            except NeedFork as e:
                for s2 in self.fork_on(st, e):
                    self.term(s2, fr, body, t, work, out)
                return
            want = t[2]
            if r is None:
                bad = st.fork()
                bad.nf += 1
                bad.last = hard(st, c)
                if self.assume(bad, c if not want else self.neg(c)):
                    self.panic(bad, t[3], maybe=True)
                if self.assume(st, c if want else self.neg(c)):
                    work.append((st, t[5]))
            elif r == want:
                work.append((st, t[5]))
            else:
                self.panic(st, t[3])
        elif k in ("unreach", "end"):
            return
        else:
            raise Limit("terminator " + k)

    def panic(self, st, what, maybe=False):
        if maybe and st.last:
            # reached by a split on inputs alone
            maybe = False
        if self.mon:
            self.mon.on_panic(self, st, what, maybe)

    def taint(self, st, why):
        st.taint = st.taint | {why}
        self.unmodelled[why] = self.unmodelled.get(why, 0) + 1

    # ------------------------------------------------------------ drops
    def drop_place(self, st, fr, place, tid):
        try:
            l = self.loc(st, fr, place)
        except NeedFork as e:
            r = []
            for s2 in self.fork_on(st, e):
                r += self.drop_place(s2, fr, place, tid)
            return r
        return self.drop_loc(st, l, tid)

    def drop_loc(self, st, l, tid):
        if not self.p.needs_drop(tid):
            return [st]
        ty = self.p.ty(tid)
        states = [st]
        if tid in self.p.drops:
            ns = []
            for s in states:
                for s2, _ in self.call_inst(s, self.p.drops[tid], [("R",) + l]):
                    ns.append(s2)
            states = ns
        k = ty["k"]
        out = []
        for s in states:
            try:
                v = self.get(s, l)
                if not is_num(v):
                    v = self.res(s, v)
            except Limit:
                out.append(s)
                continue
            if is_num(v) or v[0] == "U":
                out.append(s)
                continue
            cur = [s]
            if v[0] == "O" and v[1] == "bufw":
                # unwritten data is written out when a buffered writer is dropped, and a failure of that goes unnoticed
                x = self.cell(s, v[2])
                if x[3][1] is True:
                    s2 = s.fork()
                    s2.nf += 1
                    self.event(s2, "fail", "flush on drop", None)
                    cur.append(s2)
            elif v[0] == "A":
                fts = self.field_types(ty, v[2])
                for i, ft in enumerate(fts):
                    if ft is not None and i < len(v[3]) and self.p.needs_drop(ft):
                        nx = []
                        for c in cur:
                            nx += self.drop_loc(c, (l[0], l[1] + (("f", i),), None), ft)
                        cur = nx
            elif v[0] == "X" and k == "adt" and ty["args"]:
                a = ty["args"][0]
                if self.p.needs_drop(a):
                    nx = []
                    for c in cur:
                        nx += self.drop_loc(c, (v[1], (), None), a)
                    cur = nx
            out += cur
        return out

    def field_types(self, ty, variant):
        k = ty["k"]
        if k == "adt":
            vs = ty["variants"]
            if variant < len(vs):
                return [t for _, t in vs[variant]["fields"]]
            return []
        if k == "tuple":
            return ty["args"]
        if k == "closure":
            return ty["upvars"]
        return []

    # ------------------------------------------------------------ calls
    def call(self, st, f, fty, args, argtys, dty):
        ty = self.p.ty(fty)
        if ty["k"] == "fndef":
            if "ctor" in ty:
                return [(st, ("A", ty["ctor"][0], ty["ctor"][1], tuple(args)))]
            ii = ty.get("inst")
            if ii is None:
                self.taint(st, "unresolved " + ty["s"])
                return [(st, self.S(("ret", ty["s"], self.ncell), dty))]
            inst = self.p.insts[ii]
            if inst["path"].endswith("}") and "{closure#" in inst["path"] and len(args) == 2 and inst.get("body"):
                # closures are called through Fn*::call*(closure, (args,)); their bodies take the arguments apart
                body = inst["body"]
                tup = self.res(st, args[1]) if not is_num(args[1]) else args[1]
                if not is_num(tup) and tup == UNIT:
                    rest = []
                elif not is_num(tup) and tup[0] == "A":
                    rest = list(tup[3])
                else:
                    rest = [self.proj(st, tup, ("f", i)) for i in range(body["argc"] - 1)]
                a0 = args[0]
                if self.p.ty(body["locals"][1])["k"] == "ref" and not (not is_num(a0) and self.res(st, a0)[0] == "R"):
                    a0 = ("R", self.newcell(st, a0), (), None)
                return self.call_any(st, ii, [a0] + rest, [None] * (1 + len(rest)), dty)
            return self.call_any(st, ii, args, argtys, dty)
        f = self.res(st, f)
        return self.call_value(st, f, args, dty)

    def call_value(self, st, f, args, dty):
        """call through a function pointer / fn item value with plain arguments"""
        f = self.res(st, f)
        if f[0] == "F":
            return self.call(st, f, f[1], args, [None] * len(args), dty)
        if f[0] == "P":
            return self.call_any(st, f[1], args, [None] * len(args), dty)
        if f[0] == "A" and isinstance(f[1], int) and self.p.ty(f[1])["k"] == "closure":
            return self.call_closure(st, f, None, args, dty)
        self.taint(st, "call through opaque function value")
        return [(st, self.S(("ret", "fnptr", self.ncell), dty))]

    def call_closure(self, st, clo, ref, args, dty):
        """invoke closure value `clo` (or by reference `ref`) on the argument list"""
        t = self.p.ty(clo[1])
        ii = t["inst"]
        body = self.p.insts[ii].get("body")
        if body is None:
            self.taint(st, "closure without body")
            return [(st, self.S(("ret", "closure", self.ncell), dty))]
        a0t = self.p.ty(body["locals"][1])
        if a0t["k"] == "ref":
            self_arg = ref if ref is not None else ("R", self.newcell(st, clo), (), None)
        else:
            self_arg = clo
        return self.call_inst(st, ii, [self_arg] + list(args))

    def call_any(self, st, ii, args, argtys, dty):
        inst = self.p.insts[ii]
        nat = self.natives.lookup(self, ii, inst)
        if nat is not None:
            return self.call_native(st, nat, ii, inst, args, argtys, dty)
        return self.call_plain(st, ii, inst, args, dty)

    def call_plain(self, st, ii, inst, args, dty):
        if "model" in inst:
            return self.call_inst(st, inst["model"], args)
        if "body" in inst:
            return self.call_inst(st, ii, args)
        m = re.match(r"^<(.*) as core::cmp::PartialEq>::(eq|ne)$", inst["path"])
        if m and len(args) == 2:
            r = self.enum_eq(st, args, m.group(2) == "ne")
            if r is not None:
                return r
        return self.unknown(st, ii, args, dty)

    def enum_eq(self, st, args, neg):
        """equality of values of an enum of another crate, where the discriminants settle it"""
        vs = []
        for a in args:
            a = self.res(st, a)
            while a[0] == "R" and a[3] is None:
                a = self.res(st, self.get(st, a[1:4]))
            tid = a[1] if a[0] == "A" else a[2] if a[0] == "S" else None
            if not isinstance(tid, int) or self.p.ty(tid).get("adt") != "enum":
                return None
            vs.append((a, tid, self.p.ty(tid)["variants"]))
        if vs[0][1] != vs[1][1]:
            return None
        x, y = (self.disc(st, a, t) for a, t, _ in vs)
        out = []
        for i, v in enumerate(vs[0][2]):
            s = st.fork()
            d = int(v["discr"])
            if self.assume(s, self.mkeq(s, x, d)) and self.assume(s, self.mkeq(s, y, d)):
                if v["fields"]:
                    return None
                out.append((s, not neg))
        s = st.fork()
        if self.assume(s, self.neg(self.mkeq(s, x, y))):
            out.append((s, neg))
        if len(out) > 1:
            for s, _ in out:
                s.nf += 1
        return out

    def event(self, st, kind, *args):
        if self.mon is not None:
            self.mon.event(self, st, kind, args)

    def decide_ok(self, st, c):
        return self.decide(st, c)

    def call_native(self, st, nat, ii, inst, args, argtys, dty):
        out = []
        st.last = None
        todo = [st]
        n = 0
        while todo:
            s0 = todo.pop()
            s = s0.fork()
            n += 1
            if n > 400:
                raise Limit("native fork limit " + inst["path"])
            try:
                r = nat(self, s, Call(ii, inst, args, argtys, dty))
                if r is NH:
                    out += self.call_plain(s0, ii, inst, args, dty)
                    continue
            except NeedFork as e:
                todo += self.fork_on(s0, e)
                continue
            except Infeasible:
                continue
            except Limit as e:
                s = s0.fork()
                out += self.unknown(s, ii, args, dty, why=str(e))
                continue
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append((s, r))
        return out

    def unknown(self, st, ii, args, dty=None, why=""):
        inst = self.p.insts[ii]
        self.taint(st, "unmodelled " + inst["path"] + (" (%s)" % why if why else ""))
        for a in args:
            self.havoc(st, a)
        if dty is None:
            b = inst.get("body")
            dty = b["locals"][0] if b else None
        self.ncell += 1
        if dty is None:
            return [(st, ("T", "unk", inst["path"], self.ncell))]
        if self.p.ty(dty)["k"] == "never":
            return []
        return [(st, self.S(("ret", inst["path"], self.ncell), dty))]

    def havoc(self, st, a):
        if is_num(a) or a[0] != "R":
            return

    # ------------------------------------------------------------ loop heads
    def at_head(self, st, fr, info, bb, heads, ctx, lin, dead):
        """fixpoint at a loop head; every entry into the loop has its own chain of abstract states"""
        chains = heads.setdefault(bb, [])
        self.loops += 1
        st = self.gc_at(st, fr, info.live[bb])
        for gs in chains:
            for g in gs:
                if dead and not dead.isdisjoint(g[2]):
                    continue
                try:
                    if Matcher(self, g[0], st).subsumes():
                        return None, ctx, lin
                except Mismatch:
                    pass
        cid = None
        for h, c in ctx:
            if h == bb:
                cid = c
        self.nver += 1
        ver = self.nver
        if cid is None:
            chains.append([[st, 0, lin, ver]])
            if len(chains) > 2000:
                raise Limit("too many loop entries")
            return st.fork(), ctx + ((bb, len(chains) - 1),), lin + (ver,)
        gs = chains[cid]
        if len(gs) > 3000:
            raise Limit("too many loop states")
        best = None
        for g in reversed(gs):
            if dead and not dead.isdisjoint(g[2]):
                continue
            # deterministic progress: unroll
            if len(gs) < 60 and g[0].nf == st.nf and g[1] < 1:
                continue
            try:
                j = Joiner(self, g[0], st, g[1] >= 4).join()
            except Mismatch:
                continue
            best = (g, j)
            break
        if best is None:
            gs.append([st, 0, lin, ver])
            return st.fork(), ctx, lin + (ver,)
        g, j = best
        if DEBUG and DEBUG in self.stack[-1][0]:
            dump_join(self, bb, g[0], st, j)
        gs.remove(g)
        dead.add(g[3])
        gs.append([j, g[1] + 1, g[2], ver])
        if g[1] > 25:
            raise Limit("no fixpoint")
        return j.fork(), ctx, g[2] + (ver,)

    def gc_at(self, st, fr, live):
        for i, c in enumerate(fr):
            if i not in live and c in st.heap:
                # keep if referenced from something live: decided by reachability below
                pass
        saved = {}
        for i, c in enumerate(fr):
            if i not in live and c in st.heap:
                saved[c] = st.heap[c]
        if saved:
            # reachability from live roots
            tmp = st.heap
            frames = st.frames
            livefr = tuple(c for i, c in enumerate(fr) if i in live)
            st.frames = frames[:-1] + (livefr,)
            r = self.reach(st)
            st.heap = dict(r)
            st.frames = frames
        else:
            st.heap = dict(self.reach(st))
        # values drawn from summarised lists that nothing refers to any more
        live = self.live_any
        weak = self.weak
        dead = [k for k in st.binds if k in weak or anyid(k) is not None and anyid(k) not in live]
        if dead:
            st.binds = {k: v for k, v in st.binds.items() if k not in weak and (anyid(k) is None or anyid(k) in live)}
        c = st.cons

        def gone(f):
            for k in syms(f):
                i = symany(k)
                if i is not None and i not in live:
                    return True
            return False

        if any(gone(f) for f in c.ge) or any(gone(f) for f in c.ne) or any(symany(k) is not None and symany(k) not in live for k in c.eq):
            st.cons = Cons(
                tuple(f for f in c.ge if not gone(f)),
                frozenset(f for f in c.ne if not gone(f)),
                {k: v for k, v in c.eq.items() if not (symany(k) is not None and symany(k) not in live) and not gone(v)},
            )
        return st


def anyid(key):
    """identity of the summarised element a key belongs to"""
    if isinstance(key, tuple):
        if len(key) >= 2 and key[0] == "any" and isinstance(key[1], int):
            return key[1]
        for x in key:
            if isinstance(x, tuple):
                i = anyid(x)
                if i is not None:
                    return i
    return None


INDEXED = {}


def indexed(key):
    """the key of a list element at a computed index"""
    r = INDEXED.get(key)
    if r is None:
        r = INDEXED[key] = any(isinstance(x, Lin) or isinstance(x, tuple) and indexed(x) for x in key) if isinstance(key, tuple) else False
    return r


def livebinds(e, st):
    """the lazily expanded values, without those of elements nothing refers to any more"""
    if all(anyid(k) is None for k in st.binds):
        return dict(st.binds)
    e.reach(st)
    return {k: v for k, v in st.binds.items() if anyid(k) is None or anyid(k) in e.live_any}


SYMANY = {}


def symany(k):
    if k not in SYMANY:
        SYMANY[k] = anyid(TAB.info[k][0])
    return SYMANY[k]


DEBUG = None


def dump_join(e, bb, g, s, j):
    print("== JOIN bb%d %s" % (bb, e.stack[-1]))
    def show(n, st):
        print(" --", n)
        for c in sorted(st.heap, key=str):
            print("    %s: %s" % (c, str(st.heap[c])[:400]))
        print("    mon", {k: v for k, v in st.mon.items() if k != "#phi"})
        print("    log", str(st.log)[:300])
        print("    ge", st.cons.ge, "ne", st.cons.ne, "eq", {keyname(TAB.info[k][0]): v for k, v in st.cons.eq.items()})
        print("    binds", str(st.binds)[:300])
    show("G", g)
    show("S", s)
    show("J", j)


class Call:
    __slots__ = ("ii", "inst", "args", "argtys", "dty")

    def __init__(self, ii, inst, args, argtys, dty):
        self.ii, self.inst, self.args, self.argtys, self.dty = ii, inst, args, argtys, dty


def walk_syms(v, acc):
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Lin):
            for k, _ in x.t:
                acc.add(k)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return acc


class Matcher:
    """does the generalised state G cover S?"""

    def __init__(self, eng, g, s):
        self.e, self.g, self.s = eng, g, s
        self.cells = {}
        self.bind = {}
        self.later = []
        self.phi = g.mon.get("#phi", frozenset())

    def subsumes(self):
        g, s = self.g, self.s
        if len(g.frames) != len(s.frames) or g.taint - s.taint:
            return False
        if s.taint - g.taint:
            return False
        if len(s.log) < len(g.log):
            return False
        self.val(g.log, s.log)
        if set(g.mon) - {"#phi"} != set(s.mon) - {"#phi"}:
            return False
        for k in g.mon:
            if k != "#phi":
                self.val(g.mon[k], s.mon[k])
        for f in g.frames:
            for c in f:
                if (c in g.heap) != (c in s.heap):
                    return False
                if c in g.heap:
                    self.cell(c, c)
        gb, sb = g.binds, s.binds
        for k in gb:
            if k in sb:
                self.val(gb[k], sb[k])
        for k in sb:
            if k not in gb:
                # expanded later: compare with the initial expansion
                v = sb[k]
                for c in self.cellsof(v):
                    if c in s.heap and c not in self.cells:
                        if isinstance(k, tuple) and k[0] == "any" and len(k) >= 2 and not self.mentioned(k[:2]):
                            break  # an element that G knows nothing about
                        return False if not self.initial(k, c) else True and self._ok(k)
        # resolve remaining linear constraints
        S = s.cons
        for a, b in self.later:
            a2 = substs(a, self.bind)
            un = [k for k in syms(a2) if k in self.phi and k not in self.bind]
            if len(un) == 1:
                co = dict(a2.t)[un[0]]
                if co in (1, -1):
                    rest = sub(b, mk(a2.c, {k: v for k, v in a2.t if k != un[0]}))
                    self.bind[un[0]] = mulc(rest, co)
                    continue
            if not S.same(a2, b):
                return False
        for k, v in g.cons.eq.items():
            if k in self.phi and k not in self.bind:
                # a symbol that only occurs in its definition
                self.bind[k] = substs(v, self.bind)
        for f in g.cons.ge:
            if not S.ge0(substs(f, self.bind)):
                return False
        for f in g.cons.ne:
            if not S.ne0(substs(f, self.bind)):
                return False
        for k, v in g.cons.eq.items():
            if not S.same(substs(Lin(0, ((k, 1),)), self.bind), substs(v, self.bind)):
                return False
        return True

    def mentioned(self, root):
        """does G hold the symbolic value with this key, or a part of it?"""
        g = self.g
        stack = [g.log, tuple(v for k, v in g.mon.items() if k != "#phi"), tuple(g.heap.values()), tuple(g.heap), tuple(g.binds)]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if x[:2] == root:
                    return True
                stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
            elif isinstance(x, frozenset):
                stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        return False

    def cellsof(self, v):
        r = []
        stack = [v]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] in ("R", "X", "V"):
                    r.append(x[1])
                elif len(x) >= 3 and x[0] == "O":
                    r.append(x[2])
                stack.extend(y for y in x if isinstance(y, tuple))
        return r

    def initial(self, k, c):
        tmp = self.g.fork()
        v = ("S", k, self.e_tid(k))
        if v[2] is None:
            return False
        self.e.expand(tmp, v)
        return tmp.heap.get(c) == self.s.heap.get(c)

    def e_tid(self, k):
        return None

    def _ok(self, k):
        return True

    def cell(self, a, b):
        if self.cells.get(a) is not None:
            if self.cells[a] != b:
                raise Mismatch
            return
        self.cells[a] = b
        ga = self.g.heap.get(a)
        sb = self.s.heap.get(b)
        if ga is None or sb is None:
            if a == b and ga == sb:
                return
            raise Mismatch
        self.val(ga, sb)

    def num(self, a, b):
        b = self.s.cons.norm(b) if not isinstance(b, int) else b
        if isinstance(a, int):
            if a != b and not self.s.cons.same(a, b):
                raise Mismatch
            return
        ph = [k for k in syms(a) if k in self.phi]
        if not ph:
            if a != b and not self.s.cons.same(a, b):
                raise Mismatch
            return
        if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1:
            k = a.t[0][0]
            if k in self.bind:
                if not self.s.cons.same(self.bind[k], b):
                    raise Mismatch
            else:
                self.bind[k] = b
            return
        self.later.append((a, b))

    def val(self, a, b):
        if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
            return self.num(a, b)
        if isinstance(a, (bool, str, bytes)) or a is None:
            if a != b or type(a) != type(b):
                raise Mismatch
            return
        if isinstance(a, frozenset):
            if a != b:
                raise Mismatch
            return
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            raise Mismatch
        if a and b:
            t = a[0]
            if t == "B" and b[0] == "B":
                return self.bytes(a, b)
            if t == "L" and b[0] == "L":
                return self.list(a, b)
            if t == "any#":
                return
            if t in ("R", "X", "V") and t == b[0]:
                self.cell(a[1], b[1])
                if t == "R":
                    self.val(a[2], b[2])
                    if (a[3] is None) != (b[3] is None):
                        raise Mismatch
                    if a[3] is not None:
                        self.num(a[3][0], b[3][0])
                        self.num(a[3][1], b[3][1])
                return
            if t == "O" and b[0] == "O":
                if a[1] != b[1]:
                    raise Mismatch
                self.cell(a[2], b[2])
                return
            if t == "loop" and b[0] == "loop":
                if not b[2] <= a[2]:
                    raise Mismatch
                return
        if len(a) != len(b):
            raise Mismatch
        for x, y in zip(a, b):
            self.val(x, y)

    def bytes(self, a, b):
        # G segments may cover several of S (mix) or be empty
        ga, sb = bmerge(a[1], self.g.cons), bmerge(b[1], self.s.cons)
        if len(ga) == 1 and ga[0][0][0] == "mix":
            d = frozenset()
            for o, _, _ in sb:
                d |= deps_of_origin(o)
            if not self.deps_le(d, ga[0][0][1]):
                raise Mismatch
            self.num(ga[0][2], blen(b))
            return
        j = 0
        for idx, (o, off, l) in enumerate(ga):
            if j < len(sb) and self.origin_ok(o, sb[j][0]):
                if o[0] not in ("mix", "zero"):
                    self.val(o, sb[j][0])
                    self.num(off, sb[j][1])
                self.num(l, sb[j][2])
                j += 1
            else:
                # empty
                if any(k in self.phi for k in syms(l)):
                    self.num(l, 0)
                else:
                    raise Mismatch
        if j != len(sb):
            raise Mismatch

    def deps_le(self, d, g):
        return d <= g

    def origin_ok(self, o, p):
        if o[0] == "mix":
            return deps_of_origin(p) <= o[1]
        if o[0] != p[0]:
            return False
        if o == p:
            return True
        try:
            save = dict(self.bind), list(self.later), dict(self.cells)
            self.val(o, p)
            self.bind, self.later, self.cells = save
            return True
        except Mismatch:
            self.bind, self.later, self.cells = save
            return False

    def list(self, a, b):
        ga, sb = a[1], b[1]
        if len(ga) == len(sb) and all(x[0] == y[0] for x, y in zip(ga, sb)):
            for x, y in zip(ga, sb):
                if x[0] == "m":
                    self.num(x[1], y[1])
                    self.sub_template(x, [y[2]])
                elif x[0] == "s":
                    self.val(x[1], y[1])
                    self.num(x[3], y[3])
                    self.num(x[4], y[4])
                else:
                    self.val(x, y)
            return
        # one 'm' of G absorbs a run of S
        j = 0
        for i, x in enumerate(ga):
            if x[0] == "m":
                cnt = 0
                nxt = ga[i + 1] if i + 1 < len(ga) else None
                mk_ = nxt is not None and nxt[0] == "e" and has_mark(nxt[1], self.g.heap)
                while j < len(sb) and sb[j][0] in ("e", "m") and not (nxt is not None and nxt[0] != "m" and len(sb) - j <= len(ga) - i - 1):
                    if mk_ and sb[j][0] == "e" and has_mark(sb[j][1], self.s.heap):
                        break
                    y = sb[j]
                    if y[0] == "e":
                        self.sub_template(x, [y[1]])
                        cnt = add(cnt, 1)
                    else:
                        self.sub_template(x, [y[2]])
                        cnt = add(cnt, y[1])
                    j += 1
                self.num(x[1], cnt)
            else:
                if j >= len(sb):
                    raise Mismatch
                if x[0] == "s" and sb[j][0] == "s":
                    self.val(x[1], sb[j][1])
                    self.num(x[3], sb[j][3])
                    self.num(x[4], sb[j][4])
                else:
                    self.val(x, sb[j])
                j += 1
        if j != len(sb):
            raise Mismatch

    def sub_template(self, m, vals):
        for v in vals:
            t = TemplateMatch(self, m)
            t.match(m[2], v)


class TemplateMatch:
    """template variables of a summarised list element match anything (consistently)"""

    def __init__(self, outer, m):
        self.o = outer
        self.b = {}
        self.cells = set()

    def match(self, t, v):
        if isinstance(t, Lin) or is_num(t) and not isinstance(t, bool):
            if not is_num(v):
                raise Mismatch
            if isinstance(t, Lin) and any(self.istv(k) for k in syms(t)):
                if len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1:
                    k = t.t[0][0]
                    if k in self.b and self.b[k] != v:
                        raise Mismatch
                    self.b[k] = v
                return
            if t != v and not self.o.s.cons.same(t, v):
                raise Mismatch
            return
        if isinstance(t, tuple) and isinstance(v, tuple):
            if t and t[0] == "any#":
                if t[1] == "enum" and t[2] is not None and not (v[:2] == ("A", t[2]) or v[0] == "S" and v[2] == t[2] or v[:3] == t[:3]):
                    raise Mismatch
                return
            if t and v and t[0] == v[0] and t[0] in ("R", "X", "V", "O"):
                if t[0] == "O" and (len(t) < 3 or len(t) != len(v) or t[1] != v[1]):
                    raise Mismatch
                it = 2 if t[0] == "O" else 1
                a = self.o.g.heap.get(t[it])
                b = self.o.s.heap.get(v[it])
                if t[it] == v[it] and a is None and b is None:
                    return
                if a is None or b is None:
                    raise Mismatch
                if (t[it], v[it]) not in self.cells:
                    self.cells.add((t[it], v[it]))
                    self.match(a, b)
                for x, y in zip(t[3:], v[3:]) if t[0] == "O" else ():
                    self.match(x, y)
                if t[0] == "R":
                    self.match(t[2], v[2])
                    if (t[3] is None) != (v[3] is None):
                        raise Mismatch
                    if t[3] is not None:
                        self.match(t[3][0], v[3][0])
                        self.match(t[3][1], v[3][1])
                return
            if len(t) != len(v):
                raise Mismatch
            for x, y in zip(t, v):
                self.match(x, y)
            return
        if t != v:
            raise Mismatch

    def istv(self, k):
        key = TAB.info[k][0]
        return isinstance(key, tuple) and key[0] == "tv"


class Joiner:
    def __init__(self, eng, g, s, widen=False):
        self.e = eng
        self.widen = widen
        self.g, self.s = g, s
        self.pairs = {}  # (a,b) -> Lin over phi
        self.order = []  # (phi sym id, a, b)
        self.ends = []  # range counters and their ends
        self.eqs = []  # linear equalities between phis
        self.cells = {}
        self.heap = {}
        self.oldphi = g.mon.get("#phi", frozenset())

    def join(self):
        g, s = self.g, self.s
        if g.frames != s.frames:
            raise Mismatch
        if g.taint != s.taint:
            raise Mismatch
        mk_, sk = set(g.mon) - {"#phi"}, set(s.mon) - {"#phi"}
        if mk_ != sk:
            raise Mismatch
        j = State()
        j.frames = g.frames
        j.taint = g.taint
        # lazily expanded values present on one side only
        gb, sb = livebinds(self.e, g), livebinds(self.e, s)
        self.gheap, self.sheap = dict(g.heap), dict(s.heap)
        for f in g.frames:
            for c in f:
                if (c in g.heap) != (c in s.heap):
                    # dead on one side
                    continue
                if c in g.heap:
                    self.cell(c, c)
        mon = {}
        for k in sorted(mk_):
            mon[k] = self.val(g.mon[k], s.mon[k])
        j.log = self.log(g.log, s.log)
        binds = {}
        for k in list(gb):
            if k in sb:
                try:
                    binds[k] = self.val(gb[k], sb[k])
                except Mismatch:
                    raise
            else:
                self.onesided(gb[k], self.gheap, self.sheap)
                binds[k] = gb[k]
                self.carry(gb[k], self.gheap)
        for k in sb:
            if k not in gb:
                v = sb[k]
                # first touched inside the loop: its cells were in their initial state on the other side
                self.onesided(v, self.sheap, self.gheap)
                try:
                    binds[k] = self.joined_initial(k, v)
                except Mismatch:
                    raise
        j.binds = binds
        j.heap = self.heap
        if any(anyid(k) is not None for k in binds):
            j.mon = mon
            h = self.e.reach(j)
            live = self.e.live_any
            if any(anyid(k) is not None and anyid(k) not in live for k in binds):
                j.binds = binds = {k: v for k, v in binds.items() if anyid(k) is None or anyid(k) in live}
                j.heap = self.heap = dict(h)
        # facts
        self.jbinds, self.jmon, self.jlog = binds, mon, j.log
        j.cons = self.facts()
        mon["#phi"] = frozenset(p for p, _, _ in self.order) | frozenset(k for k in self.oldphi if self.used_old(k))
        j.mon = mon
        j.nf = s.nf
        return j

    def used_old(self, k):
        return True

    def onesided(self, v, have, other):
        pass

    def carry(self, v, heap):
        for c in Matcher.cellsof(self, v):
            if c not in self.heap and c in heap:
                self.heap[c] = heap[c]
                self.carry(heap[c], heap)

    def joined_initial(self, k, v):
        """value expanded only in S; G sees it unexpanded, i.e. in its initial state"""
        for c in Matcher.cellsof(self, v):
            if c in self.sheap and c not in self.cells:
                init = self.e.natives.initial_cell(self.e, self.g, c)
                if init is None:
                    # plain lazily created cell: initial content is the symbolic value itself
                    cur = self.sheap[c]
                    self.heap[c] = cur
                    self.cells[(c, c)] = c
                    self.carry(cur, self.sheap)
                else:
                    self.gheap[c] = init
                    self.cell(c, c)
        return v

    def log(self, a, b):
        if len(a) == len(b):
            try:
                return self.val(a, b)
            except Mismatch:
                pass
        i = 0
        out = []
        while i < len(a) and i < len(b) and a[i] == b[i]:
            out.append(a[i])
            i += 1
        kinds = set()
        for e in a[i:] + b[i:]:
            if e[0] == "loop":
                kinds |= e[2]
            else:
                kinds.add(e[0])
        out.append(("loop", "", frozenset(kinds)))
        return tuple(out)

    def cell(self, a, b):
        k = (a, b)
        r = self.cells.get(k)
        if r is not None:
            return r
        ga = self.gheap.get(a)
        sb = self.sheap.get(b)
        if a == b:
            c = a
        else:
            self.e.ncell += 1
            c = self.e.ncell
        self.cells[k] = c
        if ga is None and sb is None:
            if a != b:
                raise Mismatch
            return c
        if ga is None or sb is None:
            raise Mismatch
        self.heap[c] = U
        self.heap[c] = self.val(ga, sb)
        return c

    def num(self, a, b):
        a = self.g.cons.norm(a)
        b = self.s.cons.norm(b)
        if a == b:
            return a
        k = (a, b)
        r = self.pairs.get(k)
        if r is not None:
            return r
        for x in self.e.special:
            if self.g.cons.same(a, x) and self.s.cons.same(b, x):
                self.pairs[k] = x
                return x
        # one side's term may denote the other side's value under its constraints
        if isinstance(a, Lin) and self.s.cons.same(a, b):
            return a
        if isinstance(b, Lin) and self.g.cons.same(b, a):
            return b
        d = sub(b, a)
        for p, a0, b0 in self.order:
            d0 = sub(b0, a0)
            q = ratio(d, d0)
            if q is not None:
                ph = Lin(0, ((p, 1),))
                r = add(a, mulc(sub(ph, a0), q))
                self.pairs[k] = r
                return r
        p = TAB.fresh("phi", None, None)
        r = Lin(0, ((p, 1),))
        for p0, a0, b0 in self.order:
            # the step of an earlier phi is a multiple of this one's
            q = ratio(sub(b0, a0), d)
            if q is not None:
                self.eqs.append((p0, p, sub(sub(Lin(0, ((p0, 1),)), a0), mulc(sub(r, a), q))))
                break
        self.order.append((p, a, b))
        self.pairs[k] = r
        return r

    def val(self, a, b):
        if type(a) is bool or type(b) is bool:
            if a is b:
                return a
            raise Mismatch
        if is_num(a) and is_num(b):
            return self.num(a, b)
        if self.e.exact and isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "A" == b[0]:
            # no joins inside loops over a known number of elements
            if a[1] == "iter" and a[3] and a[3][0][0] == "L" and all(x[0] == "e" for x in a[3][0][1]):
                raise Mismatch
            if isinstance(a[1], int) and len(a[3]) == 2 and all(type(x) is int for x in a[3]) and a[3][1] <= 64 and self.e.p.ty(a[1]).get("path") == "core::ops::range::Range":
                raise Mismatch
        if a == b and not self.hascell(a):
            # equal values may still need their symbols kept
            return a
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            if a != b:
                raise Mismatch
            return a
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            if a == b and type(a) == type(b):
                return a
            raise Mismatch
        if a and b:
            t = a[0]
            if t == b[0]:
                if t == "B":
                    return self.bytes(a, b)
                if t == "L":
                    return self.list(a, b)
                if t in ("X", "V"):
                    return (t, self.cell(a[1], b[1]))
                if t == "R":
                    c = self.cell(a[1], b[1])
                    path = self.val(a[2], b[2])
                    if (a[3] is None) != (b[3] is None):
                        raise Mismatch
                    rng = None if a[3] is None else (self.num(a[3][0], b[3][0]), self.num(a[3][1], b[3][1]))
                    return ("R", c, path, rng)
                if t == "O":
                    if a[1] != b[1]:
                        raise Mismatch
                    return ("O", a[1], self.cell(a[2], b[2]))
                if t == "loop":
                    return ("loop", "", a[2] | b[2])
                if t == "A" and a[1] == b[1]:
                    if a[1] == "iter" and a[3][0][0] == "L" == b[3][0][0]:
                        # a loop over a known number of elements is unrolled
                        if [x[0] for x in a[3][0][1]] != [x[0] for x in b[3][0][1]]:
                            raise Mismatch
                    elif len(a[3]) == 2 == len(b[3]) and all(type(x) is int for x in a[3] + b[3]) and isinstance(a[1], int):
                        if self.e.p.ty(a[1]).get("path") == "core::ops::range::Range" and a[3][1] <= 16:
                            if a[3] != b[3]:
                                raise Mismatch
                    elif len(a[3]) == 4 and isinstance(a[1], int) and all(type(x) is int for x in a[3][2:] + b[3][2:]) and self.e.p.ty(a[1]).get("path") == "core::iter::adapters::zip::Zip":
                        if a[3][3] <= 64 and a[3][2] != b[3][2]:
                            raise Mismatch
                    if isinstance(a[1], int) and len(a[3]) == 2 and is_num(a[3][0]) and isinstance(a[3][1], Lin) and a[3][1] == b[3][1] and self.e.p.ty(a[1]).get("path") == "core::ops::range::Range":
                        # a counter stays below the end of its range
                        self.ends.append((self.num(a[3][0], b[3][0]), a[3][1]))
        if len(a) != len(b):
            raise Mismatch
        return tuple(self.val(x, y) for x, y in zip(a, b))

    def hascell(self, v):
        stack = [v]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if x and x[0] in ("R", "X", "V", "O"):
                    return True
                stack.extend(x)
        return False

    def bytes(self, a, b):
        x, y = bmerge(a[1], self.g.cons), bmerge(b[1], self.s.cons)
        ox, oy = [o for o, _, _ in x], [o for o, _, _ in y]
        # alignment by unifiable origins (supersequence)
        n, m = len(x), len(y)
        if True:
            import functools

            px, py = [0], [0]
            for _, _, l in x:
                px.append(add(px[-1], l))
            for _, _, l in y:
                py.append(add(py[-1], l))

            def weight(i, j):
                # segments that share an end point are the same data, one partly replaced
                if ox[i][0] in ("mix", "zero", "lit"):
                    return 2 if i == j and n == m else 1
                p, q = self.g.cons.norm(x[i][1]), self.s.cons.norm(y[j][1])
                w = 1
                if p == q:
                    w += 2
                if self.g.cons.norm(add(x[i][1], x[i][2])) == self.s.cons.norm(add(y[j][1], y[j][2])):
                    w += 2
                if self.g.cons.norm(sub(p, px[i])) == self.s.cons.norm(sub(q, py[j])):
                    w += 5  # the same data at the same place
                if i == j and n == m:
                    w += 1
                return w

            @functools.lru_cache(None)
            def lcs(i, j):
                if i == n or j == m:
                    return 0, ()
                best = 0, ()
                if self.okind(ox[i], oy[j]):
                    w, r = lcs(i + 1, j + 1)
                    best = w + weight(i, j), ((i, j),) + r
                for c in (lcs(i + 1, j), lcs(i, j + 1)):
                    if c[0] > best[0]:
                        best = c
                return best

            match = lcs(0, 0)[1]
            if n and m and not match:
                raise Mismatch
            al = []
            i = j = 0
            for p, q in list(match) + [(n, m)]:
                while i < p:
                    al.append((i, None))
                    i += 1
                while j < q:
                    al.append((None, j))
                    j += 1
                if p < n:
                    al.append((p, q))
                    i, j = p + 1, q + 1
        if len(al) > 24 or any(self.bad_gap(x, y, p) for p in al):
            d = frozenset()
            for o in ox + oy:
                d |= deps_of_origin(o)
            return ("B", ((("mix", d), 0, self.num(blen(a), blen(b))),))
        out = []
        for p, q in al:
            if p is not None and q is not None:
                o = ox[p]
                if o != oy[q]:
                    if o[0] == "mix" or oy[q][0] == "mix":
                        o = ("mix", deps_of_origin(o) | deps_of_origin(oy[q]))
                    else:
                        o = self.val(o, oy[q])
                if o[0] in ("mix", "zero"):
                    off = 0
                elif o[0] == "lit":
                    if x[p] != y[q]:
                        o = ("mix", frozenset())
                        off = 0
                    else:
                        off = x[p][1]
                else:
                    off = self.num(x[p][1], y[q][1])
                out.append((o, off, self.num(x[p][2], y[q][2])))
            elif p is not None:
                o, off, l = x[p]
                out.append((o, off, self.num(l, 0)))
            else:
                o, off, l = y[q]
                out.append((o, off, self.num(0, l)))
        return ("B", tuple(z for z in out if z[2] != 0))

    def bad_gap(self, x, y, p):
        i, j = p
        if i is not None and j is not None:
            return False
        o = x[i][0] if i is not None else y[j][0]
        return o[0] in ("lit", "b1")

    def okind(self, o, p):
        if o == p:
            return True
        if o[0] == "lit" or p[0] == "lit" or o[0] != p[0]:
            return False
        if o[0] == "mix":
            return True
        save = (dict(self.pairs), list(self.order), dict(self.cells), dict(self.heap))
        try:
            self.val(o, p)
            return True
        except Mismatch:
            return False
        finally:
            self.pairs, self.order, self.cells, self.heap = save

    def list(self, a, b):
        x, y = a[1], b[1]
        if len(x) == len(y) and all(p[0] == q[0] for p, q in zip(x, y)):
            save = (dict(self.pairs), list(self.order), dict(self.cells), dict(self.heap))
            try:
                out = []
                for p, q in zip(x, y):
                    if p[0] == "e":
                        out.append(("e", self.val(p[1], q[1])))
                    elif p[0] == "s":
                        out.append(("s", self.val(p[1], q[1]), p[2], self.num(p[3], q[3]), self.num(p[4], q[4])))
                    else:
                        out.append(("m", self.num(p[1], q[1]), self.template([p[2]], [q[2]]), ("tpl",)))
                return ("L", tuple(out))
            except Mismatch:
                self.pairs, self.order, self.cells, self.heap = save
        # split at marked (distinguished) elements
        xs, ys = self.split(x, self.gheap), self.split(y, self.sheap)
        if len(xs) != len(ys):
            raise Mismatch
        out = []
        for (rx, kx), (ry, ky) in zip(xs, ys):
            out += self.run(rx, ry)
            if kx is not None:
                out.append(("e", self.val(kx[1], ky[1])))
        return ("L", tuple(out))

    def split(self, items, heap):
        r = []
        cur = []
        for it in items:
            if it[0] == "s":
                r.append((tuple(cur), None))
                r.append(((it,), None))
                cur = []
            elif it[0] == "e" and has_mark(it[1], heap):
                r.append((tuple(cur), it))
                cur = []
            else:
                cur.append(it)
        r.append((tuple(cur), None))
        return r

    def run(self, rx, ry):
        if len(rx) == 1 and len(ry) == 1 and rx[0][0] == "s" and ry[0][0] == "s":
            p, q = rx[0], ry[0]
            return [("s", self.val(p[1], q[1]), p[2], self.num(p[3], q[3]), self.num(p[4], q[4]))]
        if any(i[0] == "s" for i in rx + ry):
            raise Mismatch
        # common prefix
        out = []
        i = 0
        while i < len(rx) and i < len(ry) and rx[i] == ry[i] and rx[i][0] == "e" and not self.hascell(rx[i]):
            out.append(rx[i])
            i += 1
        rx, ry = rx[i:], ry[i:]
        if not rx and not ry:
            return out

        def count(r):
            n = 0
            for it in r:
                n = add(n, 1 if it[0] == "e" else it[1])
            return n

        vx = [it[1] if it[0] == "e" else it[2] for it in rx]
        vy = [it[1] if it[0] == "e" else it[2] for it in ry]
        out.append(("m", self.num(count(rx), count(ry)), self.template(vx, vy), ("tpl",)))
        return out

    def template(self, vx, vy):
        t = Templater(self)
        vs = [(v, self.gheap) for v in vx] + [(v, self.sheap) for v in vy]
        cur, h = vs[0]
        cur = t.imp(cur, h)
        for v, hh in vs[1:]:
            cur = t.au(cur, t.imp(v, hh))
        return cur

    def affine(self, keep):
        """linear equalities between the new symbols and the inputs that hold on both sides (affine hull)"""
        if not self.order:
            return
        # the sides as affine maps from free symbols to the variables
        base = set()
        for p, a, b in self.order:
            base.update(syms(a))
            base.update(syms(b))
        for _ in range(2):
            for k in list(base):
                for c in (self.g.cons, self.s.cons):
                    if k in c.eq:
                        base.update(syms(c.eq[k]))
        base = {k for k in base if k in keep or not isfresh(k)}
        xs = [p for p, _, _ in self.order] + sorted(base)
        ix = {k: i for i, k in enumerate(xs)}
        if len(xs) > 40:
            return
        rows = []
        pts = []
        for side, cons in ((1, self.g.cons), (2, self.s.cons)):
            vals = [t[side] for t in self.order] + [cons.norm(Lin(0, ((k, 1),))) for k in sorted(base)]
            free = set()
            for v in vals:
                free.update(syms(v))
            pts.append([v if isinstance(v, int) else v.c for v in vals])
            for f in free:
                rows.append([0 if isinstance(v, int) else dict(v.t).get(f, 0) for v in vals])
        rows.append([y - x for x, y in zip(*pts)])
        n = len(xs)
        # reduced row echelon form; base symbols are eliminated last so that equations define the new symbols
        piv = []
        m = []
        for r in rows:
            r = [Fraction(x) for x in r]
            for row, c in zip(m, piv):
                if r[c]:
                    q = r[c]
                    r = [x - q * y for x, y in zip(r, row)]
            c = next((i for i in range(n - 1, -1, -1) if r[i]), None)
            if c is None:
                continue
            q = r[c]
            r = [x / q for x in r]
            m = [[x - row[c] * y for x, y in zip(row, r)] if row[c] else row for row in m]
            m.append(r)
            piv.append(c)
        for f in range(n):
            if f in piv:
                continue
            # null vector: x_f = 1, x_pivot = -m[pivot][f]
            co = {xs[f]: Fraction(1)}
            for row, c in zip(m, piv):
                if row[f]:
                    co[xs[c]] = -row[f]
            if len(co) > 5:
                continue
            d = 1
            for v in co.values():
                d = d * v.denominator // math.gcd(d, v.denominator)
            co = {k: int(v * d) for k, v in co.items()}
            if max(abs(v) for v in co.values()) > 1 << 24:
                continue
            c0 = sum(v * pts[0][ix[k]] for k, v in co.items())
            yield mk(-c0, co)

    def facts(self):
        g, s = self.g, self.s
        keep = set()
        for x in (self.heap, self.jbinds, self.jmon):
            walk_syms(tuple(x.keys()), keep)
            walk_syms(tuple(x.values()), keep)
        walk_syms(self.jlog, keep)
        # candidate facts
        C = Cons()
        ms = {p: a for p, a, b in self.order}
        mt = {p: b for p, a, b in self.order}
        # equalities that hold on both sides
        dead = lambda k, v: any(isfresh(x) and x not in keep for x in (k,) + tuple(syms(v)))
        for k, v in g.cons.eq.items():
            if dead(k, v):
                continue
            if k in s.cons.eq and s.cons.eq[k] == v:
                C = Cons(C.ge, C.ne, {**C.eq, k: v})
            elif k in s.cons.eq or s.cons.same(Lin(0, ((k, 1),)), v):
                if s.cons.same(Lin(0, ((k, 1),)), v):
                    n = C.add_eq(sub(Lin(0, ((k, 1),)), v))
                    if n is not None:
                        C = n
        for k, v in s.cons.eq.items():
            if k not in g.cons.eq and not dead(k, v) and g.cons.same(Lin(0, ((k, 1),)), v):
                n = C.add_eq(sub(Lin(0, ((k, 1),)), v))
                if n is not None:
                    C = n
        used = {p for p, _, _ in self.order}
        for p0, p, f in self.eqs:
            n = C.add_eq(f) if p0 in used and p in used else None
            if n is not None:
                C = n
        for f in self.affine(keep):
            if not C.eq0(f):
                n = C.add_eq(f)
                if n is not None:
                    C = n
        cands = []
        phis = [(p, Lin(0, ((p, 1),)), a, b) for p, a, b in self.order]
        for p, ph, a, b in [] if self.widen else phis:
            cands += [sub(ph, a), sub(a, ph)]
            if isinstance(a, int):
                for c in {0, 1, a}:
                    cands.append(sub(ph, c))
            else:
                cands.append(ph)
                cands.append(sub(ph, 1))
        for p, ph, a, b in phis:
            for K in self.e.special:
                d = sub(K, ph)
                cands += [d, sub(d, 1), mulc(d, -1), sub(mulc(d, -1), 1)]
        for x, y in self.ends:
            cands += [sub(sub(y, x), 1), sub(y, x)]
        # facts of S and G rewritten in terms of the new symbols
        inv_s = {}
        inv_g = {}
        for p, ph, a, b in phis:
            for side, inv in ((b, inv_s), (a, inv_g)):
                if isinstance(side, Lin):
                    for k, v in side.t:
                        if v in (1, -1):
                            key = TAB.info[k][0]
                            # ph = side  =>  k = v*(ph - rest)
                            rest = mk(side.c, {x: y for x, y in side.t if x != k})
                            inv.setdefault(k, []).append(mulc(sub(ph, rest), v))
                            if isinstance(key, tuple) and key[0] == "phi":
                                break
        for f in () if self.widen else s.cons.ge:
            cands.append(f)
            for k in syms(f):
                for x in inv_s.get(k, ()):
                    cands.append(substs(f, {k: x}))
            if any(k in inv_s for k in syms(f)):
                cands.append(substs(f, {k: v[0] for k, v in inv_s.items()}))
        for f in g.cons.ge:
            cands.append(f)
            for k in syms(f):
                for x in inv_g.get(k, ()):
                    cands.append(substs(f, {k: x}))
            if any(k in inv_g for k in syms(f)):
                cands.append(substs(f, {k: v[0] for k, v in inv_g.items()}))
        # differences between phis
        for i in range(0 if self.widen else len(phis)):
            for k in range(i):
                d = sub(phis[i][1], phis[k][1])
                cands += [d, mulc(d, -1)]
        seen = set()
        for f in cands:
            if isinstance(f, int) or f in seen:
                continue
            seen.add(f)
            if len(f.t) > 5:
                continue
            if any(k not in keep and isfresh(k) for k in syms(f)):
                continue
            if g.cons.ge0(substs(f, ms)) and s.cons.ge0(substs(f, mt)):
                if not C.ge0(f):
                    n = C.add_ge(f)
                    if n is not None and not (len(n.eq) > len(C.eq)):
                        C = n
        ne = set()
        for f in set(g.cons.ne) | set(s.cons.ne):
            if g.cons.ne0(f) and s.cons.ne0(f):
                ne.add(f)
        for f in g.cons.ne:
            f2 = substs(f, {k: v[0] for k, v in inv_g.items()})
            if not isinstance(f2, int) and g.cons.ne0(substs(f2, ms)) and s.cons.ne0(substs(f2, mt)):
                ne.add(f2)
        if ne:
            C = Cons(C.ge, C.ne | frozenset(ne), C.eq)
        return C


def isfresh(k):
    key = TAB.info[k][0]
    return isinstance(key, tuple) and isinstance(key[-1], str) and key[-1].startswith("#")


def has_mark(v, heap):
    """does the value mention the distinguished element K?"""
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] in ("R", "X", "V", "O"):
                c = x[1] if x[0] != "O" else x[2] if len(x) > 2 else None
                if c in heap and c not in seen:
                    seen.add(c)
                    stack.append(heap[c])
            stack.extend(x)
        elif isinstance(x, str) and x == "K":
            return True
    return False


class Templater:
    """anti-unification of list elements: differences become template variables"""

    def __init__(self, j):
        self.j = j
        self.vars = {}

    def imp(self, v, heap):
        """import a value into the joined heap (fresh cells)"""
        m = {}

        def go(x):
            if isinstance(x, tuple):
                if x and x[0] in ("R", "X", "V"):
                    c = x[1]
                    if c in heap:
                        if c not in m:
                            self.j.e.ncell += 1
                            m[c] = self.j.e.ncell
                            self.j.heap[m[c]] = U
                            self.j.heap[m[c]] = go(heap[c])
                        return (x[0], m[c]) + tuple(go(y) for y in x[2:])
                    return x
                if len(x) >= 3 and x[0] == "O":
                    c = x[2]
                    if c in heap:
                        if c not in m:
                            self.j.e.ncell += 1
                            m[c] = self.j.e.ncell
                            self.j.heap[m[c]] = U
                            self.j.heap[m[c]] = go(heap[c])
                        return x[:2] + (m[c],) + tuple(go(y) for y in x[3:])
                    return x
                return tuple(go(y) for y in x)
            return x

        return go(v)

    def tv(self, a, b, lo=None, hi=None):
        k = (a, b)
        r = self.vars.get(k)
        if r is None:
            r = Lin(0, ((TAB.fresh("tv", lo, hi), 1),))
            self.vars[k] = r
        return r

    def au(self, a, b):
        if type(a) is bool or type(b) is bool:
            if a is b:
                return a
            for x in (a, b):
                if isinstance(x, tuple) and x[:2] == ("any#", "bool"):
                    return x
            return ("any#", "bool", TAB.fresh("any"))
        if is_num(a) and is_num(b):
            if a == b:
                return a
            return self.tv(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in ((a, b), (b, a)):
                if x and x[0] == "any#":
                    if x[1] == "enum" and y and (y[0] == "A" and y[1] == x[2] or y[:3] == x[:3]) or x[1] == "val" and y and y[0] in ("T", "S", "any#"):
                        return x
                    raise Mismatch
            if a and b and a[0] == b[0] and a[0] in ("R", "X", "V", "O"):
                if a[0] == "O" and (len(a) < 3 or len(a) != len(b) or a[1] != b[1]):
                    raise Mismatch
                ia = 2 if a[0] == "O" else 1
                ca, cb = a[ia], b[ia]
                if ca == cb:
                    c = ca
                elif ca in self.j.heap and cb in self.j.heap:
                    self.j.e.ncell += 1
                    c = self.j.e.ncell
                    self.j.heap[c] = self.au(self.j.heap[ca], self.j.heap[cb])
                else:
                    raise Mismatch
                return a[:ia] + (c,) + tuple(self.au(x, y) for x, y in zip(a[ia + 1 :], b[ia + 1 :]))
            if len(a) == len(b) and (not a or not isinstance(a[0], str) or a[0] == b[0]):
                if a and a[0] == "B":
                    if len(a[1]) != len(b[1]):
                        d = frozenset()
                        for o, _, _ in a[1] + b[1]:
                            d |= deps_of_origin(o)
                        return ("B", ((("mix", d), 0, self.tv(blen(a), blen(b))),))
                if a and a[0] == "A" and (a[2] != b[2] or type(a[2]) != type(b[2])):
                    return ("any#", "enum", a[1] if a[1] == b[1] else None, TAB.fresh("any"))
                try:
                    return tuple(self.au(x, y) for x, y in zip(a, b))
                except Mismatch:
                    if a and a[0] in ("T", "S"):
                        return ("any#", "val", None, TAB.fresh("any"))
                    raise
            raise Mismatch
        if a == b and type(a) == type(b):
            return a
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a | b
        raise Mismatch


def ratio(d, d0):
    if isinstance(d0, int):
        if isinstance(d, int) and d0 != 0 and d % d0 == 0:
            return d // d0
        return None
    if isinstance(d, int):
        return None
    # d == q*d0
    t0 = dict(d0.t)
    q = None
    for k, v in d.t:
        if k not in t0 or v % t0[k]:
            return None
        r = v // t0[k]
        if q is None:
            q = r
        elif q != r:
            return None
    if q is None or len(t0) != len(d.t) or d.c != q * d0.c:
        return None
    return q
