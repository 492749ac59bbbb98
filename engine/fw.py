"""Scenario runner, obligation bookkeeping and report merging shared by all properties."""
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core
import natives
from core import OutOfTime, inputs_only, Engine, Limit, Prog, State, blen, bmerge, lit, seg, ZERO
from lin import TAB, Lin, add, is_num, sub, sym, syms, fresh, mulc

MIB = 1048576
OPAQUE = ("mix", "any#", "const?", "ret", "pure", "unk")


def opaque_origin(o):
    if o[0] in OPAQUE or o[0] == "b1":
        return True
    if o[0] == "sym" and o[1] and o[1][0] in ("any#", "const?", "ret", "pure"):
        return True
    return False


def opaque(b):
    return any(opaque_origin(o) for o, _, _ in b[1])


def free_diff(C, d):
    """the difference contains an input byte this path has not looked at: it is non-zero for some input"""
    for k in syms(C.norm(d)):
        nm = TAB.info[k][0]
        if isinstance(nm, tuple) and nm and nm[0] == "byte" and not any(k in syms(g) for g in C.ge) and not any(k in syms(g) for g in C.ne):
            return True
    return False


def same_bytes(e, st, a, b):
    """True: provably the same bytes by provenance; False: provably other provenance; None: unknown"""
    if is_num(a) or is_num(b) or a[0] != "B" or b[0] != "B":
        return None
    C = st.cons
    x, y = list(bmerge(a[1], C)), list(bmerge(b[1], C))
    if tuple(x) == tuple(y):
        return True
    la, lb = blen(a), blen(b)
    if C.ne0(sub(la, lb)):
        return False
    unk = False
    i = j = 0
    # cursor offsets inside the current segments
    ox = oy = 0
    while i < len(x) and j < len(y):
        po, poff, pl = x[i]
        qo, qoff, ql = y[j]
        pl, ql = sub(pl, ox), sub(ql, oy)
        if opaque_origin(po) or opaque_origin(qo):
            return None
        if po[0] in ("lit", "zero") and qo[0] in ("lit", "zero") and isinstance(pl, int) and isinstance(ql, int):
            n = min(pl, ql)
            pa = bytes(n) if po[0] == "zero" else po[1][poff + ox : poff + ox + n]
            qa = bytes(n) if qo[0] == "zero" else qo[1][qoff + oy : qoff + oy + n]
            if pa != qa:
                return False
        elif po[0] in ("lit", "zero") and isinstance(pl, int) and pl <= 64 or qo[0] in ("lit", "zero") and isinstance(ql, int) and ql <= 64:
            n = None
            if isinstance(pl, int) and isinstance(ql, int):
                n = min(pl, ql)
            elif isinstance(pl, int) and C.ge0(sub(ql, pl)):
                n = pl
            elif isinstance(ql, int) and C.ge0(sub(pl, ql)):
                n = ql
            if n is None:
                return None
            for k in range(n):
                u = e.byte(st, po, add(poff, add(ox, k)))
                w = e.byte(st, qo, add(qoff, add(oy, k)))
                if is_num(u) and is_num(w):
                    if C.same(u, w):
                        continue
                    if isinstance(u, int) and isinstance(w, int):
                        return False
                    return False if C.ne0(sub(u, w)) or free_diff(C, sub(u, w)) else None
        else:
            if po != qo:
                return False
            d = sub(add(poff, ox), add(qoff, oy))
            if po[0] != "zero" and not C.eq0(d):
                return False if C.ne0(d) else None
        if C.eq0(sub(pl, ql)):
            i, j, ox, oy = i + 1, j + 1, 0, 0
        elif C.ge0(sub(sub(pl, ql), 1)):
            ox = add(ox, ql)
            j, oy = j + 1, 0
        elif C.ge0(sub(sub(ql, pl), 1)):
            oy = add(oy, pl)
            i, ox = i + 1, 0
        else:
            return None
    rest = [(s[0], s[2]) for s in x[i:]] + [(s[0], s[2]) for s in y[j:]]
    if not rest:
        return True
    for o, l in rest:
        if C.ge0(sub(l, 1)):
            return False
    if inputs_only(C.norm(sub(la, lb))):
        return False  # for some input of this path one is longer
    return None


def eqv(e, st, a, b):
    """equality of two numbers: True/False/None"""
    if not (is_num(a) and is_num(b)):
        return None
    if st.cons.same(a, b):
        return True
    if st.cons.ne0(sub(a, b)):
        return False
    return None


def exactly(e, st, a, b):
    """True: equal; False: not equal for some input of this path; None: unknown (lost in a join)"""
    v = eqv(e, st, a, b)
    if v is None and is_num(a) and is_num(b) and inputs_only(st.cons.norm(sub(a, b))):
        return False
    return v


def atmost(e, st, a, b):
    """a <= b: True, False (exceeded for some input of this path) or None"""
    if st.cons.ge0(sub(b, a)):
        return True
    d = st.cons.norm(sub(a, b))
    if st.cons.ge0(sub(d, 1)) or inputs_only(d):
        return False
    return None


def must(v):
    """turn 'not provably true' into a violation verdict"""
    return True if v is True else False


def val(e, st, v):
    if isinstance(v, bool) or is_num(v):
        return v
    v = e.val(st, v)
    return v if is_num(v) else e.res(st, v)


def variant(e, st, v):
    """variant name and fields of an enum value, or (None, ()) if unresolved"""
    v = val(e, st, v)
    if isinstance(v, bool) or is_num(v) or v[0] != "A":
        return None, ()
    t = v[1]
    if isinstance(t, int):
        ty = e.p.ty(t)
        if ty.get("adt") == "enum":
            return ty["variants"][v[2]]["name"], v[3]
        return ty.get("path", "struct"), v[3]
    if t == "option":
        return ("None", "Some")[v[2]], v[3]
    if t == "result":
        return ("Ok", "Err")[v[2]], v[3]
    return str(t), v[3]


def outcome(e, st, v):
    """('ok'|'err'|'none'|None, payload) looking through Option<Result<..>>"""
    n, f = variant(e, st, v)
    if n == "Some":
        return outcome(e, st, f[0])
    if n == "None":
        return "none", None
    if n == "Ok":
        return "ok", f[0] if f else None
    if n == "Err":
        return "err", f[0] if f else None
    return None, v


def fields(e, st, v):
    """{field name: value} of a struct value"""
    v = val(e, st, v)
    if isinstance(v, bool) or is_num(v) or v[0] != "A" or not isinstance(v[1], int):
        return {}
    vs = e.p.ty(v[1])["variants"][v[2]]
    return dict(zip([n for n, _ in vs["fields"]], v[3]))


def content(e, st, v):
    try:
        return natives.content(e, st, v)
    except Limit:
        return None


def text(b):
    if b is not None and natives.is_lit(b):
        return natives.flat(b).decode("utf-8", "replace")
    return None


class Mon:
    """obligation bookkeeping; a property's monitor subclasses this and defines on_<event> methods"""

    prop = "?"
    panics = False  # report panics

    def __init__(self):
        self.obl = {}  # rule -> [n, ok, undecided]
        self.samples = {}
        self.undec = {}
        self.viol = {}
        self.nev = {}
        self.sinks = 0
        self.oksinks = 0

    def start(self, e, st):
        pass

    def event(self, e, st, kind, args):
        self.nev[kind] = self.nev.get(kind, 0) + 1
        if kind == "sink":
            self.sinks += 1
        f = getattr(self, "on_" + kind, None)
        if f is not None:
            f(e, st, *args)
        f = getattr(self, "on_any", None)
        if f is not None:
            f(e, st, kind, args)

    def fn(self, e):
        """innermost function of the analysed repository on the stack"""
        for path, sp in reversed(e.stack):
            if sp is not None:
                f = e.p.files[sp[0]]
                if "/repo/" in f or f.startswith("crates/"):
                    return path
        for path, sp in reversed(e.stack):
            if "volaris" in path:
                return path
        return e.stack[-1][0] if e.stack else "?"

    def ob(self, e, st, rule, verdict, msg):
        if callable(msg):
            m = None
        r = self.obl.setdefault(rule, [0, 0, 0])
        r[0] += 1
        if verdict is True:
            r[1] += 1
            if rule not in self.samples:
                self.samples[rule] = {"rule": rule, "where": e.where(), "path": [p for p, _ in e.stack][-4:]}
            return True
        m = msg() if callable(msg) else msg
        if verdict is None or st.taint:
            r[2] += 1
            k = (rule, self.fn(e), m)
            self.undec.setdefault(k, sorted(st.taint)[:2] if st.taint else ["not decided"])
            return None
        k = (rule, self.fn(e), m)
        if k not in self.viol:
            self.viol[k] = {
                "rule": rule,
                "function": self.fn(e),
                "what": m,
                "where": e.where(),
                "stack": [p for p, _ in e.stack],
                "path_conditions": describe(st)[:40],
            }
            if CHILD and not listed(self.viol[k]):
                signal.alarm(CHILD["grace"])  # what matters is known: finish soon
        return False

    def on_panic(self, e, st, what, maybe):
        if self.panics:
            self.ob(e, st, "no panic", None if maybe else False, "a panic is reachable: %s" % (str(what)[:120],))

    def finish(self, e, results):
        pass


def describe(st):
    out = []
    for c in st.cons.ge:
        out.append("%s >= 0" % (c,))
    for k, v in list(st.cons.eq.items())[:20]:
        out.append("%s = %s" % (core.keyname(core.TAB.info[k][0]), v))
    return [str(x)[:160] for x in out]


class Scenario:
    def __init__(self, name, root, mon, setup=None, crate="vharness", limit=240, tier="quick", core=True, conf=None, min_ok=0):
        self.name, self.root, self.mon, self.setup, self.crate = name, root, mon, setup, crate
        self.limit, self.tier, self.core, self.conf = limit, tier, core, conf
        self.min_ok = min_ok
        self.query = None  # a function deciding over the facts instead of interpreting a root


def rootargs(e, name):
    ii = e.p.roots[name]
    body = e.p.insts[ii]["body"]
    names = {l: n for l, n in body["names"]}
    return [e.S((names.get(i, "arg%d" % i),), body["locals"][i]) for i in range(1, body["argc"] + 1)]


def run_scenario(prog, sc):
    t = time.time()
    out = {"scenario": sc.name, "root": sc.root, "error": None}
    mon = sc.mon()
    nat = natives.Natives(None)
    e = Engine(prog, mon, nat)
    e.mon = mon
    res = []
    try:
        if sc.query is not None:
            mon.sinks = 1
            sc.query(e, mon, prog)
        elif sc.root not in prog.roots:
            out["error"] = "missing root"
        else:
            if sc.conf:
                sc.conf(e, nat)
            st = State()
            args = rootargs(e, sc.root)
            feasible = True
            if sc.setup:
                r = sc.setup(e, st, args)
                if r is False:
                    feasible = False
                elif isinstance(r, list):
                    args = r
            if feasible:
                mon.start(e, st)
                res = e.run_root(sc.root, args, st)
                mon.finish(e, res)
            else:
                out["error"] = "infeasible setup"
    except OutOfTime:
        if any(not listed(v) for v in mon.viol.values()):
            out["cut"] = "stopped after a violation"
        else:
            out["error"] = "analysis limit: time limit of %d s" % sc.limit
    except Limit as x:
        out["error"] = "analysis limit: %s at %s" % (x, e.where())
    except MemoryError:
        out["error"] = "analysis out of memory"
    except RecursionError:
        out["error"] = "analysis recursion limit"
    except Exception as x:
        out["error"] = "analysis error: %r at %s" % (x, e.where())
        out["traceback"] = traceback.format_exc()[-1500:]
    repo_fns = set()
    for ii in e.used:
        i = prog.insts[ii]
        if i.get("crate") in ("volaris_crypto", "volaris_tools", "volaris_cli"):
            repo_fns.add(i["path"])
    out.update(
        wall=round(time.time() - t, 2),
        results=len(res),
        steps=e.steps,
        calls=e.calls,
        loops=e.loops,
        obl=mon.obl,
        samples=mon.samples,
        undec=[{"rule": k[0], "function": k[1], "what": k[2], "why": v} for k, v in mon.undec.items()],
        viol=list(mon.viol.values()),
        functions=sorted(repo_fns),
        unmodelled={k: v for k, v in e.unmodelled.items()},
        events=mon.nev,
        sinks=mon.sinks,
        oksinks=mon.oksinks,
    )
    for v in out["viol"]:
        v["scenario"] = sc.name
    return out


CHILD = {}
KNOWN = []  # the known findings of the property under analysis


def listed(v):
    return any(f.get("rule") == v["rule"] and f.get("function", v["function"]) == v["function"] and f.get("what") == v["what"] for f in KNOWN)


def _child(prog, sc, conn, limit):
    def alarm(*a):
        raise OutOfTime

    CHILD["grace"] = 20

    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit))
    try:
        r = run_scenario(prog, sc)
    except BaseException as x:
        r = {"scenario": sc.name, "root": sc.root, "error": "analysis failed: %r" % (x,), "viol": [], "obl": {}, "undec": [], "functions": [], "wall": sc.limit, "samples": {}, "results": 0, "steps": 0, "calls": 0, "loops": 0, "unmodelled": {}, "events": {}, "sinks": 0, "oksinks": 0}
    signal.alarm(0)
    try:
        conn.send(json.loads(json.dumps(r, default=str)))
    finally:
        conn.close()
    os._exit(0)


def run_all(progs, scs, workers=8, budget=None):
    """the results of all scenarios; what does not fit into the budget (seconds) is undecided"""
    ctx = mp.get_context("fork")
    todo = list(scs)
    run = []
    out = []
    end = time.time() + (budget or 1e9)
    bad = False
    while todo or run:
        while todo and len(run) < workers:
            sc = todo.pop(0)
            left = min(sc.limit, end - time.time() - 5)
            if left < 1:
                out.append(dead(sc, "not analysed: a violation was found before" if bad else "not analysed: the time for the check is over"))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(progs[sc.crate], sc, b, left))
            p.start()
            b.close()
            run.append((p, a, sc, time.time()))
        ready = mp.connection.wait([x[1] for x in run], timeout=5) if run else []
        keep = []
        for p, a, sc, t0 in run:
            if a in ready:
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(dead(sc, "analysis process ended without an answer"))
                p.join(5)
                if p.is_alive():
                    p.kill()
                if not bad and any(not listed(v) for v in out[-1]["viol"]):
                    bad = True
                    end = min(end, time.time() + 60)
            elif time.time() - t0 > sc.limit + 60 or time.time() > end + 10:
                p.kill()
                p.join()
                out.append(dead(sc, "not finished: a violation was found before" if bad else "analysis process exceeded its time limit"))
            else:
                keep.append((p, a, sc, t0))
        run = keep
    return out


def dead(sc, why):
    return {"scenario": sc.name, "root": sc.root, "error": why, "viol": [], "obl": {}, "undec": [], "functions": [], "wall": sc.limit, "samples": {}, "results": 0, "steps": 0, "calls": 0, "loops": 0, "unmodelled": {}, "events": {}, "sinks": 0, "oksinks": 0}
