"""Assume-guarantee summaries. Each is the postcondition another property establishes from the source.

`deserialize`: Header::deserialize as established by H01/H02/H03 (all layouts) — used by the operations
that only pass the parsed header on, so that their analysis does not repeat the parser's case split."""
import spec
from core import NH, UNIT, Limit, lit, seg
from lin import add, fresh, sub, sym
from natives import err, fget, fset, newvec, obj_of, ok, rt

P = "volaris_crypto::"


def adt(e, path):
    for i, t in enumerate(e.p.types):
        if t.get("k") == "adt" and t["path"] == path:
            return i
    raise Limit("type " + path)


def vidx(e, path, name):
    t = e.p.types[adt(e, path)]
    return [v["name"] for v in t["variants"]].index(name)


def assume_header(e, st, key, ver, alg, mode, nslots, scheme=None):
    """pin down a symbolic header: tags, nonce lengths and number of keyslots"""
    C = lambda s, n: e.assume(st, e.mkeq(st, s, n))
    ok = C(sym(("disc", key + ("header_type", "version")), 0, 4), vidx(e, P + "header::HeaderVersion", ver))
    ok &= C(sym(("disc", key + ("header_type", "algorithm")), 0, 2), vidx(e, P + "primitives::Algorithm", alg))
    ok &= C(sym(("disc", key + ("header_type", "mode")), 0, 1), vidx(e, P + "primitives::Mode", mode))
    ok &= C(e.len_sym(key + ("nonce",)), spec.nlen(alg, mode))
    if nslots is not None:
        ok &= C(sym(("disc", key + ("keyslots",)), 0, 1), 1)
        ok &= C(e.len_sym(key + ("keyslots", "Some", "0")), nslots)
        for i in range(nslots):
            ok &= assume_slot(e, st, key + ("keyslots", "Some", "0", "[]", i), alg, scheme[i] if scheme is not None else None)
    else:
        ok &= C(sym(("disc", key + ("keyslots",)), 0, 1), 0)
    return ok


def assume_slot(e, st, k, alg, scheme=None):
    C = lambda s, n: e.assume(st, e.mkeq(st, s, n))
    ok = C(e.len_sym(k + ("nonce",)), spec.nlen(alg, "MemoryMode"))
    if scheme is not None:
        ok &= C(sym(("disc", k + ("hash_algorithm",)), 0, 1), 0 if scheme[0] == "Argon2id" else 1)
        ok &= C(sym(k + ("hash_algorithm", scheme[0], "0"), -(1 << 31), (1 << 31) - 1), scheme[1])
    return ok


def aad_len(ver, alg):
    if ver in ("V1", "V2"):
        return 0
    return {"V3": 64, "V4": 80 - spec.nlen(alg, "MemoryMode"), "V5": 32}[ver]


def hdr_key(name):
    return ("hdr",) + tuple(name)


def aad_of(name, ver, alg):
    return seg(("sym", hdr_key(name) + ("aad#",)), 0, aad_len(ver, alg))


def deserialize(cases):
    """cases: iterable of (version, algorithm, mode, number of keyslots or None, schemes or None)"""
    cases = list(cases)

    def f(e, st, c):
        o, _ = obj_of(e, st, c.args[0])
        if not (o[0] == "O" and o[1] == "file"):
            return NH
        name, pos, size, mod, fl = fget(e, st, o)
        key = hdr_key(name)
        if mod != "0":
            # only unmodified content is described by this summary
            return NH
        tid = adt(e, P + "header::Header")
        out = []
        s = st.fork()
        s.nf += 1
        np = fresh("pos", 0, 1 << 61)
        e.assume(s, e.mkge(s, np, pos))
        fset(e, s, o, pos=np)
        e.event(s, "fail", "deserialize", name)
        out.append((s, err(("T", "anyhow", ("header",)), c.dty)))
        for ver, alg, mode, n, sch in cases:
            s = st.fork()
            s.nf += 1
            okk = assume_header(e, s, key, ver, alg, mode, n, sch)
            okk &= e.assume(s, e.mkeq(s, sym(("disc", key + ("salt",)), 0, 1), 1))
            okk &= e.assume(s, e.mkge(s, sub(size, pos), spec.SIZE[ver]))
            if not okk:
                continue
            fset(e, s, o, pos=add(pos, spec.SIZE[ver]))
            e.event(s, "deserialize", o, name, pos, ver, alg, mode, n)
            a = newvec(e, s, aad_of(name, ver, alg))
            out.append((s, ok(("A", "tuple", 0, (e.S(key, tid), a)), c.dty)))
        return out

    return f


def cases(vers=("V1", "V2", "V3", "V4", "V5"), slots=(0, 1, 2), algs=None, modes=None, scheme=None):
    for v in vers:
        for a in algs or spec.ALGS:
            for m in modes or spec.MODES:
                if v in ("V1", "V2", "V3"):
                    yield v, a, m, None, None
                elif v == "V4":
                    yield v, a, m, 1, [("Blake3Balloon", 4)]
                else:
                    for n in slots:
                        yield v, a, m, n, scheme[:n] if scheme else None


def install(nat, cs):
    nat.over = dict(nat.over)
    nat.over["~volaris_crypto::header::Header::deserialize$"] = deserialize(cs)


TOOLS = ("encrypt", "decrypt", "pack", "unpack", "erase", "erase_dir", "overwrite", "hash", "header::dump", "header::restore", "header::strip", "key::add", "key::change", "key::delete", "key::verify")


def tool(name, failing=True):
    """an operation of the tools crate whose own behaviour other properties establish: it may succeed or fail"""

    def f(e, st, c):
        ps = {}
        req = e.res(st, c.args[-1]) if c.args else None
        if req is not None and req[0] == "A" and isinstance(req[1], int):
            ps = dict(zip([n for n, _ in e.p.ty(req[1])["variants"][req[2]]["fields"]], req[3]))
        e.event(st, "tool", name, ps, c.args)
        for n in ("writer", "header_writer", "reader", "header_reader"):
            v = ps.get(n)
            if v is None:
                continue
            v = e.res(st, v)
            if v[0] == "A" and v[1] == "option" or v[0] == "A" and isinstance(v[1], int) and e.p.ty(v[1]).get("path") == "core::option::Option":
                if v[2] == 0:
                    continue
                v = e.res(st, v[3][0])
            try:
                o, _ = obj_of(e, st, v)
            except Limit:
                continue
            if o[0] == "O" and o[1] == "file":
                if "writer" in n:
                    fset(e, st, o, pos=fresh("pos", 0, 1 << 61), size=fresh("size", 0, 1 << 61), mod="1")
                else:
                    fset(e, st, o, pos=fresh("pos", 0, 1 << 61))
        out = []
        if failing:
            s = st.fork()
            s.nf += 1
            e.event(s, "fail", "tool:" + name, None)
            out.append((s, err(("T", "toolerr", name), c.dty)))
        st.nf += 1
        e.event(st, "tooldone", name, ps)
        ot = rt(e, c)
        unit = ot is None or e.p.ty(ot)["k"] == "tuple" and not e.p.ty(ot).get("args")
        out.append((st, ok(UNIT if unit else e.S(("toolret", name), ot), c.dty)))
        return out

    return f


def tools(nat, *names):
    nat.over = dict(nat.over)
    for n in names:
        nat.over["~volaris_tools::%s::execute$" % n] = tool(n)


def read_dir(e, st, c):
    """listing a directory: an error or an arbitrary list of entries (T01 decides what is listed)"""
    s = st.fork()
    s.nf += 1
    e.event(s, "fail", "walk", None)
    out = [(s, err(("T", "storageerr"), c.dty))]
    st.nf += 1
    e.event(st, "read_dir", e.res(st, c.args[1]) if len(c.args) > 1 else None)
    out.append((st, ok(e.S(("read_dir",), rt(e, c)), c.dty)))
    return out


def listing(nat):
    nat.over = dict(nat.over)
    nat.over["~volaris_tools::storage::.*::read_dir$"] = read_dir


def passphrase(e, st, c):
    """a generated passphrase (K04 decides what it is)"""
    from natives import deref

    n, _ = deref(e, st, c.args[0])
    e.event(st, "passphrase", n)
    return e.S(("passphrase",), c.dty)


def generated(nat):
    nat.over = dict(nat.over)
    nat.over["~volaris_crypto::key::generate_passphrase$"] = passphrase
