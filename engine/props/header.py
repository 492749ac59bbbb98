"""H01, H02, H03: header format."""
import spec
from core import Limit, bmerge, blen, lit, seg
from fw import Mon, Scenario, content, eqv, exactly, fields, must, opaque, outcome, same_bytes, val, variant
from lin import add, is_num, sub, sym
from . import add as reg

HK = ("h", "*")


def adt(e, path):
    for i, t in enumerate(e.p.types):
        if t.get("k") == "adt" and t["path"] == path:
            return i
    raise Limit("type " + path)


def vidx(e, path, name):
    t = e.p.types[adt(e, path)]
    return [v["name"] for v in t["variants"]].index(name)


P = "volaris_crypto::"


def assume_header(e, st, key, ver, alg, mode, nslots, scheme=None):
    """pin down a symbolic header: tags, nonce lengths and number of keyslots"""
    C = lambda s, n: e.assume(st, e.mkeq(st, s, n))
    ok = C(sym(("disc", key + ("header_type", "version")), 0, 4), vidx(e, P + "header::HeaderVersion", ver))
    ok &= C(sym(("disc", key + ("header_type", "algorithm")), 0, 2), vidx(e, P + "primitives::Algorithm", alg))
    ok &= C(sym(("disc", key + ("header_type", "mode")), 0, 1), vidx(e, P + "primitives::Mode", mode))
    ok &= C(e.len_sym(key + ("nonce",)), spec.nlen(alg, mode))
    if nslots is not None:
        ok &= C(sym(("disc", key + ("keyslots",)), 0, 1), 1)
        ok &= C(e.len_sym(key + ("keyslots", "Some", "0")), nslots)
        for i in range(nslots):
            k = key + ("keyslots", "Some", "0", "[]", i)
            ok &= C(e.len_sym(k + ("nonce",)), spec.nlen(alg, "MemoryMode"))
            if scheme is not None:
                s = scheme[i]
                ok &= C(sym(("disc", k + ("hash_algorithm",)), 0, 1), 0 if s[0] == "Argon2id" else 1)
                ok &= C(sym(k + ("hash_algorithm", s[0], "0"), -(1 << 31), (1 << 31) - 1), s[1])
    else:
        ok &= C(sym(("disc", key + ("keyslots",)), 0, 1), 0)
    return ok


SCHEMES = list(spec.SLOTS)


def header_vals(key, ver, alg, mode, nslots, scheme):
    B = lambda k, n: seg(("sym", k), 0, n)
    v = {"version": lit(spec.VERSIONS[ver]), "algorithm": lit(spec.ALGS[alg]), "mode": lit(spec.MODES[mode])}
    v["nonce"] = B(key + ("nonce",), spec.nlen(alg, mode))
    if ver in ("V1", "V2", "V3", "V4"):
        v["salt"] = B(key + ("salt", "Some", "0"), 16)
    for i in range(nslots or 0):
        k = key + ("keyslots", "Some", "0", "[]", i)
        v[("slot", i, "id")] = lit(spec.SLOTS[scheme[i]]) if scheme else None
        v[("slot", i, "key")] = B(k + ("encrypted_key",), 48)
        v[("slot", i, "nonce")] = B(k + ("nonce",), spec.nlen(alg, "MemoryMode"))
        v[("slot", i, "salt")] = B(k + ("salt",), 16)
    return v


def combos():
    for ver, ns in (("V3", (None,)), ("V4", (1,)), ("V5", (0, 1, 2, 3, 4))):
        for n in ns:
            for alg in spec.ALGS:
                for mode in spec.MODES:
                    yield ver, alg, mode, n


def setup_for(ver, alg, mode, n, scheme, salt):
    def s(e, st, args):
        ok = assume_header(e, st, HK, ver, alg, mode, n, scheme)
        if salt is not None:
            ok &= e.assume(st, e.mkeq(st, sym(("disc", HK + ("salt",)), 0, 1), 1 if salt else 0))
        return None if ok else False

    return s


class Ser(Mon):
    """serialize/write produce exactly the published layout"""

    cfg = None

    def start(self, e, st):
        ver, alg, mode, n, scheme, salt = self.cfg
        vals = header_vals(HK, ver, alg, mode, n, scheme)
        if ver == "V4" and not salt:
            vals["salt"] = seg(("sym", HK + ("keyslots", "Some", "0", "[]", 0, "salt")), 0, 16)
        self.want = spec.compose(ver, alg, mode, vals)
        st.mon["out"] = ("B", ())

    def compare(self, e, st, b):
        ver, alg, mode, n, scheme, salt = self.cfg
        what = "%s/%s/%s header with %s keyslots" % (ver, alg, mode, n)
        self.ob(e, st, "size is the documented one", exactly(e, st, blen(b), spec.SIZE[ver]), "a %s header does not have its documented size" % ver)
        for name, off, l in spec.layout(ver, alg, mode):
            w = e.bslice(st, self.want, off, l)
            g = e.bslice(st, b, off, l)
            nm = name if isinstance(name, str) else "keyslot " + name[2]
            self.ob(e, st, "field %s is stored at its place" % nm, same_bytes(e, st, g, w), "%s of a %s header is not stored at its documented place" % (nm, ver))
        self.ob(e, st, "whole header", same_bytes(e, st, b, self.want), "the bytes of a %s header differ from the documented layout" % ver)

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "ok":
            self.oksinks += 1
            b = content(e, st, p)
            if b is not None:
                self.compare(e, st, b)

    def on_panic(self, e, st, what, maybe):
        self.ob(e, st, "no panic", None if maybe else False, "serializing a valid header panics")


class Write(Ser):
    def on_write(self, e, st, o, name, pos, data, size):
        st.mon["out"] = ("B", bmerge(st.mon["out"][1] + data[1], st.cons))

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "ok":
            self.oksinks += 1
            self.compare(e, st, st.mon["out"])


class Size(Mon):
    cfg = None

    def on_sink(self, e, st, v):
        self.oksinks += 1
        self.ob(e, st, "get_size is the documented size", exactly(e, st, e.as_int(st, v), spec.SIZE[self.cfg[0]]), "get_size of a %s header is not its documented size" % self.cfg[0])


class Aad(Ser):
    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "ok":
            self.oksinks += 1
            b = content(e, st, p)
            ver, alg, mode, n, scheme, salt = self.cfg
            want = spec.aad(e, st, ver, alg, self.want)
            self.ob(e, st, "created additional data is the authenticated part of the header", same_bytes(e, st, b, want), "the additional data created for a %s header is not the authenticated part of the bytes written for it" % ver)


def mk(cls, *cfg):
    return type(cls.__name__, (cls,), {"cfg": cfg})


def ser_scenarios(cls, root, name):
    out = []
    for ver, alg, mode, n in combos():
        variants = [[SCHEMES[(i + k) % 5] for i in range(n or 0)] for k in range(5)] if n and ver == "V5" else [None]
        if ver == "V4":
            variants = [[("Blake3Balloon", 4)]]
        for k, sch in enumerate(variants):
            for salt in ((True, False) if ver == "V4" else (True,) if ver == "V3" else (None,)):
                out.append(Scenario("%s %s/%s/%s/%s/%d%s" % (name, ver, alg, mode, n, k, "" if salt is not False else " no salt"), root, mk(cls, ver, alg, mode, n, sch, salt), setup_for(ver, alg, mode, n, sch, salt), min_ok=1))
    return out


FILE = ("file", ("f", "*"), "0")


def fbyte(off):
    return sym(("byte", FILE, off), 0, 255)


class Parse(Mon):
    """deserialize decodes exactly the published layout"""

    aadonly = False

    def start(self, e, st):
        self.seen = set()

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k != "ok":
            return
        self.oksinks += 1
        p = val(e, st, p)
        h, aad = p[3][0], p[3][1]
        f = fields(e, st, h)
        ht = fields(e, st, f["header_type"])
        ver, alg, mode = (variant(e, st, ht[x])[0] for x in ("version", "algorithm", "mode"))
        if ver is None or alg is None or mode is None:
            # not distinguished: the tags were not looked at
            self.ob(e, st, "tags decide the header type", None, "header type is not determined")
            return
        F = lambda o, n: seg(FILE, o, n)
        full = F(0, spec.SIZE[ver])
        b = content(e, st, aad)
        if self.aadonly:
            self.ob(e, st, "parsed additional data is the authenticated part of the header", same_bytes(e, st, b, spec.aad(e, st, ver, alg, full)), "the additional data returned for a %s header is not the authenticated part of its bytes" % ver)
            return
        self.seen.add((ver, alg, mode))
        for nm, off, tab, got in (("version", 0, spec.VERSIONS, ver), ("algorithm", 2, spec.ALGS, alg), ("mode", 4, spec.MODES, mode)):
            for i in (0, 1):
                r = eqv(e, st, fbyte(off + i), tab[got][i])
                self.ob(e, st, "%s tag is recognised" % nm, must(r), "a header is accepted as %s although its %s tag is not that of %s" % (got, nm, got))
        lay = {n: (o, l) for n, o, l in spec.layout(ver, alg, mode)}
        self.ob(e, st, "nonce is decoded", same_bytes(e, st, content(e, st, f["nonce"]), F(*lay["nonce"])), "the nonce of a %s header is not decoded from its documented place" % ver)
        if "salt" in lay and ver != "V4":
            kind, s = variant(e, st, f["salt"])
            self.ob(e, st, "salt is decoded", kind == "Some" and same_bytes(e, st, content(e, st, s[0]), F(*lay["salt"])), "the salt of a %s header is not decoded from its documented place" % ver)
        # position
        pos = e.cell(st, ("c", ("f", "*")))[3][1]
        self.ob(e, st, "exactly the header is consumed", exactly(e, st, pos, spec.SIZE[ver]), "parsing a %s header does not leave the reader directly behind it" % ver)
        kind, s = variant(e, st, f["keyslots"])
        if ver in ("V1", "V2", "V3"):
            self.ob(e, st, "no keyslots before V4", kind == "None", "a %s header yields keyslots" % ver)
            return
        if kind != "Some":
            self.ob(e, st, "keyslots are decoded", False, "a %s header yields no keyslot list" % ver)
            return
        L = content(e, st, s[0])
        if any(i[0] != "e" for i in L[1]):
            self.ob(e, st, "keyslots are decoded", None, "keyslot list was summarised")
            return
        got = [fields(e, st, i[1]) for i in L[1]]
        want = []
        if ver == "V4":
            want = [0]
        else:
            for i in range(4):
                r = eqv(e, st, fbyte(32 + 96 * i), 0xDF)
                if r is None:
                    self.ob(e, st, "keyslots are decoded", False, "whether keyslot %d is populated is not decided by its identifier" % i)
                    return
                if r:
                    want.append(i)
        if not self.ob(e, st, "every populated keyslot is decoded, no other", len(got) == len(want), "the keyslots found are not the populated ones"):
            return
        for g, i in zip(got, want):
            n, a = variant(e, st, g["hash_algorithm"])
            sc = (n, e.as_int(st, a[0])) if n else None
            if ver == "V4":
                self.ob(e, st, "keyslot scheme is decoded", sc == ("Blake3Balloon", 4), "the keyslot of a V4 header has another hashing scheme than documented")
                self.ob(e, st, "keyslot salt is decoded", same_bytes(e, st, content(e, st, g["salt"]), F(6, 16)), "the keyslot salt of a V4 header is not decoded from its documented place")
            else:
                idb = spec.SLOTS.get(sc)
                if idb is None:
                    self.ob(e, st, "keyslot scheme is decoded", False if sc and isinstance(sc[1], int) else None, "a keyslot gets an undocumented hashing scheme")
                else:
                    self.ob(e, st, "keyslot scheme is decoded", must(eqv(e, st, fbyte(32 + 96 * i + 1), idb[1])), "a keyslot is given the scheme %s %d although its identifier is another one" % sc)
                    self.seen.add(("scheme", i, sc))
                self.ob(e, st, "keyslot salt is decoded", same_bytes(e, st, content(e, st, g["salt"]), F(*lay[("slot", i, "salt")])), "a keyslot salt is not decoded from its documented place")
            self.ob(e, st, "keyslot key is decoded", same_bytes(e, st, content(e, st, g["encrypted_key"]), F(*lay[("slot", i, "key")])), "an encrypted master key is not decoded from its documented place")
            self.ob(e, st, "keyslot nonce is decoded", same_bytes(e, st, content(e, st, g["nonce"]), F(*lay[("slot", i, "nonce")])), "a keyslot nonce is not decoded from its documented place")
        if ver == "V5":
            self.seen.add(("slots", tuple(want)))

    expect = ()

    def finish(self, e, results):
        if self.aadonly:
            return
        from core import State

        for x in self.expect:
            self.ob(e, State(), "every valid header is accepted", x in self.seen, "no execution accepts a header with %s" % (x,))

    def on_panic(self, e, st, what, maybe):
        self.ob(e, st, "no panic", None if maybe else False, "parsing a header panics")


def tagsetup(ver, ids=None):
    def s(e, st, args):
        ok = e.assume(st, e.mkeq(st, fbyte(1), int(ver[1])))
        for i, x in enumerate(ids or ()):
            a, b = fbyte(32 + 96 * i), fbyte(33 + 96 * i)
            if x == "free":
                continue
            if x == "empty":
                c = sub(a, 0xDF)
                ok &= e.assume(st, ("C", "ne", c))
            else:
                ok &= e.assume(st, e.mkeq(st, a, 0xDF)) and e.assume(st, e.mkeq(st, b, x))
        return None if ok else False

    return s


def other(e, st, args):
    """version tags that are not one of the five"""
    ok = True
    for i in range(1, 6):
        ok &= e.assume(st, ("C", "ne", sub(fbyte(1), i)))
    return None if ok else False


def exact(e, nat):
    e.exact = True


def parse_scenarios(cls, aadonly=False):
    out = []
    am = [(a, m) for a in spec.ALGS for m in spec.MODES]

    def sc(name, ver, ids, expect, min_ok=1):
        c = type(cls.__name__, (cls,), {"aadonly": aadonly, "expect": expect})
        out.append(Scenario(name, "root_hdr_deserialize", c, tagsetup(ver, ids), conf=exact, min_ok=min_ok))

    for ver in ("V1", "V2", "V3", "V4"):
        sc("parse " + ver, ver, None, [(ver, a, m) for a, m in am])
    import itertools

    for i in range(4):
        for pat in itertools.product(("empty", 0xB5), repeat=3):
            ids = list(pat[:i]) + ["free"] + list(pat[i:])
            pop = tuple(k for k in range(4) if ids[k] == 0xB5)
            expect = [("V5", a, m) for a, m in am] + [("scheme", i, s) for s in spec.SLOTS]
            expect += [("slots", pop), ("slots", tuple(sorted(pop + (i,))))]
            sc("parse V5 " + "/".join(str(x) for x in ids), "V5", ids, expect)
    c = type(cls.__name__, (cls,), {"aadonly": aadonly})
    out.append(Scenario("parse unknown version", "root_hdr_deserialize", c, other))
    return out


reg(
    "H01",
    "For every version, algorithm, mode, keyslot count 0..4 and hashing scheme, abstract interpretation of Header::serialize, Header::write and Header::get_size on a header with arbitrary field contents yields a byte string of known provenance; it is compared segment by segment with the published layout. Header::deserialize is then analysed on arbitrary file contents and every decoded field compared with the same layout, so the two agree for every content.",
    *ser_scenarios(Ser, "root_hdr_serialize", "serialize"),
    *[Scenario("write %s/%s" % (v, n), "root_hdr_write", mk(Write, v, "Aes256Gcm", "StreamMode", n, [SCHEMES[i] for i in range(n or 0)] if v == "V5" else [("Blake3Balloon", 4)], True), setup_for(v, "Aes256Gcm", "StreamMode", n, [SCHEMES[i] for i in range(n or 0)] if v == "V5" else [("Blake3Balloon", 4)], True), min_ok=1) for v, n in (("V3", None), ("V4", 1), ("V5", 0), ("V5", 4))],
    *[Scenario("get_size %s" % v, "root_hdr_size", mk(Size, v), setup_for(v, "Aes256Gcm", "StreamMode", None, None, True), min_ok=1) for v in spec.SIZE],
    *parse_scenarios(Parse),
)
reg(
    "H02",
    "The byte string returned by Header::create_aad and the one returned by Header::deserialize are both derived with full provenance by abstract interpretation and compared with the authenticated part of the published layout.",
    *ser_scenarios(Aad, "root_hdr_aad", "create_aad"),
    *parse_scenarios(Parse, aadonly=True),
)
reg(
    "H03",
    "Header::deserialize is analysed on arbitrary file contents for all versions, algorithms, modes and keyslot populations; each accepting path must have tested the documented tag values and must take every field from its documented offset.",
    *parse_scenarios(Parse),
)
