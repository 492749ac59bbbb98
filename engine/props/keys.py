"""Key management (K06, K07, K08; freshness K03) and header tools (D02) on whole operations."""
import contracts
import spec
from contracts import hdr_key
from core import blen, bmerge, seg
from fw import Mon, Scenario, eqv, exactly, outcome, same_bytes
from lin import add, is_num, sub, sym

from . import add as reg, more
from .crypto import adt, whole
from .header import SCHEMES, header_vals
from .pipeline import EMPTY, Groups, anypos, check_fresh, kdf_scheme, single, slot_checks, unknown

H = ("req", "handle", "*", "*")
READER = ("req", "reader", "*", "*")
WRITER = ("req", "writer", "*", "*")


class Rewrite(Mon):
    """collects the bytes an operation writes to one file and where"""

    target = H

    def begin(self, st, **kw):
        st.mon.update(out=EMPTY, at=None, nowr=True, wf=False, hdr=None, **kw)

    def on_wfail(self, e, st, o, name, pos, y):
        st.mon["wf"] = True

    def wrote(self, e, st, name, pos, data, group):
        if name != self.target:
            self.g(group, e, st, "only the header file is written", False, "something other than the file with the header is written")
            return
        if st.mon["at"] is None:
            st.mon["at"] = pos
        else:
            self.g(group, e, st, "written in one piece", exactly(e, st, add(st.mon["at"], blen(st.mon["out"])), pos), "the header is not written in one contiguous piece")
        st.mon["nowr"] = False
        st.mon["out"] = ("B", bmerge(st.mon["out"][1] + data[1], st.cons))


def header_fields(e, st, b, ver, alg, mode):
    return {name: e.bslice(st, b, off, n) for name, off, n in spec.layout(ver, alg, mode)}


class KeyOp(Groups, Rewrite):
    op = None
    case = None

    def p0(self, e):
        return e.natives.POS0[H]

    def start(self, e, st):
        self.begin(st, opened=None, mk=None, failed=False, cur=None, tried=())

    def on_deserialize(self, e, st, o, name, pos, ver, alg, mode, n):
        st.mon["hdr"] = (ver, alg, mode, n)
        self.g("K06", e, st, "header is parsed where the file stands", name == H and exactly(e, st, pos, self.p0(e)), "the header is not parsed at the position the file was given at")

    def on_fail(self, e, st, op, d):
        if op not in ("decrypt",):
            st.mon["failed"] = True

    def slot(self, e, st, msg):
        for i in range(st.mon["hdr"][3] or 0):
            if same_bytes(e, st, msg, whole(hdr_key(H) + ("keyslots", "Some", "0", "[]", i, "encrypted_key"), 48)) is True:
                return i
        return None

    def on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        i = self.slot(e, st, msg) if st.mon["hdr"] else None
        old = whole(("req", "raw_key" if self.op == "verify" else "raw_key_old", "data"))
        k = single(e, st, key, 32)
        g = "K08" if self.op == "verify" else "K06"
        self.g(g, e, st, "the old key opens a keyslot", None if i is None and unknown(msg) else i is not None, "what is opened is not one of the header's keyslots")
        self.g(g, e, st, "the old key opens a keyslot with its complete password", None if unknown(key) else k is not None and k[0] == "kdf" and same_bytes(e, st, k[2], old), "a keyslot is opened with something other than the given old key")
        if i is not None:
            if k is not None and k[0] == "kdf":
                sk = hdr_key(H) + ("keyslots", "Some", "0", "[]", i)
                self.g(g, e, st, "the slot's own parameters", same_bytes(e, st, k[3], whole(sk + ("salt",), 16)) is not False and kdf_scheme(k[1]) == self.case[4][i] and alg == spec.AEAD[st.mon["hdr"][1]] and same_bytes(e, st, nonce, whole(sk + ("nonce",), spec.nlen(st.mon["hdr"][1], "MemoryMode"))), "a keyslot is opened with parameters that are not its own")
            st.mon["opened"] = i
            st.mon["mk"] = r

    def on_decfail(self, e, st, alg, key, nonce, aad, pos, msg):
        i = self.slot(e, st, msg) if st.mon["hdr"] else None
        st.mon["tried"] = st.mon["tried"] + (i,)

    def on_encfail(self, e, st, *a):
        st.mon["failed"] = True

    def sane(self, e, st):
        """can the scheme asked for be one that exists?"""
        if self.op == "delete":
            return True
        k = ("req", "hash_algorithm")
        ty = e.p.types[adt(e, "volaris_crypto::header::HashingAlgorithm")]["variants"]
        for i, v in enumerate(ty):
            for n in {"Argon2id": (1, 2, 3), "Blake3Balloon": (4, 5)}.get(v["name"], ()):
                s = st.fork()
                if e.assume(s, e.mkeq(s, sym(("disc", k), 0, len(ty) - 1), i)):
                    x = e.val(s, e.S(k + (v["name"], "0"), v["fields"][0][1]))
                    if is_num(x) and e.assume(s, e.mkeq(s, x, n)):
                        return True
        return False

    def refused(self, e, st):
        """an error without any failing step: only a key that opens nothing justifies it"""
        h = st.mon["hdr"]
        if h is None or h[0] != "V5" or st.mon["failed"]:
            return
        g = "K08" if self.op == "verify" else "K06"
        n = h[3] or 0
        if self.op == "add" and n == 4:
            return
        if st.mon["opened"] is None:
            v = set(range(n)) <= set(st.mon["tried"])
            if not v and None in st.mon["tried"]:
                v = None
            self.g(g, e, st, "every keyslot is tried before the key is refused", v, "the key is refused although not every keyslot was tried")
        elif self.op != "verify" and self.sane(e, st):
            self.g(g, e, st, "an accepted key is enough", False, "the operation is refused although the old key opened a keyslot and nothing failed")

    def on_write(self, e, st, o, name, pos, data, size):
        if self.op == "verify":
            self.g("K08", e, st, "verification does not write", False, "verifying a key writes to the file")
            return
        h = st.mon["hdr"]
        self.g("K06", e, st, "only V5 headers are changed", h is not None and h[0] == "V5", "a header that is not V5 is changed")
        self.g("K06", e, st, "nothing is written before the old key was accepted", st.mon["opened"] is not None, "the header is written although no keyslot was opened with the old key")
        first = st.mon["nowr"]
        self.wrote(e, st, name, pos, data, "K06")
        if first and name == H:
            self.g("K06", e, st, "header goes back to its place", exactly(e, st, pos, self.p0(e)), "the header is not written back to where it was read")

    def on_setlen(self, e, st, o, name, n):
        self.g("K08" if self.op == "verify" else "K06", e, st, "file length is kept", False, "a key operation changes the length of the file")

    def on_open(self, e, st, o, path, flags):
        self.g("K08" if self.op == "verify" else "K06", e, st, "no other file", False, "a key operation opens another file")

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "err":
            self.refused(e, st)
            if self.op == "verify":
                self.g("K08", e, st, "a key that opens a slot is accepted", st.mon["opened"] is None, "verification fails although the key opened a keyslot")
            else:
                self.g("K06", e, st, "a failing operation writes nothing", st.mon["nowr"] or st.mon["wf"], "the operation fails although the header was already rewritten")
            return
        if k != "ok":
            return
        self.oksinks += 1
        g = "K08" if self.op == "verify" else "K06"
        h = st.mon["hdr"]
        self.g(g, e, st, "only V5 succeeds", h is not None and h[0] == "V5", "success is reported for a header that is not V5")
        self.g(g, e, st, "success needs an opened keyslot", st.mon["opened"] is not None, "success is reported although no keyslot was opened with the key")
        if self.op == "verify" or h is None or h[0] != "V5" or st.mon["opened"] is None:
            return
        ver, alg, mode, n = h
        b = st.mon["out"]
        sch = list(self.case[4])
        vals = header_vals(hdr_key(H), ver, alg, mode, n, sch)
        if not self.g("K06", e, st, "the whole header is rewritten", exactly(e, st, blen(b), spec.SIZE[ver]), "the header is not completely rewritten"):
            return
        f = header_fields(e, st, b, ver, alg, mode)
        i = st.mon["opened"]
        S = [{x: vals[("slot", j, x)] for x in ("id", "key", "nonce", "salt")} for j in range(n)]
        new = None
        if self.op == "delete":
            del S[i]
        elif self.op == "change":
            new = i
            S[i] = None
        else:
            self.g("K06", e, st, "never more than four keyslots", n < 4, "a fifth keyslot is added")
            new = n
            S.append(None)
        want = {x: vals[x] for x in ("version", "algorithm", "mode", "nonce")}
        for x, w in want.items():
            self.g("K06", e, st, "%s stays" % x, same_bytes(e, st, f[x], w), "%s changes the %s recorded in the header" % (self.op, x))
        for j in range(4):
            if j == new:
                continue
            for x in ("id", "key", "nonce", "salt"):
                w = S[j][x] if j < len(S) else seg(("zero",), 0, e.length(st, f[("slot", j, x)]))
                self.g("K06", e, st, "other keyslots stay", same_bytes(e, st, f[("slot", j, x)], w), "%s does not leave the other keyslots as they were" % self.op if j < len(S) else "a keyslot appears that should not exist")
        # padding
        for name, off, w in gaps(ver, alg, mode):
            self.g("K06", e, st, "padding is blank", same_bytes(e, st, e.bslice(st, b, off, w), seg(("zero",), 0, w)), "padding of the header is not blank")
        if new is not None and new < 4:
            slot_checks(self, "K07", e, st, f, alg, new, st.mon["mk"], whole(("req", "raw_key_new", "data")), "new password")
            if "K03" in self.groups:
                check_fresh(self, e, st, [("salt of the new keyslot", f[("slot", new, "salt")], 16), ("nonce of the new keyslot", f[("slot", new, "nonce")], spec.nlen(alg, "MemoryMode"))])


def gaps(ver, alg, mode):
    pos = 0
    for name, off, n in spec.layout(ver, alg, mode):
        if off > pos:
            yield name, pos, off - pos
        pos = off + n
    if pos < spec.SIZE[ver]:
        yield "end", pos, spec.SIZE[ver] - pos


def keycases(ops, groups):
    for op in ops:
        for alg in spec.ALGS:
            for n in range(5):
                for k in range(5 if n == 1 else 1):
                    sch = [SCHEMES[(i + n + k) % 5] for i in range(n)]
                    yield scen(op, ("V5", alg, "StreamMode" if (n + k) % 2 else "MemoryMode", n, sch), groups, 0 if n == 0 or (op == "add" and n == 4) else 1)
        for ver in ("V1", "V2", "V3", "V4"):
            for alg in spec.ALGS:
                yield scen(op, (ver, alg, "StreamMode", 1 if ver == "V4" else None, [("Blake3Balloon", 4)] if ver == "V4" else []), groups, 0)


def scen(op, case, groups, ok):
    m = type("KeyOp", (KeyOp,), {"groups": groups, "op": op, "case": case})

    def conf(e, nat):
        e.exact = True
        nat.POS0 = {H: sym(("pos0", H), 0, 1 << 60)}
        contracts.install(nat, [case])

    return Scenario("key %s %s %s %s %s" % (op, case[0], case[1], case[3], ",".join("%s:%d" % s for s in case[4])), "root_key_" + op, m, conf=conf, min_ok=ok)


reg(
    "K06",
    "Interprets key add, change and delete for headers of all versions with 0 to 4 keyslots in every scheme; the header is parsed by the summary H01-H03 justify, and every byte the operation writes is compared by provenance with the old header and the keyslot that was opened with the old key.",
    *keycases(("add", "change", "delete"), ("K06",)))
reg(
    "K07",
    "Same interpretation of key add and change: in the bytes of the new keyslot, the wrapped key, its algorithm, nonce, stretched password, salt and scheme identifier are traced to the master key the old key unlocked, the new password and the values recorded in that slot.",
    *keycases(("add", "change"), ("K07",)))
reg(
    "K08",
    "Interprets key verify for headers of all versions with 0 to 4 keyslots in every scheme: no write event is reachable, success is reachable only after a successful authenticated opening of a keyslot with the given key, and failure only when none opened.",
    *keycases(("verify",), ("K08",)))
more("K03", *[s for s in keycases(("add", "change"), ("K03",)) if " V5 " in s.name])


class HeaderTool(Groups, Rewrite):
    """dump, strip, restore"""

    groups = ("D02",)
    op = None
    case = None

    def start(self, e, st):
        self.begin(st, readat=None, blank=EMPTY, failed=False)

    def src(self):
        return H if self.op == "strip" else READER

    def on_deserialize(self, e, st, o, name, pos, ver, alg, mode, n):
        st.mon["hdr"] = (ver, alg, mode, n)
        self.ob(e, st, "the header is parsed where the file stands", name == self.src() and exactly(e, st, pos, e.natives.POS0.get(self.src(), 0)), "the header is not parsed from the source at its position")

    def on_fail(self, e, st, op, d):
        st.mon["failed"] = True

    def on_read(self, e, st, o, name, pos, n):
        if self.op == "restore" and name == WRITER:
            if st.mon["readat"] is None:
                st.mon["readat"] = pos
            st.mon["blank"] = ("B", bmerge(st.mon["blank"][1] + seg(("file", WRITER, "0"), pos, n)[1], st.cons))

    def zero(self, e, st, off, n):
        """is the target's area [off, off+n) known to be zero on this path?"""
        b = e.bslice(st, st.mon["blank"], off, n)
        return self.assumed == "zero" and same_bytes(e, st, b, seg(("file", WRITER, "0"), off, n))

    def on_write(self, e, st, o, name, pos, data, size):
        h = st.mon["hdr"]
        self.ob(e, st, "nothing is written before the header parsed", h is not None, "%s writes although no header was parsed" % self.op)
        first = st.mon["nowr"]
        self.wrote(e, st, name, pos, data, "D02")
        if first:
            self.ob(e, st, "written at the right place", exactly(e, st, pos, e.natives.POS0.get(self.target, 0)), "%s does not write at the start of the target" % self.op)
            if self.op == "restore" and h is not None:
                n = spec.SIZE[h[0]]
                self.ob(e, st, "a whole blank area was read first", st.mon["readat"] is not None and eqv(e, st, st.mon["readat"], 0) is True and eqv(e, st, blen(st.mon["blank"]), n) is True, "restore writes although it has not read exactly a header's length at the start of the target")
                self.ob(e, st, "the area was blank", self.assumed == "zero", "restore writes although the target has %s" % ("a non-zero byte in the header area" if self.assumed == "nonzero" else "less than a header's length"))

    def on_setlen(self, e, st, o, name, n):
        self.ob(e, st, "file length is kept", False, "%s changes the length of a file" % self.op)

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        h = st.mon["hdr"]
        if k == "err":
            self.ob(e, st, "a failing operation writes nothing", st.mon["nowr"] or st.mon["wf"], "%s fails although it already wrote" % self.op)
            if h is not None and (self.op != "restore" or self.assumed == "zero") and h[0] not in ("V1", "V2"):
                self.ob(e, st, "a valid request is not refused", st.mon["failed"], "%s refuses a valid file" % self.op)
            return
        if k != "ok":
            return
        self.oksinks += 1
        if h is None:
            self.ob(e, st, "success needs a parsed header", False, "%s succeeds without having parsed a header" % self.op)
            return
        ver, alg, mode, n = h
        want = seg(("zero",), 0, spec.SIZE[ver]) if self.op == "strip" else spec.compose(ver, alg, mode, header_vals(hdr_key(self.src()), ver, alg, mode, n, self.case[4]))
        self.ob(e, st, "exactly the header is written", same_bytes(e, st, st.mon["out"], want), "%s does not write exactly %s" % (self.op, "zeros over the header" if self.op == "strip" else "the header that was parsed"))


class Restore(HeaderTool):
    op = "restore"
    target = WRITER
    assumed = None


def tools():
    from .pipeline import K, nonzero_in, zero_area

    for op in ("dump", "strip", "restore"):
        for alg in spec.ALGS:
            for ver, n in (("V1", None), ("V2", None), ("V3", None), ("V4", 1)) + tuple(("V5", i) for i in range(5)):
                mode = "StreamMode" if n in (0, 2, 4) else "MemoryMode"
                sch = [SCHEMES[(i + n) % 5] for i in range(n)] if ver == "V5" else [("Blake3Balloon", 4)] if ver == "V4" else []
                case = (ver, alg, mode, n, sch)
                for assumed in ("zero", "nonzero", "short") if op == "restore" else (None,):
                    if assumed in ("nonzero", "short") and (alg != "Aes256Gcm" or n not in (None, 1)):
                        continue
                    base = {"op": op, "case": case, "assumed": assumed, "target": H if op == "strip" else WRITER}
                    m = type("HeaderTool", (HeaderTool,), base)
                    size = spec.SIZE[ver]

                    def conf(e, nat, case=case, op=op, assumed=assumed, size=size):
                        if op == "dump":
                            nat.POS0 = {READER: sym(("pos0", READER), 0, 1 << 60), WRITER: sym(("pos0", WRITER), 0, 1 << 60)}
                        contracts.install(nat, [case])
                        if assumed == "zero":
                            e.bytehook = zero_area(size, WRITER)
                        elif assumed == "nonzero":
                            e.bytehook = nonzero_in(WRITER)
                            e.special = list(e.special) + [K]

                    def setup(e, st, args, assumed=assumed, size=size):
                        if assumed is None:
                            return None
                        n = sym(("size", WRITER), 0, 1 << 61)
                        c = e.mkge(st, size - 1, n) if assumed == "short" else e.mkge(st, n, size)
                        okk = e.assume(st, c)
                        if assumed == "nonzero":
                            okk &= e.assume(st, e.mkge(st, size - 1, K)) and e.assume(st, e.mkge(st, sym(("byte", ("file", WRITER, "0"), K), 0, 255), 1))
                        return None if okk else False

                    good = (op == "strip" or ver not in ("V1", "V2")) and assumed in (None, "zero")
                    yield Scenario("header %s %s %s %s%s" % (op, ver, alg, n, " " + assumed if assumed else ""), "root_" + op, m, setup, conf=conf, min_ok=1 if good else 0)


reg(
    "D02",
    "Interprets header dump, strip and restore for headers of every version and slot count, restore additionally split into a blank, a non-blank (one arbitrary byte) and a too short target; every write's position and bytes are compared with the parsed header or zeros, and no write is reachable before the guard that the property demands.",
    *tools())
