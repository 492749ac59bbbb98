"""A failed step is never reported as success (X01)."""
from fw import Mon, Scenario, outcome
from lin import TAB

from . import PROPS, add as reg
from .crypto import exact
from .files import KPATH  # noqa: F401
from .keys import keycases
from .pipeline import READER, anypos, cases, dec_setup, hdr_conf

ALWAYS = ()
SLOT = ("kdf", "kdfparams", "keyinit", "decrypt")


class Fails(Mon):
    """every failing step is either reported or one of the documented fallbacks"""

    def start(self, e, st):
        st.mon.update(bad=False, slot=False, interrupted=False)

    def tolerated(self, e, st, op, d):
        return False

    def on_fail(self, e, st, op, d):
        if self.tolerated(e, st, op, d):
            return
        if op == "read":
            # reading goes on after an interrupted call
            st.mon["interrupted"] = True
        elif op in SLOT:
            # the next keyslot may be tried
            st.mon["slot"] = True
        else:
            st.mon["bad"] = True

    def again(self, e, st):
        if st.mon["interrupted"]:
            st.mon["interrupted"] = False
            t = [t for t in e.p.types if t.get("k") == "adt" and t["path"].endswith("io::error::ErrorKind")]
            n = [v["name"] for v in t[0]["variants"]].index("Interrupted") if t else None
            if not any(v == n and TAB.info[k][0][:2] == ("disc", ("kind",) + TAB.info[k][0][1][1:]) for k, v in st.cons.eq.items() if isinstance(TAB.info[k][0], tuple) and len(TAB.info[k][0]) > 1 and isinstance(TAB.info[k][0][1], tuple)):
                st.mon["bad"] = True

    def on_read(self, e, st, o, name, pos, n):
        self.again(e, st)

    def on_eof(self, e, st, o, name):
        self.again(e, st)

    def on_decfail(self, e, st, alg, key, nonce, aad, pos, msg):
        if pos != ("one",):
            st.mon["bad"] = True
        else:
            st.mon["slot"] = True

    def on_encfail(self, e, st, *a):
        st.mon["bad"] = True

    def on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        if pos == ("one",):
            st.mon["slot"] = False

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        if k == "ok":
            self.oksinks += 1
            self.ob(e, st, "failures are reported", not (st.mon["bad"] or st.mon["slot"] or st.mon["interrupted"]), "success is reported although a step failed")


class DecFails(Fails):
    def tolerated(self, e, st, op, d):
        # data shorter than a header: there is no blanked header area
        return op == "read_exact:eof" and d == READER and st.mon["detached"] and not st.mon["body"]

    def start(self, e, st):
        Fails.start(self, e, st)
        st.mon.update(detached=self.detached, body=False)

    def on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        Fails.on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r)
        st.mon["body"] = True


def like(pids, mon, pred=lambda s: True, tag=""):
    for pid in pids:
        for s in PROPS[pid]["scenarios"]:
            if pred(s):
                yield Scenario(tag + s.name, s.root, mon if isinstance(mon, type) else mon(s), s.setup, s.crate, s.limit, s.tier, s.core, s.conf, s.min_ok if pid != "S03" else 0)


def only(cls, *rules):
    """the same monitor, deciding these rules only"""

    def ob(self, e, st, rule, verdict, msg):
        if rule in rules:
            cls.ob(self, e, st, rule, verdict, msg)

    return type(cls.__name__, (cls,), {"ob": ob})


def x01():
    yield Scenario("encrypt::execute", "root_encrypt", Fails, conf=anypos(READER), min_ok=1)
    yield Scenario("encrypt_file", "root_encrypt_file", Fails, min_ok=1)
    yield Scenario("decrypt_file", "root_decrypt_file", Fails, min_ok=1)
    for v in ("V1", "V2", "V3", "V4", "V5"):
        for det in (False, True):
            m = type("DecFails", (DecFails,), {"detached": det})
            yield Scenario("decrypt::execute, %s header, %s" % ("detached" if det else "attached", v), "root_decrypt", m, dec_setup(det), conf=hdr_conf(cases((v,), (2,), algs=("XChaCha20Poly1305",))), min_ok=1)
    for s in keycases(("add", "change", "delete", "verify"), ()):
        if s.name.split()[2:5] in (["V5", "Aes256Gcm", "StreamMode"], ["V5", "Aes256Gcm", "MemoryMode"], ["V4", "Aes256Gcm", "StreamMode"]):
            s.mon = Fails
            yield s
    yield from like(("D02",), Fails, lambda s: " Aes256Gcm " in s.name and any(x in s.name for x in (" V3 ", " V4 ", " V5 Aes256Gcm 0", " V5 Aes256Gcm 2")))
    yield from like(("H03",), Fails)
    yield from like(("H01",), Fails, lambda s: s.root == "root_hdr_write")
    yield from like(("S03", "K01"), Fails)
    yield from like(("K02",), Fails, lambda s: "Aes256Gcm" in s.name)
    yield from like(("E01", "E02", "G01", "T01"), Fails)
    yield from like(("E03", "P01", "U02"), lambda s: only(s.mon, "failures are reported"))


reg(
    "X01",
    "Interprets every operation of the library with each of its steps failing in turn; on every path that ends in success no step may have failed, except the documented fallbacks.",
    *x01())
