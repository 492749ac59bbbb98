"""Algorithm dispatch (S03), key derivation (K01) and unlocking (K02)."""
import spec
from contracts import P, adt, assume_header, assume_slot, vidx
from fw import Mon, Scenario, content, eqv, exactly, must, opaque, outcome, same_bytes
from lin import sym
from core import blen, seg

from . import add as reg
from .pipeline import kdf_scheme, single, unknown

BIG = 1 << 40
ROOTS = [
    ("Ciphers::encrypt", "root_cipher_encrypt", "encrypt", ("one",), "MemoryMode", "msg"),
    ("Ciphers::decrypt", "root_cipher_decrypt", "decrypt", ("one",), "MemoryMode", "msg"),
    ("Ciphers::encrypt_in_place", "root_cipher_inplace", "encrypt", ("one",), "MemoryMode", "buf"),
    ("EncryptionStreams::encrypt_next", "root_stream_enc_next", "encrypt", ("stream", "LE31", "next", 0), "StreamMode", "msg"),
    ("EncryptionStreams::encrypt_last", "root_stream_enc_last", "encrypt", ("stream", "LE31", "last", 0), "StreamMode", "msg"),
    ("DecryptionStreams::decrypt_next", "root_stream_dec_next", "decrypt", ("stream", "LE31", "next", 0), "StreamMode", "msg"),
    ("DecryptionStreams::decrypt_last", "root_stream_dec_last", "decrypt", ("stream", "LE31", "last", 0), "StreamMode", "msg"),
]


def whole(key, n=None):
    return seg(("sym", key), 0, sym(("len", key), 0, BIG) if n is None else n)


class Cipher(Mon):
    """one call of a cipher wrapper runs exactly the named AEAD on exactly the caller's arguments"""

    panics = True
    row = alg = None

    def start(self, e, st):
        st.mon.update(op=None)

    def op(self, kind, e, st, alg, key, nonce, aad, pos, msg, r):
        name, root, want, wpos, mode, m = self.row
        self.ob(e, st, "direction", kind == want, "%s runs the cipher in the other direction" % name)
        self.ob(e, st, "the named algorithm runs", alg == spec.AEAD[self.alg], "%s runs another cipher than %s" % (name, spec.AEAD[self.alg]))
        self.ob(e, st, "the given key is used", same_bytes(e, st, key, whole(("key", "data"), 32)), "%s uses another key than the given one" % name)
        self.ob(e, st, "the given nonce is used", same_bytes(e, st, nonce, whole(("nonce",))), "%s uses another nonce than the given one" % name)
        self.ob(e, st, "the given additional data is used", same_bytes(e, st, aad, whole(("aad",))), "%s does not pass on the caller's additional data" % name)
        self.ob(e, st, "the given message is used", same_bytes(e, st, msg, whole((m,) if m == "msg" else (m, "*"))), "%s does not process the caller's message" % name)
        self.ob(e, st, "STREAM construction", pos == wpos, "%s does not run the cipher as %s" % (name, wpos[0:3]))
        self.ob(e, st, "one cipher call", st.mon["op"] is None, "%s runs the cipher twice" % name)
        st.mon["op"] = r

    def on_encrypt(self, e, st, *a):
        self.op("encrypt", e, st, *a)

    def on_decrypt(self, e, st, *a):
        self.op("decrypt", e, st, *a)

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k != "ok":
            # a valid call must not be refused other than by the cipher
            self.ob(e, st, "no other refusal", st.nf > 0, "%s refuses a valid call" % self.row[0])
            return
        self.oksinks += 1
        r = st.mon["op"]
        self.ob(e, st, "success means the cipher ran", r is not None, "%s succeeds without running the cipher" % self.row[0])
        if r is not None:
            got = e.cell(st, ("c", ("buf", "*"))) if self.row[5] == "buf" else content(e, st, p)
            self.ob(e, st, "the cipher's result is returned", None if got is None else same_bytes(e, st, got, r), "%s does not return the cipher's result" % self.row[0])


class Lens(Mon):
    want = 0

    def on_rand(self, e, st, q, n, x):
        st.mon["rnd"] = x

    def on_sink(self, e, st, v):
        self.oksinks += 1
        if isinstance(v, int) or not isinstance(v, tuple):
            self.ob(e, st, "nonce length", exactly(e, st, v, self.want), "the nonce length reported is not the one the AEAD and mode require")
        else:
            b = content(e, st, v)
            self.ob(e, st, "nonce length", None if b is None else exactly(e, st, e.length(st, b), self.want), "the nonce generated does not have the length the AEAD and mode require")


def fix(e, st, key, path, name):
    return e.assume(st, e.mkeq(st, sym(("disc", key), 0, len(e.p.types[adt(e, path)]["variants"]) - 1), vidx(e, path, name)))


def s03():
    for row in ROOTS:
        for alg in spec.ALGS:
            m = type("C", (Cipher,), {"row": row, "alg": alg, "prop": "S03"})

            def setup(e, st, args, alg=alg, mode=row[4]):
                ok = fix(e, st, ("alg", "*"), P + "primitives::Algorithm", alg)
                ok &= e.assume(st, e.mkeq(st, e.len_sym(("nonce",)), spec.nlen(alg, mode)))
                return None if ok else False

            yield Scenario("%s with %s" % (row[0], alg), row[1], m, setup, min_ok=1)
    for root in ("root_get_nonce_len", "root_gen_nonce"):
        for alg in spec.ALGS:
            for mode in spec.MODES:
                m = type("L", (Lens,), {"want": spec.nlen(alg, mode), "prop": "S03"})

                def setup(e, st, args, alg=alg, mode=mode):
                    ok = fix(e, st, ("a", "*"), P + "primitives::Algorithm", alg)
                    ok &= fix(e, st, ("m", "*"), P + "primitives::Mode", mode)
                    return None if ok else False

                yield Scenario("%s(%s, %s)" % (root[5:], alg, mode), root, m, setup, min_ok=1)


reg(
    "S03",
    "Interprets every cipher and stream wrapper once per algorithm with fully symbolic key, nonce, additional data and message and decides which AEAD, construction and direction the reachable cipher call has and that all operands and the result are passed through unchanged; nonce lengths are compared with the table of the format.",
    *s03())


class Kdf(Mon):
    """password hashing; `want` is the scheme or None when the call must fail"""

    panics = True
    want = None

    def start(self, e, st):
        st.mon.update(k=None, failed=False)

    def on_fail(self, e, st, op, d):
        st.mon["failed"] = True

    def on_kdf(self, e, st, h, pw, salt, n):
        s = kdf_scheme(h)
        self.ob(e, st, "published parameters", s is not None and s == self.want, "a password is stretched with %s instead of the published parameters of %s" % (desc(h), self.want))
        self.ob(e, st, "whole password", same_bytes(e, st, pw, whole(("raw_key", "data"))), "the password hashed is not the complete password")
        self.ob(e, st, "whole salt", same_bytes(e, st, salt, whole(("salt", "*"), 16)), "the salt used is not the complete salt")
        self.ob(e, st, "32 byte key", exactly(e, st, n, 32), "the derived key is not 32 bytes long")
        st.mon["k"] = ("kdf", h, pw, salt)

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "err":
            if self.want is not None:
                self.ob(e, st, "valid schemes work", bool(st.mon["failed"]), "scheme %s %s is refused" % self.want)
            return
        self.oksinks += 1
        if self.want is None:
            self.ob(e, st, "unknown schemes are errors", False, "an unknown key-derivation scheme yields a key")
            return
        self.ob(e, st, "a failing hash is an error", not st.mon["failed"], "a key is returned although hashing failed")
        b = content(e, st, next(iter(fieldsof(e, st, p)), p))
        o = None if b is None else single(e, st, b, 32)
        self.ob(e, st, "the derived key is returned", None if unknown(b) else o is not None and o == st.mon["k"], "the key returned is not the derived one")


def fieldsof(e, st, v):
    from fw import variant

    return variant(e, st, v)[1]


def desc(h):
    return str([x for x in h[1:]])[:120]


def k01():
    T = [("Argon2id", 1), ("Argon2id", 2), ("Argon2id", 3), ("Blake3Balloon", 4), ("Blake3Balloon", 5)]
    HA = P + "header::HashingAlgorithm"
    for name in ("Argon2id", "Blake3Balloon"):
        num = sym(("a", "*", name, "0"), -(1 << 31), (1 << 31) - 1)
        mine = [n for a, n in T if a == name]
        for n in mine:
            def setup(e, st, args, name=name, n=n, num=num):
                return None if fix(e, st, ("a", "*"), HA, name) and e.assume(st, e.mkeq(st, num, n)) else False

            yield Scenario("%s(%d)" % (name, n), "root_hash", type("K", (Kdf,), {"want": (name, n), "prop": "K01"}), setup, min_ok=1)

        def other(e, st, args, name=name, num=num, mine=mine):
            ok = fix(e, st, ("a", "*"), HA, name)
            for n in mine:
                ok &= e.assume(st, ("C", "ne", e.mkeq(st, num, n)[2]))
            return None if ok else False

        yield Scenario("%s(any other number)" % name, "root_hash", type("K", (Kdf,), {"want": None, "prop": "K01"}), other)
    for i, v in enumerate(("V1", "V2", "V3", "V4", "V5")):
        for root, a in (("root_argon2id", "Argon2id"), ("root_balloon", "Blake3Balloon")):
            def setup(e, st, args, v=v):
                return None if fix(e, st, ("v", "*"), P + "header::HeaderVersion", v) else False

            w = (a, i + 1) if (a, i + 1) in T else None
            yield Scenario("%s for %s" % (root[5:], v), root, type("K", (Kdf,), {"want": w, "prop": "K01"}), setup, min_ok=1 if w else 0)


reg(
    "K01",
    "Interprets HashingAlgorithm::hash, argon2id_hash and balloon_hash for every scheme, and for all other scheme numbers at once, with a symbolic password and salt; decides parameters, algorithm, version and operands at every reachable hash call, that the result is the one returned, and that failures surface as errors.",
    *k01())


class Unlock(Mon):
    """decrypt_master_key / unlocking with slot index over a header with concrete number of slots"""

    panics = True
    cfg = None
    indexed = False

    def start(self, e, st):
        st.mon.update(tried=(), cur=None, opened=None, mk=None, failed=False, hfail=())

    def hdr(self):
        return () if self.indexed else ("h", "*")

    def slotkey(self, i):
        return ("slots", "[]", i) if self.indexed else ("h", "*", "keyslots", "Some", "0", "[]", i)

    def which(self, e, st, salt, nonce=None):
        n = self.cfg[3] or 0
        for i in range(n):
            if same_bytes(e, st, salt, whole(self.slotkey(i) + ("salt",), 16)) is True:
                return i
        return None

    def on_fail(self, e, st, op, d):
        if op == "decrypt":
            pass
        elif op in ("kdf", "kdfparams"):
            st.mon["hfail"] = st.mon["hfail"] + (self.next(st),)
            st.mon["failed"] = True
        else:
            st.mon["failed"] = True

    def next(self, st):
        return len(st.mon["tried"]) + len(st.mon["hfail"])

    def on_kdf(self, e, st, h, pw, salt, n):
        ver, alg, mode, nslots, scheme = self.cfg
        s = kdf_scheme(h)
        self.ob(e, st, "whole password", same_bytes(e, st, pw, whole((self.pw, "data"))), "the password stretched is not the complete password")
        if nslots is None:
            self.ob(e, st, "the version's own scheme", s == ("Argon2id", int(ver[1])), "the password is not stretched with the scheme of %s" % ver)
            self.ob(e, st, "the header's salt", same_bytes(e, st, salt, whole(("h", "*", "salt", "Some", "0"), 16)), "the password is not stretched with the header's salt")
            st.mon["mk"] = ("kdf", h, pw, salt)
            return
        i = self.next(st)
        want = whole(self.slotkey(i) + ("salt",), 16) if i < nslots else None
        self.ob(e, st, "slots are tried in order with their own salt", want is not None and same_bytes(e, st, salt, want), "a keyslot is tried with a salt that is not its own")
        if i < nslots:
            self.ob(e, st, "the slot's own scheme", s == scheme[i], "a keyslot's password is not stretched with the scheme the slot names")
        st.mon["cur"] = ("kdf", h, pw, salt)

    def trial(self, e, st, alg, key, nonce, aad, pos, msg):
        ver, a, mode, nslots, scheme = self.cfg
        i = self.next(st)
        if nslots is None:
            self.ob(e, st, "no unwrapping in V1 to V3", False, "something is decrypted although %s headers hold no keyslot" % ver)
            return
        if i >= nslots:
            self.ob(e, st, "slots are tried in order", False, "more keyslots are tried than the header has")
            return
        k = self.slotkey(i)
        self.ob(e, st, "the header's algorithm", alg == spec.AEAD[a] and pos == ("one",), "a keyslot is opened with another algorithm than the header's")
        self.ob(e, st, "the slot's own nonce", same_bytes(e, st, nonce, whole(k + ("nonce",))), "a keyslot is opened with a nonce that is not its own")
        self.ob(e, st, "the slot's own wrapped key", same_bytes(e, st, msg, whole(k + ("encrypted_key",), 48)), "what is decrypted is not the slot's encrypted key")
        self.ob(e, st, "no additional data", same_bytes(e, st, aad, ("B", ())), "a keyslot is opened with additional data")
        o = single(e, st, key, 32)
        self.ob(e, st, "the slot's own stretched password", None if unknown(key) else o is not None and o == st.mon["cur"], "a keyslot is opened with a key that is not the password stretched for that slot")
        st.mon["tried"] = st.mon["tried"] + (i,)

    def on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        self.ob(e, st, "nothing after a slot opened", st.mon["opened"] is None, "the search goes on after a keyslot opened")
        self.trial(e, st, alg, key, nonce, aad, pos, msg)
        st.mon["opened"] = len(st.mon["tried"]) + len(st.mon["hfail"]) - 1
        st.mon["mk"] = single(e, st, r, 32)

    def on_decfail(self, e, st, alg, key, nonce, aad, pos, msg):
        self.trial(e, st, alg, key, nonce, aad, pos, msg)

    def on_sink(self, e, st, v):
        ver, a, mode, nslots, scheme = self.cfg
        k, p = outcome(e, st, v)
        seen = len(st.mon["tried"]) + len(st.mon["hfail"])
        if k == "ok":
            self.oksinks += 1
            if nslots is not None:
                self.ob(e, st, "a key needs an opened slot", st.mon["opened"] is not None, "a master key is returned although no keyslot was opened")
            else:
                self.ob(e, st, "a failing hash is an error", not st.mon["failed"], "a key is returned although hashing failed")
            if self.indexed:
                f = fieldsof(e, st, p)
                key, idx = (f[0], f[1]) if len(f) == 2 else (p, None)
                if idx is not None:
                    self.ob(e, st, "the index is the opened slot's", st.mon["opened"] is not None and eqv(e, st, e.val(st, idx), st.mon["opened"]), "the index returned is not that of the keyslot that opened")
            else:
                key = p
            b = content(e, st, next(iter(fieldsof(e, st, key)), key))
            o = None if b is None else single(e, st, b, 32)
            self.ob(e, st, "the unlocked key is returned", None if unknown(b) else o is not None and o == st.mon["mk"], "the key returned is not the one that was unlocked")
        elif k == "err":
            if nslots is None:
                self.ob(e, st, "a right password is not refused", st.mon["failed"], "unlocking a %s header fails without any failing step" % ver)
            else:
                self.ob(e, st, "every slot is tried before giving up", st.mon["opened"] is None and (seen == nslots or ((ver == "V4" or self.indexed) and st.mon["failed"])), "unlocking gives up although not every keyslot was tried" if st.mon["opened"] is None else "unlocking fails although a keyslot opened")


def k02():
    import itertools

    S = [("Argon2id", 1), ("Argon2id", 2), ("Argon2id", 3), ("Blake3Balloon", 4), ("Blake3Balloon", 5)]
    for alg in spec.ALGS:
        for mode in spec.MODES:
            for ver in ("V1", "V2", "V3", "V4", "V5"):
                sets = [None] if ver < "V4" else [[s] for s in S] if ver == "V4" else [[S[(i + j) % 5] for j in range(n)] for n in range(5) for i in (range(5) if n and alg == "Aes256Gcm" else [n])]
                for sch in sets:
                    if mode == "MemoryMode" and alg != "XChaCha20Poly1305":
                        continue
                    n = None if sch is None else len(sch)
                    cfg = (ver, alg, mode, n, sch)

                    def setup(e, st, args, cfg=cfg):
                        ver, alg, mode, n, sch = cfg
                        ok = assume_header(e, st, ("h", "*"), ver, alg, mode, n, sch)
                        if n is None:
                            ok &= e.assume(st, e.mkeq(st, sym(("disc", ("h", "*", "salt")), 0, 1), 1))
                        return None if ok else False

                    m = type("U", (Unlock,), {"cfg": cfg, "prop": "K02", "pw": "raw_key"})
                    yield Scenario("decrypt_master_key %s %s %s %s" % (ver, alg, mode, sch), "root_decrypt_master_key", m, setup, min_ok=0 if n == 0 else 1, conf=exact)
        for n in range(5):
            sch = [S[(i + n) % 5] for i in range(n)]
            cfg = ("V5", alg, "StreamMode", n, sch)

            def setup(e, st, args, cfg=cfg):
                ver, alg, mode, n, sch = cfg
                ok = fix(e, st, ("alg", "*"), P + "primitives::Algorithm", alg)
                ok &= e.assume(st, e.mkeq(st, e.len_sym(("slots",)), n))
                for i in range(n):
                    ok &= assume_slot(e, st, ("slots", "[]", i), alg, sch[i])
                return None if ok else False

            m = type("U", (Unlock,), {"cfg": cfg, "prop": "K02", "pw": "raw_key_old", "indexed": True})
            yield Scenario("unlock with index %s %s" % (alg, sch), "root_unlock_index", m, setup, min_ok=0 if n == 0 else 1, conf=exact)


def exact(e, nat):
    e.exact = True


reg(
    "K02",
    "Interprets decrypt_master_key and the slot search of the key commands for headers of every version with 0 to 4 symbolic keyslots in every scheme; at each hash and cipher call the provenance of password, salt, nonce, wrapped key and algorithm is compared with that slot's own fields, and each exit is checked against the record of slots tried.",
    *k02())
