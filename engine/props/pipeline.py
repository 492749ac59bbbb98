"""encrypt::execute and decrypt::execute end to end: S01, S02, S03, S04, D01, K03."""
import spec
from core import Limit, blen, bmerge, lit, seg
from fw import MIB, Mon, Scenario, content, eqv, exactly, fields, must, opaque, opaque_origin, outcome, same_bytes, val, variant
from lin import Lin, add, is_num, mulc, sub, sym
from .stream import Dec, Enc, Pending

READER = ("req", "reader", "*", "*")
WRITER = ("req", "writer", "*", "*")
HWRITER = ("req", "header_writer", "Some", "0", "*", "*")
HREADER = ("req", "header_reader", "Some", "0", "*", "*")
RAWKEY = ("B", ((("sym", ("req", "raw_key", "data")), 0, sym(("len", ("req", "raw_key", "data")), 0, 1 << 40)),))
EMPTY = ("B", ())


def anypos(*keys):
    def f(e, nat):
        nat.POS0 = {k: sym(("pos0", k), 0, 1 << 60) for k in keys}

    return f


def is_payload(b):
    return any(o[0] == "ct" and o[5][0] == "stream" for o, _, _ in b[1])


def single(e, st, b, n=None):
    """the origin of a byte string that is one segment from its start, else None"""
    if b is None or is_num(b) or len(b[1]) != 1:
        return None
    o, off, l = b[1][0]
    if not st.cons.eq0(off) or (n is not None and not st.cons.same(l, n)):
        return None
    return o


def unknown(b):
    return b is None or is_num(b) or opaque(b)


def kdf_scheme(h):
    """("Argon2id", 1) etc. for a key derivation with the published parameters, else None"""
    if h[0] != "T":
        return None
    if h[1] == "argon2" and len(h) == 5 and h[2] == ("enum", "Argon2id") and h[3] == ("enum", "V0x13") and h[4][0] == "T" and h[4][1] == "argonparams":
        p = h[4][2:]
        out = p[3] if len(p) > 3 else None
        if out is not None and not (out[0] == "A" and (out[2] == 0 or out[3] == (32,))):
            return None
        return {(8192, 8, 4): ("Argon2id", 1), (262144, 8, 4): ("Argon2id", 2), (262144, 10, 4): ("Argon2id", 3)}.get(p[:3])
    if h[1] == "balloon" and h[2] == "blake3::Hasher" and h[3] == ("enum", "Balloon") and h[4][0] == "T" and h[4][1] == "balloonparams" and h[5] == ("enum", "None"):
        return {(262144, 1, 1): ("Blake3Balloon", 4), (278528, 1, 1): ("Blake3Balloon", 5)}.get(h[4][2:])
    return None


def tag_of(e, st, key, path):
    """variant name of a symbolic field-less enum, if the path condition decides it"""
    t = next(t for t in e.p.types if t.get("k") == "adt" and t["path"] == path)
    names = [v["name"] for v in t["variants"]]
    d = st.cons.norm(sym(("disc", key), 0, len(names) - 1))
    return names[d] if isinstance(d, int) else None


class Groups:
    groups = ()

    def g(self, group, e, st, rule, verdict, msg):
        if group in self.groups:
            return self.ob(e, st, rule, verdict, msg)
        return verdict


def slot_checks(m, group, e, st, f, alg, i, mk, password, pwname):
    """keyslot i of the parsed header bytes f wraps mk under a password"""
    skey, snonce, ssalt, sid = (f.get(("slot", i, x)) for x in ("key", "nonce", "salt", "id"))
    o = single(e, st, skey, 48)
    if o is None or o[0] != "ct":
        m.g(group, e, st, "keyslot holds a wrapped key", None if unknown(skey) else False, "the keyslot written does not hold the encryption of a master key")
        return
    _, walg, wkey, wnonce, waad, wpos, wmsg = o
    m.g(group, e, st, "keyslot is wrapped with the header's algorithm", walg == spec.AEAD[alg] and wpos == ("one",), "the master key is wrapped with another algorithm than the header names")
    m.g(group, e, st, "keyslot nonce is the one recorded", same_bytes(e, st, wnonce, snonce), "the nonce recorded in the keyslot is not the one its key was encrypted with")
    m.g(group, e, st, "keyslot has no additional data", same_bytes(e, st, waad, EMPTY), "the master key is wrapped with additional data that unlocking does not supply")
    m.g(group, e, st, "keyslot wraps the content key", same_bytes(e, st, wmsg, mk), "the keyslot does not wrap the key the payload is encrypted with")
    k = single(e, st, wkey, 32)
    if k is None or k[0] != "kdf":
        m.g(group, e, st, "keyslot key is a stretched password", None if unknown(wkey) else False, "the master key is not wrapped under a stretched password")
        return
    _, h, pw, salt = k
    m.g(group, e, st, "the whole password is stretched", same_bytes(e, st, pw, password), "the keyslot key is not derived from the complete %s" % pwname)
    m.g(group, e, st, "keyslot salt is the one recorded", same_bytes(e, st, salt, ssalt if ssalt is not None else f.get("salt")), "the salt recorded is not the one the password was stretched with")
    sch = kdf_scheme(h)
    if sid is not None:
        from natives import flat, is_lit

        want = spec.SLOTS.get(sch)
        got = flat(sid) if is_lit(sid) else None
        m.g(group, e, st, "keyslot names its scheme", None if got is None and unknown(sid) else got is not None and got == want, "the keyslot identifier does not name the scheme its password was stretched with")
    else:
        m.g(group, e, st, "V4 keyslot uses its fixed scheme", sch == ("Blake3Balloon", 4), "a V4 keyslot is not stretched with the only scheme V4 can describe")


class EncPipe(Groups, Enc):
    R, W = READER, WRITER

    def start(self, e, st):
        st.mon.update(pend=EMPTY, fed=0, rd=0, eof=False, last=False, flushed=True, wpos=None, hdr=EMPTY, hname=None, hpos=0, pstart=None, first=None, odd=False)

    def ob(self, e, st, rule, verdict, msg):
        # obligations recorded by the stream monitor belong to group S01
        if rule in STREAM_RULES and "S01" not in self.groups:
            return verdict
        return Mon.ob(self, e, st, rule, verdict, msg)

    def extra(self, e, st, alg, key, nonce, aad, pos):
        f = st.mon["first"]
        if f is None:
            st.mon["first"] = (alg, key, nonce, aad)
            return
        ok = f[0] == alg
        for a, b in zip(f[1:], (key, nonce, aad)):
            r = same_bytes(e, st, a, b)
            ok = r if ok is True else ok
        self.g("S04", e, st, "one cipher state for the whole payload", ok, "blocks are encrypted under different keys, nonces, algorithms or additional data")

    def on_encrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        if pos[0] == "stream":
            Enc.on_encrypt(self, e, st, alg, key, nonce, aad, pos, msg, r)

    def on_write(self, e, st, o, name, pos, data, size):
        if name == self.R:
            self.g("D01", e, st, "the input is not written", False, "the input file is written to")
            return
        if is_payload(data):
            if st.mon["pstart"] is None:
                st.mon["pstart"] = (name, pos)
            self.g("D01", e, st, "ciphertext goes to the data output", name == self.W, "ciphertext is written to the header output")
            if name == self.W:
                st.mon["flushed"] = False
                Pending.consume(self, e, st, "ciphertext is written in order", name, pos, data)
            return
        if st.cons.eq0(blen(data)):
            return
        if st.mon["hname"] is None:
            st.mon["hname"] = name
            st.mon["hpos"] = pos
            st.mon["hstart"] = pos
        self.g("D01", e, st, "header is written in one place", st.mon["hname"] == name and exactly(e, st, st.mon["hpos"], pos), "the header is scattered over several places")
        st.mon["hdr"] = ("B", bmerge(st.mon["hdr"][1] + data[1], st.cons))
        st.mon["hpos"] = st.cons.norm(add(pos, blen(data)))

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        Enc.on_sink(self, e, st, v)
        if k != "ok":
            return
        h = st.mon["hdr"]
        if not h[1]:
            self.g("D01", e, st, "a header is written", False, "success is reported although no header was written")
            return
        p = spec.parse(e, st, h)
        det = st.cons.norm(sym(("disc", ("req", "header_writer")), 0, 1))
        if not isinstance(det, int):
            self.g("D01", e, st, "detached header is honoured", False, "the presence of a header output is not considered")
            return
        want = HWRITER if det else WRITER
        self.g("D01", e, st, "header goes to its output", st.mon["hname"] == want, "the header is written to the wrong output")
        self.g("D01", e, st, "header is at the start", exactly(e, st, st.mon["hstart"], 0), "the header is not written at the start of its output")
        if p is None:
            self.g("D01", e, st, "the complete header is written", None if unknown(h) else False, "what is written as header is not a complete header")
            return
        ver, alg, mode, f = p
        if self.__class__.groups == ("K03",):
            self.fresh(e, st, ver, alg, mode, f)
            return
        t = ("req", "header_type")
        for nm, got, path in (("version", ver, "header::HeaderVersion"), ("algorithm", alg, "primitives::Algorithm"), ("mode", mode, "primitives::Mode")):
            x = tag_of(e, st, t + (nm,), "volaris_crypto::" + path)
            self.g("S04", e, st, "header records the requested %s" % nm, None if x is None else x == got, "the header written names another %s than was requested" % nm)
        ps = st.mon["pstart"]
        if ps is not None:
            self.g("D01", e, st, "ciphertext directly follows", exactly(e, st, ps[1], 0 if det else spec.SIZE[ver]), "the ciphertext does not start %s" % ("at the beginning of the data output" if det else "directly after the header"))
        if st.mon["first"] is None:
            return
        palg, pkey, pnonce, paad = st.mon["first"]
        self.g("S04", e, st, "payload uses the header's algorithm", palg == spec.AEAD[alg], "the payload is encrypted with another algorithm than the header names")
        self.g("S04", e, st, "payload uses the header's nonce", same_bytes(e, st, pnonce, f["nonce"]), "the payload is encrypted with another nonce than the header records")
        self.g("S04", e, st, "payload authenticates the header", same_bytes(e, st, paad, spec.aad(e, st, ver, alg, h)), "the payload is encrypted with additional data other than the authenticated part of the header written")
        slot_checks(self, "S04", e, st, f, alg, 0, pkey, RAWKEY, "password")

    def applies(self, e, st):
        return "S01" in self.groups

    def fresh(self, e, st, ver, alg, mode, f):
        items = [("salt", f.get("salt") if ver == "V4" else f[("slot", 0, "salt")], 16), ("payload nonce", f["nonce"], spec.nlen(alg, mode)), ("master-key nonce", f[("slot", 0, "nonce")], spec.nlen(alg, "MemoryMode"))]
        if st.mon["first"] is not None:
            items.append(("master key", st.mon["first"][1], 32))
        check_fresh(self, e, st, items)

    def on_panic(self, e, st, what, maybe):
        pass


def check_fresh(m, e, st, items):
    draws = {}
    for nm, b, n in items:
        if b is None or unknown(b):
            m.g("K03", e, st, "%s is freshly drawn" % nm, None, "%s could not be traced" % nm)
            continue
        o = single(e, st, b, n)
        if o is None or o[0] != "rand":
            m.g("K03", e, st, "%s is freshly drawn" % nm, False, "the %s is not filled over its whole length by one draw from a random generator" % nm)
            continue
        m.g("K03", e, st, "%s is from a secure generator" % nm, o[1] == "os", "the %s comes from a generator that is not seeded by the operating system" % nm)
        m.g("K03", e, st, "%s is used once" % nm, o[2] not in draws, "the %s is the same random value as the %s" % (nm, draws.get(o[2])))
        draws[o[2]] = nm


STREAM_RULES = {
    "every block is the next input bytes", "no block after the final one", "inner blocks have 1 MiB", "final block is shorter", "final block only at end of input", "everything read is encrypted",
    "ciphertext is written in order", "output is contiguous", "final block before success", "all ciphertext written before success", "flushed before success",
    "every block is the next ciphertext", "nothing after the final block", "inner blocks have 1 MiB plus tag", "everything read is decrypted", "only authenticated plaintext is written", "all plaintext written before success", "only the output is written",
}


def enc(*groups):
    return type("EncPipe", (EncPipe,), {"groups": groups})


def enc_scenario(*groups):
    return Scenario("encrypt::execute", "root_encrypt", enc(*groups), conf=anypos(READER, WRITER, HWRITER), min_ok=1)


# ------------------------------------------------------------------ decryption
from contracts import aad_of, cases, hdr_key, install  # noqa: E402

K = sym(("skolem", "K"), 0, 1 << 40)


class DecPipe(Groups, Dec):
    R, W = READER, WRITER
    attached = True
    expect = None  # first ciphertext offset; None: directly after the header

    def start(self, e, st):
        st.mon.update(pend=EMPTY, fed=None, rd=0, eof=False, last=False, flushed=True, hname=None, hdr=None, first=None, stream=False, wpos=None)

    def ob(self, e, st, rule, verdict, msg):
        if rule in STREAM_RULES and "S02" not in self.groups:
            return verdict
        return Mon.ob(self, e, st, rule, verdict, msg)

    def on_deserialize(self, e, st, o, name, pos, ver, alg, mode, n):
        st.mon["hname"] = name
        st.mon["hdr"] = (ver, alg, mode, n)
        if name == READER:
            st.mon["rd"] = st.cons.norm(add(pos, spec.SIZE[ver]))
        self.g("D01", e, st, "header is parsed where it is", name == (READER if self.attached else HREADER) and exactly(e, st, pos, 0), "the header is not parsed from the start of the file that holds it")

    def on_seek(self, e, st, o, name, newpos):
        if name == READER:
            st.mon["rd"] = st.cons.norm(newpos)

    def payload_op(self, e, st, pos, msg):
        # the master key is unwrapped in one piece from the header, not from the payload
        return not (pos[0] == "one" and any(o[0] == "sym" and o[1][:1] == ("hdr",) for o, _, _ in msg[1]))

    def start_of(self, e, st, msg):
        if self.expect is not None:
            return self.expect
        h = st.mon["hdr"]
        return spec.SIZE[h[0]] if h else 0

    def on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        if not self.payload_op(e, st, pos, msg):
            return
        first = st.mon["fed"] is None
        if first and "D01" in self.groups:
            want = self.start_of(e, st, msg)
            o = msg[1][0] if msg[1] else None
            n = blen(msg)
            v = same_bytes(e, st, e.bslice(st, msg, 0, 0) if False else msg, seg(("file", self.R, "0"), want, n))
            if v is True or not msg[1]:
                self.ob(e, st, "decryption starts at the first ciphertext byte", True, "")
            else:
                self.ob(e, st, "decryption starts at the first ciphertext byte", v, "decryption does not start at the first ciphertext byte (%s)" % self.case)
        Dec.on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r)
        # short block: the cursor only matters when something was read
        h = st.mon["hdr"]
        if h is None:
            self.g("S04", e, st, "header is parsed before the payload", False, "payload is decrypted without a parsed header")
            return
        ver, halg, mode, n = h
        k = hdr_key(st.mon["hname"])
        self.g("S04", e, st, "payload uses the header's algorithm", alg == spec.AEAD[halg], "the payload is decrypted with another algorithm than the header names")
        self.g("S04", e, st, "payload uses the header's mode", (pos[0] == "stream") == (mode == "StreamMode") and (pos[0] == "one" or pos[1] == "LE31"), "the payload is decrypted in another mode than the header names")
        self.g("S04", e, st, "payload uses the header's nonce", same_bytes(e, st, nonce, seg(("sym", k + ("nonce",)), 0, spec.nlen(halg, mode))), "the payload is decrypted with another nonce than the header records")
        self.g("S04", e, st, "payload authenticates the header", same_bytes(e, st, aad, aad_of(st.mon["hname"], ver, halg)), "the payload is decrypted with additional data other than the authenticated part of the parsed header")
        self.keycheck(e, st, key, ver, halg, n, k)

    def keycheck(self, e, st, key, ver, halg, n, k):
        o = single(e, st, key, 32)
        if o is None:
            self.g("S04", e, st, "payload uses the unlocked key", None if unknown(key) else False, "the payload is not decrypted with the unlocked master key")
            return
        if ver in ("V1", "V2", "V3"):
            good = o[0] == "kdf" and same_bytes(e, st, o[2], RAWKEY)
            self.g("S04", e, st, "payload uses the unlocked key", good, "the payload is not decrypted with the stretched password")
            return
        if o[0] != "pt":
            self.g("S04", e, st, "payload uses the unlocked key", None if unknown(key) else False, "the payload is not decrypted with a key unwrapped from a keyslot")
            return
        want = [("sym", k + ("keyslots", "Some", "0", "[]", i, "encrypted_key")) for i in range(n)]
        m = single(e, st, o[6], 48)
        self.g("S04", e, st, "payload uses the unlocked key", m in want if m is not None else None, "the payload is not decrypted with a key unwrapped from a keyslot of the parsed header")

    def extra(self, *a):
        pass

    def on_write(self, e, st, o, name, pos, data, size):
        if name in (READER, HREADER):
            self.g("D01", e, st, "inputs are not written", False, "an input file is written to")
            return
        Dec.on_write(self, e, st, o, name, pos, data, size)

    def on_sink(self, e, st, v):
        if "S02" in self.groups:
            Dec.on_sink(self, e, st, v)
        elif outcome(e, st, v)[0] == "ok":
            self.oksinks += 1


def dec(groups, attached, case="", expect=None):
    return type("DecPipe", (DecPipe,), {"groups": tuple(groups), "attached": attached, "case": case, "expect": expect})


def dec_setup(det, more=None):
    def f(e, st, args):
        ok = e.assume(st, e.mkeq(st, sym(("disc", ("req", "header_reader")), 0, 1), 1 if det else 0))
        if more:
            ok &= more(e, st)
        return None if ok else False

    return f


def size_of(name):
    return sym(("size", name), 0, 1 << 60)


def hdr_conf(cs, hook=None):
    def f(e, nat):
        install(nat, cs)
        e.bytehook = hook
        if hook is nonzero_at_k:
            e.special = list(e.special) + [K]

    return f


def zero_area(n, name=READER):
    def hook(e, st, o, off):
        if o == ("file", name, "0") and st.cons.ge0(sub(n - 1, off)):
            return 0

    return hook


def nonzero_in(name):
    """bytehook that singles out byte K of a file (assumed non-zero by the scenario)"""

    def hook(e, st, o, off):
        if o != ("file", name, "0") or off == K:
            return None
        d = sub(off, K)
        if st.cons.eq0(d):
            return sym(("byte", o, K), 0, 255)
        if st.cons.ge0(sub(d, 1)) or st.cons.ge0(sub(mulc(d, -1), 1)):
            return None
        if e.decide(st, e.mkeq(st, off, K)):
            return sym(("byte", o, K), 0, 255)
        e.decide(st, e.mkge(st, off, K))

    return hook


nonzero_at_k = nonzero_in(READER)


def dec_scenarios(*groups):
    out = [Scenario("decrypt::execute, attached header, %s" % v, "root_decrypt", dec(groups, True, "attached header"), dec_setup(False), conf=hdr_conf(cases((v,), (1, 2))), min_ok=1) for v in spec.SIZE]
    for v in ("V3", "V4", "V5"):
        n = spec.SIZE[v]
        cs = list(cases((v,), (1,), algs=("XChaCha20Poly1305", "Aes256Gcm")))

        def big(e, st, n=n):
            return e.assume(st, e.mkge(st, size_of(READER), n))

        def nz(e, st, n=n):
            b = sym(("byte", ("file", READER, "0"), K), 0, 255)
            return e.assume(st, e.mkge(st, size_of(READER), n)) and e.assume(st, e.mkge(st, n - 1, K)) and e.assume(st, e.mkge(st, b, 1))

        def short(e, st, n=n):
            return e.assume(st, e.mkge(st, n - 1, size_of(READER)))

        out.append(Scenario("decrypt::execute, detached %s header, blank area" % v, "root_decrypt", dec(groups, False, "detached header, data file begins with a blank header area", n), dec_setup(True, big), conf=hdr_conf(cs, zero_area(n)), min_ok=1))
        out.append(Scenario("decrypt::execute, detached %s header, no blank area" % v, "root_decrypt", dec(groups, False, "detached header, data file has no blank header area", 0), dec_setup(True, nz), conf=hdr_conf(cs, nonzero_at_k), min_ok=1))
        out.append(Scenario("decrypt::execute, detached %s header, short data" % v, "root_decrypt", dec(groups, False, "detached header, data file shorter than a header", 0), dec_setup(True, short), conf=hdr_conf(cs), min_ok=1))
    return out
