"""S01, S02: the block streams."""
from core import Lin, blen, bmerge, lit, seg
from fw import MIB, Mon, Scenario, content, eqv, exactly, must, outcome, same_bytes, variant
from lin import add, is_num, sub, sym, fresh
from . import add as reg


def pos0(*keys):
    """give file arguments an arbitrary start position"""

    def f(e, nat):
        nat.POS0 = {k: sym(("pos0", k), 0, 1 << 60) for k in keys}

    return f


class Pending:
    """bytes that still have to reach a writer, in order"""

    @staticmethod
    def consume(m, e, st, rule, name, pos, data, wkey="wpos", pkey="pend"):
        pend = st.mon.get(pkey, ("B", ()))
        n = blen(data)
        if e.cond_status(st, e.mkge(st, blen(pend), n)) is not True:
            r = False if e.cond_status(st, e.mkge(st, blen(pend), n)) is False else None
            # provenance tells whether it is really something else
            if r is None:
                r = None
            m.ob(e, st, rule, r, "more bytes are written than were produced")
            st.mon[pkey] = ("B", ())
        else:
            m.ob(e, st, rule, same_bytes(e, st, e.bslice(st, pend, 0, n), data), "the bytes written are not the next bytes produced")
            st.mon[pkey] = e.bslice(st, pend, n, sub(blen(pend), n))
        w = st.mon.get(wkey)
        if w is not None:
            m.ob(e, st, "output is contiguous", exactly(e, st, w, pos), "bytes are written at another offset than directly after the previous ones")
        st.mon[wkey] = st.cons.norm(add(pos, n))


class Enc(Mon):
    R = ("reader", "*")
    W = ("writer", "*")

    def start(self, e, st):
        p = e.natives.POS0.get(self.R, 0)
        st.mon.update(pend=("B", ()), fed=p, rd=p, eof=False, last=False, flushed=True)

    def fed(self, e, st):
        f = st.mon.get("fed")
        if f is None:
            f = e.natives.POS0.get(self.R, 0)
        return f

    def on_read(self, e, st, o, name, pos, n):
        if name == self.R:
            st.mon["rd"] = st.cons.norm(add(pos, n))

    def on_eof(self, e, st, o, name):
        if name == self.R:
            st.mon["eof"] = True

    def on_encrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        if pos[0] != "stream":
            return
        f = self.fed(e, st)
        n = blen(msg)
        want = seg(("file", self.R, "0"), f, n)
        self.ob(e, st, "every block is the next input bytes", same_bytes(e, st, msg, want) if n != 0 else True, "a block does not hold the input bytes that follow the previous block")
        st.mon["fed"] = st.cons.norm(add(f, n))
        self.ob(e, st, "no block after the final one", not st.mon.get("last"), "a block is produced after the final block")
        if pos[2] == "next":
            self.ob(e, st, "inner blocks have 1 MiB", exactly(e, st, n, MIB), "a non-final block is not exactly 1 MiB long")
        else:
            st.mon["last"] = True
            self.ob(e, st, "final block is shorter", e.cond_status(st, e.mkge(st, MIB - 1, n)), "the final block is not shorter than 1 MiB")
            self.ob(e, st, "final block only at end of input", bool(st.mon.get("eof")), "the final block is produced although the reader has not reported end of input")
            rd = st.mon.get("rd", e.natives.POS0.get(self.R, 0))
            self.ob(e, st, "everything read is encrypted", exactly(e, st, st.mon["fed"], rd), "bytes that were read are missing from the blocks")
        self.extra(e, st, alg, key, nonce, aad, pos)
        st.mon["pend"] = ("B", bmerge(st.mon["pend"][1] + r[1], st.cons))
        st.mon["flushed"] = False

    def extra(self, e, st, alg, key, nonce, aad, pos):
        self.ob(e, st, "additional data on every block", same_bytes(e, st, aad, seg(("sym", ("aad",)), 0, sym(("len", ("aad",)), 0, 1 << 40))), "a block is encrypted with other additional data than the caller's")

    def is_out(self, e, st, name):
        return name == self.W

    def on_write(self, e, st, o, name, pos, data, size):
        if not self.is_out(e, st, name):
            self.ob(e, st, "only the output is written", False, "ciphertext is written to something other than the output") if name == self.R else None
            return
        if not st.mon.get("fed") and not st.mon["pend"][1]:
            if not self.stray(e, st, pos, data):
                return
        st.mon["flushed"] = False
        Pending.consume(self, e, st, "ciphertext is written in order", name, pos, data)

    def stray(self, e, st, pos, data):
        return True

    def on_flush(self, e, st, o, name):
        if name == self.W:
            st.mon["flushed"] = True

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        if k != "ok":
            return
        self.oksinks += 1
        if not self.applies(e, st):
            return
        self.ob(e, st, "final block before success", bool(st.mon.get("last")), "success is reported although no final block was produced")
        self.ob(e, st, "all ciphertext written before success", exactly(e, st, blen(st.mon["pend"]), 0), "success is reported although ciphertext is not completely written")
        self.ob(e, st, "flushed before success", bool(st.mon.get("flushed")), "success is reported although the output is not flushed after its last bytes")

    def applies(self, e, st):
        return True


class Dec(Mon):
    R = ("reader", "*")
    W = ("writer", "*")

    def start(self, e, st):
        p = e.natives.POS0.get(self.R, 0)
        st.mon.update(pend=("B", ()), fed=p, rd=p, eof=False, last=False, flushed=True)

    def on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        if not self.payload_op(e, st, pos, msg):
            return
        f = st.mon.get("fed")
        if f is None:
            f = self.start_of(e, st, msg)
        n = blen(msg)
        want = seg(("file", self.R, "0"), f, n)
        self.ob(e, st, "every block is the next ciphertext", same_bytes(e, st, msg, want), "a block does not hold the ciphertext that follows the previous block")
        st.mon["fed"] = st.cons.norm(add(f, n))
        self.ob(e, st, "nothing after the final block", not st.mon.get("last"), "a block is decrypted after the final block")
        if pos[0] == "stream" and pos[2] == "next":
            self.ob(e, st, "inner blocks have 1 MiB plus tag", exactly(e, st, n, MIB + 16), "a non-final block is not exactly 1 MiB plus tag long")
        else:
            st.mon["last"] = True
            self.ob(e, st, "final block only at end of input", bool(st.mon.get("eof")), "the final block is decrypted although the reader has not reported end of input")
            rd = st.mon.get("rd")
            if rd is not None:
                self.ob(e, st, "everything read is decrypted", exactly(e, st, st.mon["fed"], rd), "ciphertext that was read is not part of any block")
        self.extra(e, st, alg, key, nonce, aad, pos)
        st.mon["pend"] = ("B", bmerge(st.mon["pend"][1] + r[1], st.cons))
        st.mon["flushed"] = False
        st.mon["stream"] = pos[0] == "stream"

    def payload_op(self, e, st, pos, msg):
        return True

    def start_of(self, e, st, msg):
        return e.natives.POS0.get(self.R, 0)

    def extra(self, e, st, alg, key, nonce, aad, pos):
        self.ob(e, st, "additional data on every block", same_bytes(e, st, aad, seg(("sym", ("aad",)), 0, sym(("len", ("aad",)), 0, 1 << 40))), "a block is decrypted with other additional data than the caller's")

    on_read = Enc.on_read
    on_eof = Enc.on_eof
    on_flush = Enc.on_flush

    def on_write(self, e, st, o, name, pos, data, size):
        if name != self.W:
            self.ob(e, st, "only the output is written", False, "plaintext is written to something other than the output")
            return
        st.mon["flushed"] = False
        Pending.consume(self, e, st, "only authenticated plaintext is written", name, pos, data)

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        if k != "ok":
            return
        self.oksinks += 1
        self.ob(e, st, "final block before success", bool(st.mon.get("last")), "success is reported although no final block was verified")
        self.ob(e, st, "all plaintext written before success", exactly(e, st, blen(st.mon["pend"]), 0), "success is reported although plaintext is not completely written")
        if st.mon.get("stream", True):
            self.ob(e, st, "flushed before success", bool(st.mon.get("flushed")), "success is reported although the output is not flushed after its last bytes")


reg(
    "S01",
    "Trace-partitioned abstract interpretation (value provenance, linear relations, typestate) of the MIR reachable from EncryptionStreams::encrypt_file and encrypt::execute; a fixpoint over the block loop covers every input length and every read chunking.",
    Scenario("encrypt_file", "root_encrypt_file", Enc, conf=pos0(("reader", "*")), min_ok=1),
)
reg(
    "S02",
    "Same analysis over DecryptionStreams::decrypt_file and decrypt::execute.",
    Scenario("decrypt_file", "root_decrypt_file", Dec, conf=pos0(("reader", "*")), min_ok=1),
)
