"""Overwriting (E01), erasing (E02) and hashing (G01)."""
from core import blen, lit, seg
from fw import Mon, Scenario, atmost, content, exactly, outcome, same_bytes
from lin import add, is_num, sub, sym

from . import add as reg
from .crypto import fix, whole
from .pipeline import EMPTY, unknown

W = ("req", "writer", "*", "*")
PASSES = sym(("req", "passes"), -(1 << 31), (1 << 31) - 1)


class Passes(Mon):
    """random passes over [0, cap) followed by one zero pass, each complete and flushed"""

    zero_passes = False  # the scenario assumes passes <= 0
    empty = False  # the scenario assumes cap == 0

    def begin(self, st):
        # cur: bytes written in this pass; once that is the whole file, full is set and cur back at 0
        st.mon.update(kind=None, cur=0, full=False, n=0, flushed=True, zeros=False, rx=None, ru=0, failed=False)

    def target(self, e, st, name):
        return name == W

    def cap(self, e, st):
        return sym(("req", "buf_capacity"), 0, 1 << 62)

    def on_fail(self, e, st, op, d):
        st.mon["failed"] = True

    def end_pass(self, e, st):
        k = st.mon["kind"]
        if k is None:
            return
        self.ob(e, st, "every pass covers the whole file", bool(st.mon["full"]) or exactly(e, st, st.mon["cur"], self.cap(e, st)), "an overwriting pass does not write exactly the length of the file")
        self.ob(e, st, "every pass is flushed", bool(st.mon["flushed"]), "an overwriting pass is not flushed before the next step")
        if k == "rand":
            st.mon["n"] = st.cons.norm(add(st.mon["n"], 1))
        else:
            st.mon["zeros"] = True
        st.mon.update(kind=None, cur=0, full=False)

    def on_seek(self, e, st, o, name, pos):
        if not self.target(e, st, name):
            return
        self.end_pass(e, st)

    def on_rand(self, e, st, q, n, x):
        st.mon["rx"] = (q, x)
        st.mon["ru"] = 0

    def on_write(self, e, st, o, name, pos, data, size):
        if not self.target(e, st, name):
            self.ob(e, st, "only the file itself is written", False, "overwriting writes to something other than the file")
            return
        n = blen(data)
        if st.cons.norm(n) == 0:
            return
        cap = self.cap(e, st)
        if st.mon["kind"] is not None and st.cons.eq0(pos):
            # a new pass that was positioned without a seek event
            self.end_pass(e, st)
        self.ob(e, st, "passes start at 0 and are contiguous", exactly(e, st, pos, cap if st.mon["full"] else st.mon["cur"]), "an overwriting pass does not start at offset 0 or leaves a gap")
        self.ob(e, st, "the file is not extended", False if st.mon["full"] else atmost(e, st, add(pos, n), cap), "overwriting may write beyond the end of the file")
        kinds = {"rand" if x[0] == "rand" else "zero" if x[0] == "zero" or x[0] == "lit" and not any(x[1]) else "other" for x, _, _ in data[1]}
        k = kinds.pop() if len(kinds) == 1 else "other"
        if k == "other":
            self.ob(e, st, "random bytes or zeros", None if unknown(data) else False, "overwriting writes bytes that are neither random nor zero")
            k = st.mon["kind"] or "rand"
        if st.mon["kind"] not in (None, k):
            self.ob(e, st, "a pass is random or zero throughout", False, "an overwriting pass mixes random bytes and zeros")
        if k == "rand":
            self.ob(e, st, "zeros come last", not st.mon["zeros"], "a random pass follows the zero pass")
            for x, off, l in data[1]:
                if x[0] != "rand":
                    continue
                rx = st.mon["rx"]
                self.ob(e, st, "secure random bytes", x[1] == "os", "the random bytes do not come from an operating-system seeded generator")
                fresh = False if rx is None or rx[1] != x[2] else exactly(e, st, off, st.mon["ru"])
                self.ob(e, st, "fresh random bytes", fresh, "random bytes are written that were not freshly generated")
                st.mon["ru"] = st.cons.norm(add(off, l))
        st.mon["kind"] = k
        st.mon["cur"] = st.cons.norm(add(pos, n))
        if st.cons.same(st.mon["cur"], cap):
            st.mon.update(cur=0, full=True)
        st.mon["flushed"] = False

    def on_flush(self, e, st, o, name):
        if self.target(e, st, name):
            st.mon["flushed"] = True
            if not st.mon["full"] and st.mon["kind"] is not None and st.cons.same(st.mon["cur"], self.cap(e, st)):
                st.mon.update(cur=0, full=True)

    def on_setlen(self, e, st, o, name, n):
        self.ob(e, st, "length is kept while overwriting", False, "the length of the file is changed")

    def complete(self, e, st):
        """obligations once overwriting claims to be finished"""
        self.end_pass(e, st)
        if self.empty or st.cons.eq0(self.cap(e, st)):
            return
        self.ob(e, st, "the last pass writes zeros", bool(st.mon["zeros"]), "no pass of zeros is made")
        want = 0 if self.zero_passes else PASSES
        self.ob(e, st, "the requested number of passes", exactly(e, st, st.mon["n"], want), "the number of random passes is not the number requested")


class Overwrite(Passes):
    def start(self, e, st):
        self.begin(st)

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        if k == "err":
            self.ob(e, st, "only failures are reported", bool(st.mon["failed"]), "overwriting fails without any failing step")
        if k != "ok":
            return
        self.oksinks += 1
        self.ob(e, st, "failures are reported", not st.mon["failed"], "overwriting reports success although a step failed")
        self.complete(e, st)


def splits(cls, root, cap, conf=None, extra=()):
    for empty in (False, True):
        for none in (False, True):
            m = type(cls.__name__, (cls,), {"empty": empty, "zero_passes": none})

            def setup(e, st, args, empty=empty, none=none):
                e.special = list(e.special) + [PASSES]
                c = cap(e)
                ok = e.assume(st, e.mkeq(st, c, 0) if empty else e.mkge(st, c, 1))
                ok &= e.assume(st, e.mkge(st, 0, PASSES) if none else e.mkge(st, PASSES, 1))
                for f in extra:
                    ok &= f(e, st)
                return None if ok else False

            yield Scenario("%s, %s file, %s passes" % (root[5:], "empty" if empty else "non-empty", "no" if none else "some"), root, m, setup, conf=conf, min_ok=1)


def pos0(e, nat):
    nat.POS0 = {W: sym(("pos0", W), 0, 1 << 60)}


reg(
    "E01",
    "Interprets overwrite::execute with symbolic length and number of passes (loop fixpoints with linear invariants over offset, pass counter and block list): every write's position, length, content provenance (fresh OS random draw or zeros) and the flush after each pass are decided on all paths.",
    *splits(Overwrite, "root_overwrite", lambda e: sym(("req", "buf_capacity"), 0, 1 << 62), pos0))


class Erase(Passes):
    PATH = None

    def start(self, e, st):
        self.begin(st)
        st.mon.update(name=None, done=False, removed=False)

    def target(self, e, st, name):
        return st.mon["name"] is not None and name == st.mon["name"]

    def cap(self, e, st):
        return sym(("size", st.mon["name"]), 0, 1 << 61)

    def on_open(self, e, st, o, path, flags):
        self.ob(e, st, "the given path is opened", same_bytes(e, st, path, whole(("req", "path"))), "erasing opens another path than the given one")
        self.ob(e, st, "content survives opening", "truncate" not in flags, "the file is truncated when opened, so its old content is never overwritten")
        self.ob(e, st, "opening creates nothing", "create" not in flags and "create_new" not in flags, "erasing may create the file")
        st.mon["name"] = ("open", path, flags)
        if o is not None:
            self.ob(e, st, "one handle", True, "")

    def on_setlen(self, e, st, o, name, n):
        if self.target(e, st, name):
            if not st.mon["done"]:
                st.mon["done"] = True
                self.complete(e, st)

    def removing(self, e, st, p, what):
        if not st.mon["done"]:
            st.mon["done"] = True
            self.complete(e, st)
        self.ob(e, st, "only after overwriting succeeded", not st.mon["failed"], "the file is removed although overwriting it failed")
        self.ob(e, st, "the overwritten file is removed", same_bytes(e, st, p, whole(("req", "path"))), "another path than the erased file is removed")

    def on_remove_file(self, e, st, p):
        self.removing(e, st, p, "file")
        st.mon["removed"] = True

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        if k == "err":
            self.ob(e, st, "only failures are reported", bool(st.mon["failed"]), "erasing fails without any failing step")
        if k != "ok":
            return
        self.oksinks += 1
        self.ob(e, st, "success means removed", bool(st.mon["removed"]), "erasing reports success although the file was not removed")
        self.ob(e, st, "failures are reported", not st.mon["failed"], "erasing reports success although a step failed")


def fname():
    p = ("B", ((("sym", ("req", "path")), 0, sym(("len", ("req", "path")), 0, 1 << 40)),))
    return ("open", p, frozenset({"read", "write"}))


def erase_scenarios():
    # the size symbol depends on the flags the file is opened with, so nothing is assumed about it
    for none in (False, True):
        m = type("Erase", (Erase,), {"zero_passes": none})

        def setup(e, st, args, none=none):
            e.special = list(e.special) + [PASSES]
            return None if e.assume(st, e.mkge(st, 0, PASSES) if none else e.mkge(st, PASSES, 1)) else False

        yield Scenario("erase, %s passes" % ("no" if none else "some"), "root_erase", m, setup, min_ok=1)


reg(
    "E02",
    "Interprets erase::execute over the file storage: flags of the opening, every write of the overwriting passes (as E01, against the file's size at opening), and the order of overwriting, truncation and removal are decided on every path.",
    *erase_scenarios())


class Hash(Mon):
    R = ("req", "reader", "*", "*")

    def start(self, e, st):
        st.mon.update(fed=0, fail=False, eof=False)

    def on_eof(self, e, st, o, name):
        st.mon["eof"] = True

    def on_fail(self, e, st, op, d):
        st.mon["fail"] = True

    def on_hash_update(self, e, st, loc, old, data):
        want = seg(("file", self.R, "0"), st.mon["fed"], blen(data))
        self.ob(e, st, "every byte once and in order", same_bytes(e, st, data, want), "bytes fed to the hash are not the next bytes of the input")
        st.mon["fed"] = st.cons.norm(add(st.mon["fed"], blen(data)))

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "err":
            self.ob(e, st, "only failures are reported", bool(st.mon["fail"]), "hashing fails without any failing step")
            return
        if k != "ok":
            return
        self.oksinks += 1
        self.ob(e, st, "a read failure is reported", not st.mon["fail"], "a digest is returned although reading failed")
        self.ob(e, st, "hashed up to end of input", bool(st.mon["eof"]), "a digest is returned before the reader reported end of input")
        self.ob(e, st, "lowercase hexadecimal BLAKE3 digest of the input", self.digest(e, st, content(e, st, p), st.mon["fed"]), "what is returned is not the full lowercase hexadecimal BLAKE3 digest of the bytes fed")

    def digest(self, e, st, b, n):
        if b is None or unknown(b):
            return None
        if len(b[1]) != 1:
            return False
        o, off, l = b[1][0]
        if o[0] != "term" or o[1][:2] != ("T", "hex"):
            return False
        d = o[1][2]
        if is_num(d) or d[:2] != ("T", "digest") or d[2] != "blake3":
            return False
        want = seg(("file", self.R, "0"), 0, n)
        return False if not st.cons.eq0(off) else exactly(e, st, l, 64) and same_bytes(e, st, d[3], want)


def g01():
    def conf(e, nat):
        nat.POS0 = {Hash.R: sym(("pos0", Hash.R), 0, 1 << 60)}

    return [Scenario("hash::execute with a new BLAKE3 hasher", "root_hash_file", Hash, None, conf=conf, min_ok=1)]


reg(
    "G01",
    "Interprets hash::execute with the BLAKE3 hasher from a symbolic reader position: a loop fixpoint shows that the bytes absorbed are exactly the input in order for every chunking, that end of input was reported before the digest is taken, and that the returned string is the full hexadecimal digest.",
    *g01())
