"""Generated passphrases (K04) and the secrecy of secrets (K05)."""
import natives
from core import State, blen, bmerge, deps_of_origin, seg
from fw import Mon, Scenario, content, exactly, outcome, same_bytes
from lin import TAB, Lin, add as plus, is_num, sub, syms

from . import add as reg
from .failures import like
from .keys import READER, keycases
from .pipeline import anypos, cases, dec_setup, hdr_conf


class Passphrase(Mon):
    panics = True
    n = None  # number of words, or None for an arbitrary number

    def start(self, e, st):
        st.mon.update(cur=(), last="none", cnt=0, loc=0)

    def on_randint(self, e, st, q, a, b, x):
        self.ob(e, st, "operating-system randomness", None if q == "?" else q == "os", "an index is drawn from a generator that the operating system did not seed")
        if self.n is not None or not st.mon["cur"]:
            st.mon["cur"] += ((a, b, x),)
        else:
            st.mon["cur"] = ((a, b, x),)

    def line(self, st, b):
        """(text, index) if the bytes are one whole line of a text"""
        x = bmerge(b[1], st.cons)
        if len(x) == 1 and x[0][0][0] == "line" and x[0][1] == 0:
            o, _, n = x[0]
            if is_num(n) and st.cons.same(n, natives.line_len(o[1], o[2])):
                return o[1], o[2]
        return None

    def word(self, e, st, l, x0=None):
        """is line l chosen by one fresh draw over exactly the whole list"""
        blob, i = l
        n = len(natives.text_lines(blob)) if natives.text_lit(blob) else None
        if n is None:
            return
        i = st.cons.norm(i)
        for d in st.mon["cur"]:
            a, b, x = d
            off = sub(i, st.cons.norm(x))
            if is_num(off) and not syms(off):
                if a is None:
                    continue
                self.ob(e, st, "every word can be chosen", self.both(e, st, plus(a, off), 0, plus(b, off), n), "a word index is not drawn from exactly the %d words of the list" % n)
                st.mon["cur"] = tuple(y for y in st.mon["cur"] if y is not d)
                return
        v = None
        if not syms(i):
            v = False
        elif self.n is not None and all(isinstance(TAB.info[k][0], tuple) and TAB.info[k][0][0] == "pick" for k in syms(i)):
            v = False
        elif self.n is not None and not st.mon["cur"]:
            v = False
        self.ob(e, st, "each word has a draw of its own", v, "a word of the passphrase is not chosen by an independent draw of its own")

    def both(self, e, st, a, b, c, d):
        v, w = exactly(e, st, a, b), exactly(e, st, c, d)
        return False if v is False or w is False else True if v and w else None

    def on_append(self, e, st, loc, data):
        if self.n is not None:
            return
        l = self.line(st, data)
        if l is not None:
            self.word(e, st, l)
            self.ob(e, st, "words are separated", None if st.mon["last"] == "?" else st.mon["last"] != "word", "two words are joined without a dash")
            st.mon["last"] = "word"
            st.mon["cnt"] = plus(st.mon["cnt"], 1)
        elif natives.is_lit(data) and natives.flat(data) == b"-":
            self.ob(e, st, "single dashes", None if st.mon["last"] == "?" else st.mon["last"] == "word", "a dash does not follow a word")
            st.mon["last"] = "dash"
        else:
            st.mon["last"] = "?"

    def on_sink(self, e, st, v):
        self.oksinks += 1
        b = content(e, st, v)
        if b is None:
            self.ob(e, st, "the passphrase is known", None, "")
            return
        if self.n is None:
            want = st.mon["n"]
            last = st.mon["last"]
            if last == "?" or last == "none" and not natives.is_lit(b):
                self.ob(e, st, "word count", None, "")
                return
            self.ob(e, st, "word count", exactly(e, st, st.mon["cnt"], want), "the passphrase does not have the number of words asked for")
            self.ob(e, st, "ends with a word", True if last == "word" else None, "the passphrase does not end with a word")
            return
        segs = list(bmerge(b[1], st.cons))
        words = 0
        last = "none"
        for o, off, l in segs:
            w = self.line(st, ("B", ((o, off, l),)))
            if w is not None:
                self.ob(e, st, "words are separated", last in ("none", "dash"), "two words are joined without a dash")
                self.word(e, st, w)
                words += 1
                last = "word"
            elif o[0] == "lit" and isinstance(l, int):
                self.ob(e, st, "single dashes", o[1][off : off + l] == b"-" and last == "word", "the words are not joined by single dashes")
                last = "dash"
            elif o[0] == "line":
                self.ob(e, st, "whole words", None if not is_num(l) else False, "a word is not used as a whole")
                last = "word"
                words += 1
            else:
                self.ob(e, st, "the passphrase is known", None, "")
                return
        self.ob(e, st, "word count", words == self.n, "the passphrase has %d words instead of %d" % (words, self.n))
        self.ob(e, st, "ends with a word", last == ("word" if self.n else "none"), "the passphrase does not end with a word")


def k04():
    for n in (None, 0, 1, 2, 3, 4, 5, 6, 7, 8):
        def setup(e, st, args, n=n):
            c = e.newcell(st, n) if n is not None else args[0][1]
            if n is None:
                v, _ = natives.deref(e, st, args[0])
                v = e.as_int(st, v)
                st.mon["n"] = v
                e.assume(st, e.mkge(st, v, 1))
                return None
            return [("R", c, (), None)]

        def conf(e, nat):
            e.exact = True

        yield Scenario("generate_passphrase(%s)" % ("n" if n is None else n), "root_generate_passphrase", type("PP", (Passphrase,), {"n": n, "prop": "K04"}), setup, conf=conf if n is not None else None, min_ok=1)


reg(
    "K04",
    "Interprets generate_passphrase for an arbitrary positive number of words (fixpoint) and for 0 to 8 words exactly: every index drawn comes from an operating-system seeded generator over exactly the indices of the whole list, each appended word is the whole line named by a draw not used before, words and single dashes alternate, the count is the one asked for and no path panics.",
    *k04())


# ------------------------------------------------------------------ K05
SHOWN = ("core::fmt::Display", "core::fmt::LowerHex", "core::fmt::UpperHex", "core::fmt::Write", "core::marker::Copy")


def wrapper_impls(e, mon, prog):
    st = State()
    for crate, impls in sorted(prog.impls.items()):
        for trait, ty, pol in impls:
            if not ty.split("<")[0].endswith("Protected") or pol != "Positive":
                continue
            bad = trait.split("<")[0] in SHOWN or "erialize" in trait.split("<")[0].split("::")[-1]
            mon.ob(e, st, "no trait that reveals or copies", not bad, "the wrapper for secrets implements %s" % trait)
            mon.oksinks += 1


class Erased(Mon):
    """dropping the wrapper erases all of its content first"""

    def start(self, e, st):
        st.mon["z"] = False

    def on_zeroize(self, e, st, v):
        if v[0] == "B":
            v = bmerge(v[1], st.cons)
            if len(v) == 1 and v[0][0] == ("sym", ("p", "data")) and v[0][1] == 0:
                n = v[0][2]
                if is_num(n) and st.cons.same(n, 32 if self.arr else natives.sym(("len", ("p", "data")), 0, 1 << 40)):
                    st.mon["z"] = True

    arr = False

    def finish(self, e, results):
        for st, _ in results:
            self.oksinks += 1
            self.sinks += 1
            self.ob(e, st, "content is erased on drop", st.mon["z"], "the wrapper for secrets is dropped without erasing its content")


class Redacted(Mon):
    def start(self, e, st):
        pass

    def on_any(self, e, st, kind, args):
        if kind == "sink":
            self.oksinks += 1
        self.ob(e, st, "debug output shows nothing", not any(o == ("sym", ("p", "*", "data")) for o in origins(e, args)), "debug-formatting the wrapper reveals its content")


def origins(e, v, redact=True):
    """origins of all bytes visible in a (snapped) value, not looking under encryption, hashing or key derivation"""
    todo = [v]
    seen = set()
    while todo:
        v = todo.pop()
        if isinstance(v, Lin):
            for k in syms(v):
                n = TAB.info[k][0]
                if isinstance(n, tuple) and n and n[0] == "byte" and isinstance(n[1], tuple):
                    yield n[1]
            continue
        if not isinstance(v, (tuple, frozenset)) or not v or isinstance(v, tuple) and v in seen:
            continue
        if isinstance(v, tuple):
            seen.add(v)
        if isinstance(v, tuple) and v[0] in ("ct", "digest", "pt", "kdf", "rand", "sym"):
            yield v
            continue
        if isinstance(v, tuple) and v[0] == "A" and len(v) == 4 and isinstance(v[1], int) and redact and e.p.ty(v[1]).get("path", "").endswith("protected::Protected"):
            continue
        if isinstance(v, tuple) and v[0] == "B" and len(v) == 2:
            todo += [x[0] for x in v[1]]
            continue
        if isinstance(v, tuple) and v[0] == "mix":
            todo += list(v[1])
            continue
        todo += list(v)


def secret(o):
    if o[0] == "kdf":
        return True
    return o[0] == "sym" and o[1] and isinstance(o[1][0], str) and o[1][0] == "req" and any(isinstance(x, str) and x.startswith("raw_key") for x in o[1]) or o[0] == "sym" and o[1][:1] in (("raw_key",), ("key",), ("raw_key_old",), ("raw_key_new",))


class Leak(Mon):
    def start(self, e, st):
        st.mon.update(keys=frozenset(), out=frozenset())

    def shown(self, e, st, what, v, mixed=False):
        for o in origins(e, v):
            if secret(o) or o in st.mon["keys"]:
                self.ob(e, st, "no secret in %s" % what, False, "a password or key reaches %s" % what)
                return
            if o[0] in ("rand", "pt") and what == "a file" and (o[0] == "rand" or o[5] == ("one",)):
                st.mon["out"] |= frozenset([o])
        self.ob(e, st, "no secret in %s" % what, True, "")

    def key(self, e, st, key):
        ks = frozenset(o for o, _, _ in key[1]) if key[0] == "B" else frozenset()
        st.mon["keys"] |= frozenset(o for o in ks if o[0] in ("rand", "pt"))
        bad = st.mon["keys"] & st.mon["out"]
        self.ob(e, st, "no secret in a file", not bad, "a key was written to a file")

    def on_encrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        self.key(e, st, key)

    def on_decrypt(self, e, st, alg, key, nonce, aad, pos, msg, r):
        self.key(e, st, key)

    def on_encfail(self, e, st, alg, key, *a):
        self.key(e, st, key)

    def on_decfail(self, e, st, alg, key, *a):
        self.key(e, st, key)

    def on_write(self, e, st, o, name, pos, data, old):
        self.shown(e, st, "a file", data)

    def on_fswrite(self, e, st, p, d):
        self.shown(e, st, "a file", d)

    def on_print(self, e, st, *a):
        self.shown(e, st, "printed text", a)

    def on_fmtwrite(self, e, st, *a):
        self.shown(e, st, "formatted text", a)

    def on_callback(self, e, st, f, args):
        self.shown(e, st, "a caller's callback", args)

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "err" and p is not None:
            self.shown(e, st, "an error", natives.snap(e, st, p))
        else:
            self.oksinks += 1


def k05():
    s = Scenario("traits of the wrapper", None, Mon)
    s.query = wrapper_impls
    yield s
    for root, arr in (("root_protected_drop", False), ("root_protected_drop_arr", True), ("root_protected_drop_string", False)):
        yield Scenario("dropping a Protected (%s)" % root[20:], root, type("E", (Erased,), {"arr": arr}), min_ok=1)
    yield Scenario("debug-formatting a Protected", "root_protected_debug", Redacted, min_ok=1)
    yield Scenario("encrypt::execute", "root_encrypt", Leak, conf=anypos(READER), min_ok=1)
    for v in ("V1", "V3", "V4", "V5"):
        for det in (False, True):
            yield Scenario("decrypt::execute, %s header, %s" % ("detached" if det else "attached", v), "root_decrypt", Leak, dec_setup(det), conf=hdr_conf(cases((v,), (2,), algs=("Aes256Gcm",))), min_ok=1)
    for s in keycases(("add", "change", "delete", "verify"), ()):
        if s.name.split()[2:5] in (["V5", "Aes256Gcm", "StreamMode"], ["V4", "Aes256Gcm", "StreamMode"]):
            s.mon = Leak
            yield s
    yield from like(("K02",), Leak, lambda s: "Aes256Gcm" in s.name)
    yield from like(("S03", "K01"), Leak)
    yield from like(("D02",), Leak, lambda s: " V5 Aes256Gcm 2" in s.name)


reg(
    "K05",
    "Interprets dropping and debug-formatting the wrapper (its whole content is erased before the drop returns; formatting emits none of it), queries the implementations of the wrapper for traits that would reveal or copy it, and interprets every operation with provenance of each byte: none derived from a password, a derived key or a value used as a cipher key may occur in written, printed or formatted data or in a returned error, other than through encryption, key derivation or hashing.",
    *k05())
