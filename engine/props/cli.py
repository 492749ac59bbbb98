"""The command line (L01-L07) and its part of X01 and K05.

`main` is interpreted for every subcommand; clap's parsed matches stand for every valid invocation (clapm) and
the operations of the tools crate are replaced by their contracts, since other properties decide those."""
import clapm
import contracts
import natives
import spec
from core import Lin, inputs_only, lit, seg
from fw import Mon, Scenario, atmost, content, eqv, exactly, fields, outcome, same_bytes, variant
from lin import TAB, add as plus, is_num, sym, syms

from . import PROPS, add as reg, more
from .pipeline import Groups
from .secrets import origins

ENV = ("envset", lit(b"VOLARIS_KEY"))
OPS = {
    ("encrypt",): "encrypt",
    ("decrypt",): "decrypt",
    ("pack",): "pack",
    ("unpack",): "unpack",
    ("erase",): None,
    ("hash",): "hash",
    ("header", "dump"): "header::dump",
    ("header", "restore"): "header::restore",
    ("header", "strip"): "header::strip",
    ("header", "details"): None,
    ("key", "change"): "key::change",
    ("key", "add"): "key::add",
    ("key", "del"): "key::delete",
    ("key", "verify"): "key::verify",
}
FILES = {
    "encrypt": {"reader": "#0", "writer": "#1", "header_writer": "--header"},
    "decrypt": {"reader": "#0", "writer": "#1", "header_reader": "--header"},
    "pack": {"writer": "#1", "header_writer": "--header"},
    "unpack": {"reader": "#0", "header_reader": "--header"},
    "header::dump": {"reader": "#0", "writer": "#1"},
    "header::restore": {"reader": "#0", "writer": "#1"},
    "header::strip": {"handle": "#0"},
    "key::change": {"handle": "#0"},
    "key::add": {"handle": "#0"},
    "key::delete": {"handle": "#0"},
    "key::verify": {"handle": "#0"},
}
# field -> (sources in order of precedence, must be confirmed)
STD = ("--keyfile", "env", "--auto", "prompt")
KEYS = {
    "encrypt": {"raw_key": (STD, True)},
    "pack": {"raw_key": (STD, True)},
    "decrypt": {"raw_key": (STD, False)},
    "unpack": {"raw_key": (STD, False)},
    "key::delete": {"raw_key_old": (STD, False)},
    "key::verify": {"raw_key": (STD, False)},
    "key::change": {"raw_key_old": (("--keyfile-old", "prompt"), False), "raw_key_new": (("--keyfile-new", "--auto", "prompt"), True)},
    "key::add": {"raw_key_old": (("--keyfile-old", "prompt"), False), "raw_key_new": (("--keyfile-new", "--auto", "prompt"), True)},
}
INPLACE = {("header", "restore"): "#1", ("header", "strip"): "#0", ("key", "change"): "#0", ("key", "add"): "#0", ("key", "del"): "#0", ("key", "verify"): "#0"}
HASHED = {"encrypt": "#1", "pack": "#1", "decrypt": "#0", "unpack": "#0"}
YES, NO, EMPTY, OTHER = ("y\n", "Y\n", "yes\n"), ("n\n", "N\n", "no\n"), ("\n", "\r\n"), ("q\n", "1\n", "maybe\n", "cancel\n", "")


# ---------------------------------------------------------------- what a path says about a typed answer
def evalb(b, k, s):
    out = b""
    if is_num(b) or b[0] != "B":
        return None
    for o, off, n in b[1]:
        if o == k:
            x = s.encode()
        elif o[0] == "lit":
            x = o[1]
        elif o[0] == "strfn":
            x = evalb(o[2], k, s)
            if x is None:
                return None
            t = x.decode()
            f = {"trim": t.strip, "trim_end": t.rstrip, "trim_start": t.lstrip, "to_lowercase": t.lower, "to_uppercase": t.upper}.get(o[1])
            if f is None:
                return None
            x = f().encode()
        else:
            return None
        if not isinstance(off, int):
            return None
        if isinstance(n, int):
            out += x[off : off + n]
        elif off == 0 and o != ("lit",):
            n = evalnum(n, k, s)
            if n is None or n != len(x):
                return None
            out += x
        else:
            return None
    return out


def evalsym(name, k, s):
    if not isinstance(name, tuple):
        return None
    if name[0] == "len":
        if name[1] == k:
            return len(s.encode())
        if isinstance(name[1], tuple) and name[1][0] == "strfn":
            x = evalb(("B", ((name[1], 0, sym(name, 0, 1 << 40)),)), k, s) if False else None
            m, b = name[1][1], evalb(name[1][2], k, s)
            if b is None:
                return None
            t = b.decode()
            f = {"trim": t.strip, "trim_end": t.rstrip, "trim_start": t.lstrip, "to_lowercase": t.lower, "to_uppercase": t.upper}.get(m)
            return len(f().encode()) if f else None
    if name[0] == "char0":
        x = evalb(name[1], k, s)
        return None if not x else ord(x.decode()[0])
    if name[0] == "byte":
        x = evalb(("B", ((name[1], 0, sym(("len", name[1]), 0, 1 << 30)),)), k, s)
        return x[name[2]] if x is not None and isinstance(name[2], int) and name[2] < len(x) else None
    if name[0] == "bool" and isinstance(name[1], tuple):
        t = name[1]
        if t[0] == "beq" and len(t) == 3:
            a, b = evalb(t[1], k, s), evalb(t[2], k, s)
            return None if a is None or b is None else int(a == b)
        if t[0] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and len(t) == 3:
            a, b = evalb(t[1], k, s), evalb(t[2], k, s)
            if a is None or b is None:
                return None
            return int({"starts_with": a.startswith(b), "ends_with": a.endswith(b), "contains": b in a, "eq_ignore_ascii_case": a.lower() == b.lower()}[t[0]])
    return None


def evalnum(n, k, s):
    if isinstance(n, (int, bool)):
        return int(n)
    r = n.c
    for key, c in n.t:
        v = evalsym(TAB.info[key][0], k, s)
        if v is None:
            return None
        r += c * v
    return r


def mentions(x, k):
    todo = [x]
    while todo:
        v = todo.pop()
        if v == k:
            return True
        if isinstance(v, Lin):
            todo += [TAB.info[q][0] for q, _ in v.t]
        elif isinstance(v, (tuple, frozenset)):
            todo += list(v)
    return False


def possible(st, k, s):
    """can the answer k on this path be the text s: True, False or None"""
    unk = False
    for q, v in st.cons.eq.items():
        nm = TAB.info[q][0]
        if not (mentions(nm, k) or mentions(v, k)):
            continue
        a, b = evalsym(nm, k, s), evalnum(v, k, s)
        if a is None and nm[0] == "char0" and evalb(nm[1], k, s) == b"":
            return False
        if a is None or b is None:
            unk = True
        elif a != b:
            return False
    for f, want in [(f, "ge") for f in st.cons.ge] + [(f, "ne") for f in st.cons.ne]:
        if not mentions(f, k):
            continue
        a = evalnum(f, k, s)
        if a is None:
            # only a first character that does not exist
            if s == "" and any(TAB.info[q][0][0] == "char0" for q in syms(f) if isinstance(TAB.info[q][0], tuple)):
                return False
            unk = True
        elif want == "ge" and a < 0 or want == "ne" and a == 0:
            return False
    return None if unk else True


class Cli(Groups, Mon):
    sub = ()
    min_ok = 0

    def start(self, e, st):
        st.mon.update(done=False, hashed=False, erased=False, shown=False, flushed=frozenset(), absent=frozenset(), ask=None, yes=frozenset(), maybe=frozenset(), text=None, bad=False, words=None, may=frozenset(), last=None, empty=None, auto=None, failed=False, called=False, acted=False)
        self.read = set()

    # ---- helpers
    @property
    def path(self):
        return ("volaris",) + self.sub

    def status(self, st, label, what="given"):
        v = st.cons.norm(clapm.flag_sym(self.path, label, what))
        return v if isinstance(v, int) else None

    def has(self, e, label):
        """does the command define this option"""
        t = self.table(e)
        return True if t is None else any(a.label == label for a in t.order)

    TABLE = None

    def table(self, e):
        t = self.TABLE
        for n in self.sub:
            if t is None:
                return None
            t = next((x for x in clapm.cmd(t).subs if x[2] == n), None)
        return clapm.cmd(t) if t is not None else None

    def value(self, e, label):
        return clapm.val_bytes(e.natives, self.path, label)

    def label(self, e, st, b):
        for l in ("#0", "#1", "--header", "--keyfile", "--keyfile-old", "--keyfile-new"):
            if same_bytes(e, st, b, self.value(e, l)) is True:
                return l
        return None

    def snapof(self, e, st, v):
        try:
            return natives.snap(e, st, v)
        except Exception:
            return ("T", "?")

    def filename(self, e, st, v):
        """(path bytes, flags) of an opened file inside a value"""
        todo = [self.snapof(e, st, v)]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if x[:3] == ("T", "obj", "file") and isinstance(x[3], tuple) and x[3][0] == "open":
                    return x[3][1], x[3][2]
                if x and x[0] == "T" and x[1] == "?":
                    return None
                todo += list(x)
        return None

    def on_clap(self, e, st, t):
        self.TABLE = t

    # ---- options (L03)
    def on_badoption(self, e, st, path, name, why, soft):
        # asking whether a command has an option is not a use of it
        if not soft or "not defined" not in why:
            self.g("L03", e, st, "options read are defined", False, why)

    def on_readoption(self, e, st, path, label):
        self.g("L03", e, st, "options read are defined", True, "")

    def on_clapbad(self, e, st, why):
        self.g("L03", e, st, "the table of commands is well formed", False, why)

    def on_nosub(self, e, st, path, name):
        self.g("L03", e, st, "commands handled are defined", False, "the command `%s` is handled but not defined" % name)

    def on_panic(self, e, st, what, maybe):
        if st.mon["failed"] or st.mon["called"]:
            return
        self.g("L03", e, st, "no valid invocation panics", None if maybe else False, "a valid invocation panics: %s" % (str(what)[:80],))

    # ---- failures (X01)
    def on_fail(self, e, st, op, d):
        if "L03" in self.groups:
            st.mon["failed"] = True
        if op == "stat":
            l = self.label(e, st, d) if isinstance(d, tuple) and d[:1] == ("B",) else None
            if l:
                st.mon["may"] |= frozenset([l])
            else:
                st.mon["absent"] |= frozenset([d])
        if op in ("stat", "parse", "env"):
            return
        if op == "open" and isinstance(d, tuple) and len(d) == 3 and "create_new" in d[2]:
            return
        st.mon["bad"] = True

    # ---- questions
    def on_print(self, e, st, t):
        if isinstance(t, tuple) and t[:2] == ("T", "fmt"):
            b = natives.fmt_text(e, st, t)
            st.mon["text"] = b if self.has(e, "--force") or self.sub[0] == "header" else None
        else:
            b = t
            st.mon["text"] = None
        if "K05" in self.groups:
            bad = any(self.secret(e, st, o) for o in origins(e, b))
            self.g("K05", e, st, "no secret in printed text", not bad, "a password or key is printed")
        if mentions(b, ("toolret", "hash")):
            st.mon["shown"] = True

    def secret(self, e, st, o):
        if o[0] in ("typed", "env", "stdin"):
            return True
        if o[0] == "sym" and o[1][0] == "passphrase":
            return self.status(st, "--auto") != 1
        if o[0] == "file" and isinstance(o[1], tuple) and o[1][0] == "open":
            return (self.label(e, st, o[1][1]) or "").startswith("--keyfile")
        return False

    def on_read_line(self, e, st, k):
        if self.sub != ("unpack",) or not st.mon["called"]:
            f = self.status(st, "--force")
            if self.has(e, "--force"):
                self.g("L07", e, st, "force answers without asking", f == 0, "the user is asked although --force may have been given")
        old = st.mon["ask"]
        if old is not None:
            v = self.answer(e, st, YES + self.defaults(st, True))
            q = [possible(st, old[0], s) for s in YES + NO]
            if v is not True and old[1] == st.mon["text"] and self.looked(st, old[0]):
                self.g("L07", e, st, "a clear answer is not asked for again", False if True in q else None if None in q else True, "a clear answer is ignored and the question asked again")
            if old[1] is not None:
                w = frozenset([old[1]])
                if v is True:
                    self.settled(e, st, v)
                elif v is None:
                    st.mon["maybe"] |= w
        st.mon["ask"] = (k, st.mon["text"])
        st.mon["last"] = None

    def looked(self, st, k):
        """does this path know anything about the answer"""
        c = st.cons
        return any(mentions(TAB.info[q][0], k) for q in c.eq) or any(mentions(f, k) for f in c.ge) or any(mentions(f, k) for f in c.ne)

    def settled(self, e, st, v):
        """an answer that was acted on is not looked at again"""
        if v is True and st.mon["ask"] is not None:
            t = st.mon["ask"][1]
            if t is not None:
                named = frozenset(l for l in ("#1", "--header") if self.about(e, st, t, self.value(e, l)) is True)
                if named:
                    st.mon["may"] |= named
                elif self.sub != ("unpack",):
                    st.mon["yes"] |= frozenset([t])
            st.mon["empty"] = self.spelt(e, st)
            st.mon["ask"] = None

    def spelt(self, e, st):
        """was the answer spelt out (not an empty line)"""
        return None if self.shows(st) is None else self.answer(e, st, YES + NO + OTHER)

    merging = "volaris_cli"

    def settle(self, e, st, v):
        """at the end of a call: what is known about the last answer"""
        if "L04" in self.groups and self.has(e, "--auto"):
            if self.status(st, "--auto", "valued") == 0 or self.parses(st) == [0]:
                st.mon["auto"] = "default"
            elif self.parses(st) == [1]:
                st.mon["auto"] = "value"
        if st.mon["ask"] is not None:
            t = st.mon["ask"][1]
            if self.answer(e, st, YES + self.defaults(st, True)) is True:
                self.settled(e, st, True)
                st.mon["text"] = None
                st.mon["last"] = "yes"
            elif self.answer(e, st, NO + self.defaults(st, False)) is True:
                st.mon["text"] = st.mon["ask"] = None
                st.mon["last"] = "no"

    def positive(self, e, st):
        """was the last question answered with yes"""
        if st.mon["ask"] is None:
            return {"yes": True, "no": False, None: None}[st.mon["last"]]
        return self.answer(e, st, YES + self.defaults(st, True))

    def negative(self, e, st):
        if st.mon["ask"] is None:
            return {"yes": False, "no": True, None: None}[st.mon["last"]]
        return self.answer(e, st, NO + self.defaults(st, False))

    def shows(self, st):
        """the default the question states: 'y', 'n' or None"""
        t = st.mon["ask"][1]
        if t is None:
            return None
        s = b"".join(o[1][f : f + n] for o, f, n in t[1] if o[0] == "lit" and isinstance(f, int) and isinstance(n, int))
        y, n = b"(Y/n)" in s or b"[Y/n]" in s, b"(y/N)" in s or b"[y/N]" in s
        return "y" if y and not n else "n" if n and not y else None

    def defaults(self, st, yes):
        d = self.shows(st)
        return EMPTY if d == ("y" if yes else "n") else ()

    def answer(self, e, st, allowed):
        """the last answer given can only be one of these"""
        k = st.mon["ask"][0]
        unk = False
        skip = () if self.shows(st) is not None else EMPTY
        for s in YES + NO + EMPTY + OTHER:
            if s in allowed or s in skip:
                continue
            p = possible(st, k, s)
            if p is True:
                return False
            if p is None:
                unk = True
        return None if unk else True

    def acting(self, e, st, what):
        """something is done: any question asked before was answered with yes"""
        if st.mon["ask"] is None and st.mon["last"] != "no":
            return None
        v = self.positive(e, st)
        self.g("L07", e, st, "only yes is taken for yes", v, "an answer other than yes, or than an empty line where the stated default is yes, is taken for yes")
        r = [True] if st.mon["ask"] is None else [possible(st, st.mon["ask"][0], s) for s in NO]
        self.g("L02", e, st, "nothing is done after a refusal", False if True in r else None if None in r else True, "%s although the user refused" % what)
        return v

    def on_exit(self, e, st, code):
        if code == 0 and st.mon["ask"] is None and st.mon["last"] is None:
            self.g("L05", e, st, "the command does its work", False if not st.mon["done"] else True, "the command ends as if it had succeeded without doing anything")
        elif code == 0 and not st.mon["acted"]:
            v = self.negative(e, st)
            self.g("L07", e, st, "only no is taken for no", v, "an answer other than no, or than an empty line where the stated default is no, is taken for no")

    # ---- files
    def consent(self, e, st, b):
        if self.status(st, "--force") == 1:
            return True
        if self.label(e, st, b) in st.mon["may"]:
            return True
        if any(self.about(e, st, t, b) is True for t in st.mon["yes"]):
            return True
        unk = any(self.about(e, st, t, b) is not False for t in st.mon["maybe"])
        if st.mon["ask"] is not None:
            a = self.about(e, st, st.mon["ask"][1], b)
            if a is not False:
                v = self.answer(e, st, YES + self.defaults(st, True))
                if a is None and v is True:
                    v = None
                return v
        return None if unk else False

    def about(self, e, st, t, b):
        """does the question's text name this path"""
        if t is None:
            return None
        if len(b[1]) == 1 and any(o == b[1][0][0] for o, _, _ in t[1]):
            return True
        # the name only
        if mentions(t, b[1][0][0] if b[1] else None):
            return None
        return False

    def writing(self, e, st, b, what):
        l = self.label(e, st, b)
        if l is not None and INPLACE.get(self.sub) == l:
            return
        yes = self.acting(e, st, "a file is written")
        if l in ("#1", "--header"):
            self.g("L02", e, st, "existing files are overwritten with consent", self.consent(e, st, b), "an existing %s file can be %s without the user's consent" % ("output" if l == "#1" else "header", what))
        elif l == "#0":
            self.g("L01", e, st, "inputs are not written", False, "the input file is %s" % what)
        else:
            self.g("L02", e, st, "existing files are overwritten with consent", None, "a file the user did not name is %s" % what)
        self.settled(e, st, yes)

    def on_open(self, e, st, o, path, flags):
        if not flags & {"write", "append"}:
            return
        if "create_new" in flags:
            self.settled(e, st, self.acting(e, st, "a file is created"))
            return
        self.writing(e, st, path, "overwritten")

    def on_fswrite(self, e, st, p, d):
        self.writing(e, st, p, "overwritten")

    def on_rename(self, e, st, p, q):
        self.writing(e, st, q, "replaced")

    on_copy = on_rename

    def on_flush(self, e, st, o, name):
        if isinstance(name, tuple) and name[0] == "open" and st.mon["done"]:
            l = self.label(e, st, name[1])
            if l:
                st.mon["flushed"] |= frozenset([l])

    def on_remove_file(self, e, st, p):
        self.g("L01", e, st, "files are erased by the erase operation only", False, "a file is removed outside the erase operation")

    on_remove_dir_all = on_remove_dir = on_remove_file

    # ---- operations
    def on_passphrase(self, e, st, n):
        st.mon["words"] = n

    def on_tool(self, e, st, name, ps, args):
        op = OPS[self.sub]
        yes = self.acting(e, st, "the operation runs")
        st.mon["acted"] = True
        if name in ("erase", "erase_dir"):
            self.erasing(e, st, name, ps)
        elif name == "overwrite":
            self.g("L01", e, st, "files are erased by the erase operation only", False, "a file is overwritten outside the erase operation")
        elif name == "hash":
            self.hashing(e, st, ps, args)
        elif name == op:
            self.operation(e, st, name, ps)
        else:
            self.g("L05", e, st, "the command runs its own operation", False, "`%s` runs the operation `%s`" % (" ".join(self.sub), name))
        self.settled(e, st, yes)

    def on_tooldone(self, e, st, name, ps):
        if name in ("erase", "erase_dir"):
            st.mon["erased"] = True
        if name == "hash":
            st.mon["hashed"] = True
        if name == OPS[self.sub] or OPS[self.sub] is None and name in ("erase", "erase_dir"):
            st.mon["done"] = True

    def on_read_dir(self, e, st, entry):
        pass

    def flagcheck(self, e, st, groups, rule, label, on, msg):
        """`on` (True/False/None: the setting in use) must be what the flag says"""
        f = self.status(st, label)
        v = None if on is None else (f == 1) if on else (f == 0 or f is None and not self.has(e, label))
        for g in groups if on else groups[:1]:
            self.g(g, e, st, rule, v, msg % ("with" if not on else "without"))

    def other(self, e, st, t):
        """a question about a file to be written"""
        return t is not None and any(self.about(e, st, t, self.value(e, l)) is True for l in ("#1", "--header"))

    def erasing(self, e, st, name, ps):
        b = content(e, st, ps["path"]) if "path" in ps else None
        if name == "erase_dir":
            n, f = variant(e, st, ps["entry"])
            b = content(e, st, f[0]) if f else None
        if name == "erase_dir":
            if self.status(st, "--force") == 1:
                v = d = True
            elif st.mon["ask"] is None:
                v = any(not self.other(e, st, t) for t in st.mon["yes"]) and st.mon["last"] == "yes"
                d = st.mon["empty"] if v else True
            else:
                t = st.mon["ask"][1]
                v = False if self.other(e, st, t) else self.answer(e, st, YES + self.defaults(st, True))
                d = self.spelt(e, st)
            self.g("L02", e, st, "a directory is erased with consent", v, "a directory can be erased without the user's consent")
            self.g("L07", e, st, "erasing a directory is not the default", d, "an empty answer erases a directory")
        erase = self.sub == ("erase",)
        if not erase:
            for g in ("L01", "L03"):
                self.g(g, e, st, "erased on request", self.status(st, "--erase") == 1, "the original is erased although --erase was not given")
            self.g("L01", e, st, "erased after success", st.mon["done"], "the original is erased before the operation succeeded")
            need = {"encrypt": {"#1"}, "decrypt": {"#1"}, "pack": {"#1"}}.get(self.sub[0], set())
            if self.sub[0] in ("encrypt", "pack") and self.status(st, "--header") != 0:
                need = need | {"--header"}
            self.g("L01", e, st, "erased after flushing", need <= st.mon["flushed"], "the original is erased before the output was flushed")
            if HASHED.get(self.sub[0]) == "#0" and self.status(st, "--hash") != 0:
                self.g("L05", e, st, "the input is hashed before it is erased", st.mon["hashed"], "the input is erased before it was hashed")
        if b is None:
            self.g("L01", e, st, "what is erased is the input", None, "")
        elif self.sub == ("pack",):
            o = b[1][0][0] if len(b[1]) == 1 else ("mix",)
            ok = o[0] == "sym" and o[1][:4] == ("clap", self.path, "#0", "vals")
            self.g("L01", e, st, "what is erased is the input", ok or (None if o[0] == "mix" or o[0] == "sym" and o[1] and o[1][0] == "any" else False), "something other than a source directory is erased")
        else:
            self.g("L01", e, st, "what is erased is the input", same_bytes(e, st, b, self.value(e, "#0")), "something other than the input is erased")
        p = e.val(st, ps["passes"])
        if self.sub == ("pack",):
            v = eqv(e, st, p, 1)
        else:
            l = "--passes" if erase else "--erase"
            val = self.value(e, l)
            ks = syms(p) if isinstance(p, Lin) else ()
            nm = [TAB.info[k][0] for k in ks]
            given = self.status(st, l) if erase else self.status(st, l, "valued")
            parses = [v for k, v in st.cons.eq.items() if isinstance(TAB.info[k][0], tuple) and TAB.info[k][0][0] == "bool" and isinstance(TAB.info[k][0][1], tuple) and TAB.info[k][0][1][:3] == ("parses", "parse", val)]
            if isinstance(p, int):
                v = p == 1 and (given == 0 or parses == [0])
            elif len(nm) == 1 and isinstance(nm[0], tuple) and nm[0][:2] == ("parse", val):
                v = p == sym(nm[0], *TAB.info[list(ks)[0]][1:])
            else:
                v = False if inputs_only(p) else None
        self.g("L01", e, st, "the number of passes is the one asked for", v, "the number of passes is not the one given (or one)")

    def hashing(self, e, st, ps, args):
        f = None
        for a in args:
            f = f or self.filename(e, st, a)
        if self.sub == ("hash",):
            ok = None
            if f is not None:
                o = f[0][1][0][0] if len(f[0][1]) == 1 else ("mix",)
                ok = o[0] == "sym" and o[1][:4] == ("clap", self.path, "#0", "vals") or (None if o[0] == "mix" or o[0] == "sym" and o[1] and o[1][0] == "any" else False)
                if mentions(f[0], self.K):
                    st.mon["called"] = True
                # an element of the list other than K: K stands for every one of them
                if ok is None and mentions(f[0], "any") and not mentions(f[0], self.K):
                    return
            self.g("L05", e, st, "the file hashed is the one given", ok, "another file than the one given is hashed")
            return
        for g in ("L05", "L03"):
            self.g(g, e, st, "hashed on request", self.status(st, "--hash") == 1, "a file is hashed although --hash was not given")
        self.g("L05", e, st, "the file hashed is the encrypted one", None if f is None else same_bytes(e, st, f[0], self.value(e, HASHED[self.sub[0]])), "the file hashed is not the encrypted one")
        self.g("L05", e, st, "hashed after the operation", st.mon["done"], "the file is hashed before it was written")

    K = "K"

    def operation(self, e, st, name, ps):
        if st.mon["done"]:
            self.g("L05", e, st, "the operation runs once", False, "the operation runs twice")
        for f, l in FILES[name].items():
            v = ps.get(f)
            if v is None:
                self.g("L05", e, st, "paths are passed on", None, "no field " + f)
                continue
            if l == "--header":
                n, _ = variant(e, st, v)
                on = {"Some": True, "None": False}.get(n)
                s = self.status(st, l)
                ok = None if on is None else s == 1 if on else s == 0
                self.g("L05", e, st, "the header is where the user said", ok, "the header is %s" % ("detached although --header was not given" if on else "not detached although --header was given"))
                if not on:
                    continue
            fn = self.filename(e, st, v)
            self.g("L05", e, st, "paths are passed on", None if fn is None else same_bytes(e, st, fn[0], self.value(e, l)), "`%s` is not the %s" % (f, {"#0": "input file", "#1": "output file", "--header": "header file"}[l]))
        if "output_dir_path" in ps:
            b = content(e, st, ps["output_dir_path"])
            self.g("L05", e, st, "paths are passed on", None if b is None else same_bytes(e, st, b, self.value(e, "#1")), "the archive is unpacked somewhere else than asked")
        if "header_type" in ps:
            h = fields(e, st, ps["header_type"])
            x = {k: variant(e, st, h[k])[0] for k in ("version", "mode", "algorithm")} if h else {}
            self.g("L05", e, st, "new files have the latest header version", None if not x or x["version"] is None else x["version"] == "V5", "a new file is not written with the latest header version")
            self.g("L05", e, st, "new files are written in stream mode", None if not x or x["mode"] is None else x["mode"] == "StreamMode", "a new file is not written in stream mode")
            a = x.get("algorithm")
            if a in ("Aes256Gcm", "XChaCha20Poly1305"):
                self.flagcheck(e, st, ("L05", "L03"), "the algorithm is the one selected", "--aes", a == "Aes256Gcm", "the algorithm is not the one selected (" + a + " %s --aes)")
            else:
                self.g("L05", e, st, "the algorithm is the one selected", None if a is None else False, "the algorithm is not one that can be selected")
        for f in ("hashing_algorithm", "hash_algorithm"):
            if f in ps:
                n, x = variant(e, st, ps[f])
                want = {"Argon2id": 3, "Blake3Balloon": 5}.get(n)
                self.g("L05", e, st, "keys are hashed with the latest scheme", None if n is None else eqv(e, st, x[0], want) if want else False, "a key is not hashed with the latest version of the scheme")
                if want:
                    self.flagcheck(e, st, ("L05", "L03"), "the key hashing scheme is the one selected", "--argon", n == "Argon2id", "the key hashing scheme is not the one selected (" + n + " %s --argon)")
        if "compression_method" in ps:
            n, _ = variant(e, st, ps["compression_method"])
            if n in ("Stored", "Zstd"):
                self.flagcheck(e, st, ("L05", "L03"), "the compression is the one selected", "--zstd", n == "Zstd", "the compression is not the one selected (" + n + " %s --zstd)")
            else:
                self.g("L05", e, st, "the compression is the one selected", None if n is None else False, "the compression is not one that can be selected")
        for f, (srcs, confirm) in KEYS.get(name, {}).items():
            if f in ps:
                self.keysource(e, st, f, ps[f], srcs, confirm)
        if name == "unpack":
            self.unpacking(e, st, ps)

    def keysource(self, e, st, f, v, srcs, confirm):
        d = fields(e, st, v)
        b = content(e, st, d["data"]) if "data" in d else None
        if b is None or b[0] != "B" or len(b[1]) != 1:
            self.g("L04", e, st, "the key comes from one source", False if b is not None and b[0] == "B" and not b[1] else None, "an empty key is used")
            return
        o, off, n = b[1][0]
        k = {"typed": "prompt", "env": "env", "stdin": "stdin", "file": "file"}.get(o[0])
        if o[0] == "sym" and o[1][0] == "passphrase":
            k = "--auto"
        self.g("L04", e, st, "no empty key", atmost(e, st, 1, n), "an empty key is used")
        if k is None:
            self.g("L04", e, st, "the key comes from one source", None if o[0] in ("mix", "b1", "term") or o[0] == "sym" and o[1][:1] == ("any",) else False, "the key comes from none of the documented sources")
            return
        full = {"file": ("size", o[1:2] and o[1]), "stdin": ("len", "stdin"), "env": ("len", o), "prompt": ("len", o)}.get(k)
        if full is not None:
            v = exactly(e, st, off, 0)
            if v is True:
                v = exactly(e, st, n, sym(full, 0, 1 << 61))
            self.g("L04", e, st, "the whole of the source is the key", v, "only a part of what the source of the key holds is used")
        if k == "file":
            nm = o[1]
            l = self.label(e, st, nm[1]) if isinstance(nm, tuple) and nm[0] == "open" else None
            k = l or "another file"
        elif k == "stdin":
            kf = srcs[0]
            dash = same_bytes(e, st, self.value(e, kf), lit(b"-"))
            q = [v for q, v in st.cons.eq.items() if isinstance(TAB.info[q][0], tuple) and TAB.info[q][0][0] == "bool" and TAB.info[q][0][1][0] == "beq" and mentions(TAB.info[q][0], self.value(e, kf)[1][0][0]) and mentions(TAB.info[q][0], ("lit", b"-"))]
            k = kf if dash is True or 1 in q or dash is None else "stdin"
        want = None
        for s in srcs:
            if s == "prompt":
                want = s
                break
            if s == "env":
                x = st.cons.norm(sym(("bool", ENV), 0, 1))
                x = x if isinstance(x, int) else None
            else:
                if not self.has(e, s):
                    continue
                x = self.status(st, s)
            if x == 1 or x is None:
                want = s
                if x is None and s == k:
                    want = k
                break
        self.g("L04", e, st, "the key source has precedence", k == want, "the key is taken from %s although it should come from %s" % (self.srcname(k), self.srcname(want)))
        if k != want:
            return
        if k == "prompt":
            if confirm:
                x = None
                same = False
                for q, v in st.cons.eq.items():
                    nm = TAB.info[q][0]
                    if v == 1 and isinstance(nm, tuple) and nm[0] == "bool" and isinstance(nm[1], tuple) and nm[1][0] == "beq" and mentions(nm, o):
                        a, b2 = nm[1][1], nm[1][2]
                        os_ = {s[0] for s in a[1]} | {s[0] for s in b2[1]}
                        if len(os_) == 2 and all(s[0] == "typed" for s in os_):
                            same = True
                self.g("L04", e, st, "a new password is confirmed", same, "a new password is accepted without having been typed twice")
        if k == "env":
            self.g("L04", e, st, "the environment variable", o[1] == lit(b"VOLARIS_KEY"), "another environment variable than VOLARIS_KEY is used")
        if k == "--auto":
            w = st.mon["words"]
            val = self.value(e, "--auto")
            valued = self.status(st, "--auto", "valued")
            if isinstance(w, int):
                v = w == 7 and (valued == 0 or self.parses(st) == [0] or st.mon["auto"] == "default")
            elif isinstance(w, Lin):
                ks = syms(w)
                nm = [TAB.info[q][0] for q in ks]
                v = len(nm) == 1 and isinstance(nm[0], tuple) and nm[0][:2] == ("parse", val)
                if not v and not inputs_only(w):
                    v = None
            else:
                v = None
            self.g("L04", e, st, "the passphrase has the number of words asked for", v, "the passphrase does not have the number of words asked for (or seven)")

    def parses(self, st):
        """is it known whether the number of words given is a number"""
        val = ("sym", ("clap", ("volaris",) + self.sub, "--auto", "val"))
        return [v for q, v in st.cons.eq.items() if isinstance(TAB.info[q][0], tuple) and TAB.info[q][0][0] == "bool" and isinstance(TAB.info[q][0][1], tuple) and TAB.info[q][0][1][:2] == ("parses", "parse") and mentions(TAB.info[q][0], val)]

    def srcname(self, k):
        return {"env": "the environment", "prompt": "the prompt", "--auto": "a generated passphrase", "stdin": "standard input"}.get(k, "the keyfile" if k and k.startswith("--keyfile") else k)

    def unpacking(self, e, st, ps):
        """the question asked before each file of the archive"""
        n, f = variant(e, st, ps.get("on_zip_file"))
        if n is None:
            self.g("L02", e, st, "replacing files is asked for", None, "")
            return
        if n == "None":
            self.g("L02", e, st, "replacing files is asked for", False, "existing files are replaced without asking while unpacking")
            return
        c, _ = natives.deref(e, st, f[0])
        if is_num(c) or c[0] != "A" or not isinstance(c[1], int) or e.p.ty(c[1])["k"] != "closure":
            self.g("L02", e, st, "replacing files is asked for", None, "")
            return
        ty = e.p.ty(c[1])
        body = e.p.insts[ty["inst"]].get("body")
        if body is None:
            return
        at = body["locals"][2]
        b = seg(("sym", ("ziptarget",)), 0, sym(("len", ("ziptarget",)), 1, 1 << 20))
        s = st.fork()
        s.mon = dict(s.mon, called=True, ask=None, last=None, text=None, absent=frozenset(), yes=frozenset())
        t = e.p.ty(at)
        x = natives.newvec(e, s, b) if t["k"] != "ref" else natives.newref(e, s, b)
        try:
            rs = e.call_closure(s, c, None, [x], ty.get("ret", 0))
        except Exception as ex:
            if type(ex).__name__ not in ("Limit", "NeedFork"):
                raise
            self.g("L02", e, st, "replacing files is asked for", None, "closure")
            return
        for s, r in rs:
            for s2, yes in self.split(e, s, r):
                gone = any(same_bytes(e, s2, b, z) is True for z in s2.mon["absent"] if not is_num(z) and z and z[0] == "B")
                force = self.status(s2, "--force") == 1
                asked = s2.mon["ask"] is not None or s2.mon["last"] is not None
                if yes:
                    v = True if gone or force else self.positive(e, s2) if asked else False
                    self.g("L02", e, s2, "existing files are overwritten with consent", v, "an existing file can be replaced by an unpacked one without the user's consent")
                    if asked and not gone:
                        self.g("L07", e, s2, "only yes is taken for yes", v, "an answer other than yes, or than an empty line where the stated default is yes, is taken for yes")
                else:
                    v = self.negative(e, s2) if asked else False
                    self.g("L07", e, s2, "only no is taken for no", v, "a file is skipped although the user did not refuse")

    def split(self, e, s, r):
        r = e.val(s, r)
        if isinstance(r, (bool, int)):
            return [(s, bool(r))]
        if not isinstance(r, Lin):
            return []
        out = []
        for v in (0, 1):
            t = s.fork()
            if e.assume(t, e.mkeq(t, r, v)):
                out.append((t, bool(v)))
        return out

    # ---- the end
    def finish(self, e, results):
        for st, v in results:
            e.stack = e.stack[:1]
            k, _ = outcome(e, st, v)
            self.sinks += 1
            if k != "ok":
                self.g("L05", e, st, "the command does its work", True, "")
                continue
            self.oksinks += 1
            self.ended(e, st)

    def ended(self, e, st):
        self.g("X01", e, st, "failures are reported", not st.mon["bad"], "`%s` succeeds although a step failed" % " ".join(self.sub))
        if self.sub == ("header", "details"):
            return
        work = st.mon["done"]
        if self.sub == ("hash",):
            work = st.mon["called"]
        self.g("L05", e, st, "the command does its work", work, "`%s` succeeds without having done its work" % " ".join(self.sub))
        if self.sub[0] in HASHED:
            if self.status(st, "--hash") != 0:
                self.g("L05", e, st, "the hash asked for is shown", st.mon["hashed"] and st.mon["shown"], "no hash is shown although --hash was given")
            if self.status(st, "--erase") != 0:
                self.g("L05", e, st, "what should be erased is erased", st.mon["erased"], "the original is not erased although --erase was given")
        if self.sub[0] in ("encrypt", "decrypt", "pack"):
            need = {"#1"} | ({"--header"} if self.sub[0] != "decrypt" and self.status(st, "--header") != 0 else set())
            self.g("L05", e, st, "outputs are flushed", need <= st.mon["flushed"], "success is reported before the output was flushed")
        if self.sub == ("hash",):
            self.g("L05", e, st, "the hash is shown", st.mon["shown"], "no hash is shown")


class Apart(Cli):
    """the output is one of the inputs"""

    def start(self, e, st):
        Cli.start(self, e, st)

    def touched(self, e, st):
        self.g("L06", e, st, "refused before anything is opened", False, "a file is opened or changed although the output is one of the inputs")

    def on_open(self, e, st, *a):
        self.touched(e, st)

    def on_tool(self, e, st, *a):
        self.touched(e, st)

    on_fswrite = on_rename = on_copy = on_remove_file = on_create_dir = on_create_dir_all = on_open

    def on_exit(self, e, st, code):
        self.g("L06", e, st, "refused with an error", code != 0, "the command ends as if it had succeeded although the output is one of the inputs")

    def finish(self, e, results):
        for st, v in results:
            e.stack = e.stack[:1]
            k, _ = outcome(e, st, v)
            self.sinks += 1
            self.oksinks += 1
            self.g("L06", e, st, "refused with an error", {"ok": False, "err": True}.get(k), "the command succeeds although the output is one of the inputs")


class NotFile(Apart):
    def touched(self, e, st):
        pass

    def on_open(self, e, st, o, path, flags):
        if flags & {"write", "append"}:
            self.g("L06", e, st, "plain files are refused before the output is touched", False, "the output is opened although an input to pack is a plain file")

    def on_tool(self, e, st, *a):
        self.g("L06", e, st, "plain files are refused before the output is touched", False, "a plain file is packed")

    def on_exit(self, e, st, code):
        pass

    def finish(self, e, results):
        for st, v in results:
            e.stack = e.stack[:1]
            k, _ = outcome(e, st, v)
            self.sinks += 1
            self.oksinks += 1
            self.g("L06", e, st, "plain files are refused", {"ok": False, "err": True}.get(k), "packing succeeds although an input is a plain file")


VALS = ("clap", ("volaris", "pack"), "#0", "vals")


def conf(sub, same=None, skolem=False):
    def f(e, nat):
        clapm.Clap(nat)
        e.MAXSTEPS = 20000000
        nat.SUB, nat.FORCE = sub, True
        contracts.tools(nat, *contracts.TOOLS)
        contracts.listing(nat)
        contracts.generated(nat)
        if sub[0] in ("key", "header"):
            contracts.install(nat, contracts.cases(("V5", "V4"), (1,), algs=("XChaCha20Poly1305",), modes=("StreamMode",)))
        if same:
            nat.SAME = same
        if skolem:
            K = sym(("skolem", "K"), 0, 1 << 20)
            key = ("clap", ("volaris",) + sub, "#0", "vals")
            e.skolem[key] = K
            e.special.append(K)

    return f


def setup(sub, fixed, skolem=False, isfile=False):
    def f(e, st, args):
        ok = True
        for k, v in fixed.items():
            if k == "env":
                q = sym(("bool", ENV), 0, 1)
            else:
                q = clapm.flag_sym(("volaris",) + sub, k)
            ok &= e.assume(st, e.mkeq(st, q, v))
        if skolem:
            K = sym(("skolem", "K"), 0, 1 << 20)
            key = ("clap", ("volaris",) + sub, "#0", "vals")
            ok &= e.assume(st, e.mkge(st, sym(("len", key), 1, 1 << 20), plus(K, 1)))
            if isfile:
                b = seg(("sym", key + ("[]", "K")), 0, sym(("len", key + ("[]", "K")), 0, 1 << 40))
                ok &= e.assume(st, e.termbool(st, ("is_file", b), False))
                ok &= e.assume(st, e.termbool(st, ("is_dir", b), True))
        return ok

    return f


# option sets analysed together; what is not listed is left open
BASE = {"--keyfile": 0, "env": 1}
QUIET = dict(BASE, **{"--argon": 0, "--aes": 0, "--hash": 0, "--erase": 0, "--header": 0, "--verbose": 0, "--zstd": 0, "--recursive": 0})


def but(d, *free, **kw):
    r = {k: v for k, v in d.items() if k not in free}
    r.update({k.replace("_", "--"): v for k, v in kw.items()})
    return r


NK = ("--keyfile", "env", "--auto")
RUNS = {
    # name: (sub, fixed, what it is for)
    "encrypt, forced": (("encrypt",), dict(BASE, **{"--force": 1}), "all options but key sources", "L01 L03 L05 X01"),
    "encrypt, asking": (("encrypt",), dict(BASE, **{"--force": 0, "--argon": 0, "--aes": 0, "--header": 0}), "", "L01 L02 L07 X01"),
    "encrypt, asking twice": (("encrypt",), dict(BASE, **{"--force": 0, "--argon": 0, "--aes": 0, "--header": 1, "--hash": 0}), "", "L01 L02 L07 X01"),
    "encrypt, asking twice and hashing": (("encrypt",), dict(BASE, **{"--force": 0, "--argon": 0, "--aes": 0, "--header": 1, "--hash": 1}), "", "L01 L02 L07"),
    "encrypt, key sources": (("encrypt",), but(dict(QUIET, **{"--force": 1}), *NK), "", "L03 L04 L05 K05 X01"),
    "encrypt, key sources and erasing": (("encrypt",), but(dict(QUIET, **{"--force": 1, "--auto": 0}), "--erase", *NK), "", "L01 L04 K05"),
    "decrypt": (("decrypt",), BASE, "", "L01 L02 L03 L05 L07 X01"),
    "decrypt, key sources": (("decrypt",), but(dict(QUIET, **{"--force": 1}), *NK), "", "L03 L04 L05 K05 X01"),
    "unpack": (("unpack",), BASE, "", "L01 L02 L03 L05 L07 X01"),
    "unpack, key sources": (("unpack",), but(dict(QUIET, **{"--force": 1}), *NK), "", "L03 L04 L05 K05 X01"),
    "erase": (("erase",), {}, "", "L01 L02 L03 L05 L07 X01"),
    "hash": (("hash",), {}, "", "L03 L05 X01"),
    "pack, wiring": (("pack",), but(dict(QUIET, **{"--force": 1}), "--argon", "--aes", "--zstd"), "", "L03 L05"),
    "pack, erasing": (("pack",), but(dict(QUIET, **{"--force": 1}), "--erase", "--hash"), "", "L01 L03 L05 X01"),
    "pack, asking": (("pack",), dict(QUIET, **{"--force": 0}), "", "L02 L05 L07"),
    "pack, asking twice": (("pack",), dict(QUIET, **{"--force": 0, "--header": 1}), "", "L02 L05 L07"),
    "pack, asking and erasing": (("pack",), but(dict(QUIET, **{"--force": 0, "--erase": 1})), "", "L01 L02 L07"),
    "pack, header and erasing": (("pack",), but(dict(QUIET, **{"--force": 1, "--erase": 1, "--header": 1})), "", "L01 X01"),
    "pack, key sources": (("pack",), but(dict(QUIET, **{"--force": 1}), *NK), "", "L03 L04 K05"),
    "pack, other options": (("pack",), but(dict(QUIET, **{"--force": 1}), "--verbose", "--recursive"), "", "L03"),
    "header dump": (("header", "dump"), {}, "", "L02 L03 L05 L07 X01"),
    "header restore": (("header", "restore"), {}, "", "L03 L05 X01"),
    "header strip": (("header", "strip"), {}, "", "L03 L05 X01"),
    "header details": (("header", "details"), {}, "", "L03 X01"),
    "key change": (("key", "change"), {}, "", "L03 L04 L05 K05 X01"),
    "key add": (("key", "add"), {}, "", "L03 L04 L05 K05 X01"),
    "key del": (("key", "del"), {"--auto": 0}, "", "L03 L04 L05 K05 X01"),
    "key verify": (("key", "verify"), {"--auto": 0}, "", "L03 L04 L05 K05 X01"),
}


def runs(pid):
    for name, (sub, fixed, _, pids) in RUNS.items():
        if pid in pids.split():
            m = type("Cli", (Cli,), {"sub": sub, "groups": (pid,)})
            sk = sub == ("hash",)
            yield Scenario("command line: " + name, "main", m, setup(sub, fixed, sk), crate="volaris_cli", conf=conf(sub, skolem=sk), limit=300, min_ok=1)


def apart():
    for c in ("encrypt", "decrypt"):
        m = type("Apart", (Apart,), {"sub": (c,), "groups": ("L06",)})
        yield Scenario("%s onto itself" % c, "main", m, setup((c,), {}), crate="volaris_cli", conf=conf((c,), {"#1": "#0"}), limit=300, min_ok=1)
    b = seg(("sym", VALS + ("[]", "K")), 0, sym(("len", VALS + ("[]", "K")), 0, 1 << 40))
    m = type("Apart", (Apart,), {"sub": ("pack",), "groups": ("L06",)})
    yield Scenario("pack onto an input", "main", m, setup(("pack",), QUIET, True), crate="volaris_cli", conf=conf(("pack",), {"#1": b}, True), limit=300, min_ok=1)
    m = type("NotFile", (NotFile,), {"sub": ("pack",), "groups": ("L06",)})
    yield Scenario("pack a plain file", "main", m, setup(("pack",), QUIET, True, True), crate="volaris_cli", conf=conf(("pack",), None, True), limit=300, min_ok=1)


HOW = "abstract interpretation of main over a model of clap's builder calls and parsed matches: "
reg("L01", HOW + "every erase on every path must follow --erase, the operation's success and the flush, name the input and use the passes given", *runs("L01"))
reg("L02", HOW + "every open that can destroy a file must follow a failed stat of that path, --force, or an answer to a question about it that can only have been yes", *runs("L02"))
reg("L03", HOW + "every option read must be defined with that kind of value; effects need the flag that asks for them", *runs("L03"))
reg("L04", HOW + "provenance of the key handed to each operation against the order of precedence, its length and its confirmation", *runs("L04"))
reg("L05", HOW + "operation reached and provenance of every field of its request", *runs("L05"))
reg("L06", HOW + "with equal paths, or a plain file to pack, no open and no operation may be reachable", *apart())
reg("L07", HOW + "every path that acts on an answer is compared with representatives of all kinds of answers", *runs("L07"))
more("X01", *runs("X01"))
more("K05", *runs("K05"))
