"""Directories, storage and archives (E03, T01, P01, P02, U01, U02)."""
import contracts
import natives
from core import Limit, blen, lit, seg
from fw import Mon, Scenario, content, eqv, exactly, fields, outcome, same_bytes, val, variant
from lin import TAB, add, is_num, sub, sym

from . import add as reg
from .crypto import fix, whole
from .pipeline import EMPTY, Groups, unknown

PASSES = sym(("req", "passes"), -(1 << 31), (1 << 31) - 1)
K = sym(("skolem", "K"), 0, 1 << 40)


def number(e, st, v):
    if not is_num(v):
        v = val(e, st, v)
    return v if is_num(v) else None


def errors(self, e, st, k, bad, good, key="fail"):
    """failing steps are reported, and nothing else is"""
    if k == "err":
        self.ob(e, st, "only failures are reported", bool(st.mon["fail"]), good)
    elif k == "ok":
        self.oksinks += 1
        self.ob(e, st, "failures are reported", not st.mon[key], bad)


class EraseDir(Mon):
    """one arbitrary fixed entry K of the directory walk; counts cover all of them"""

    ENTRY = ("req", "entry", "Dir", "0")

    def start(self, e, st):
        st.mon.update(fail=False, walked=False, ended=False, kdir=0, kseen=False, kerase=0, spawned=0, joined=0, removed=False, bad=False, cur=False)

    def on_fail(self, e, st, op, d):
        st.mon["fail"] = True
        if op != "tool:erase" or st.mon["cur"]:
            # other entries fail as K does
            st.mon["bad"] = True

    def kpath(self, st, b):
        return b is not None and any(o[0] == "direntpath" and o[2] == "K" for o, _, _ in b[1])

    def on_walk(self, e, st, root, opts):
        st.mon["walked"] = True
        self.ob(e, st, "the given directory is walked", same_bytes(e, st, root, whole(self.ENTRY)), "another directory than the given one is listed")
        bad = [n for n, _ in opts if n in ("min_depth", "max_depth", "filter_entry", "same_file_system")]
        self.ob(e, st, "no entry is left out", not bad, "the listing is limited by %s" % ", ".join(bad))

    def on_walk_end(self, e, st, root):
        st.mon["ended"] = True

    def on_stat(self, e, st, op, b):
        if self.kpath(st, b):
            st.mon["kseen"] = True

    def on_open(self, e, st, o, path, flags):
        # listing opens files for reading only
        self.ob(e, st, "listing changes nothing", not (flags & {"truncate", "create", "create_new"}), "a file is truncated or created while listing the directory")

    def on_spawn(self, e, st):
        st.mon["spawned"] = st.cons.norm(add(st.mon["spawned"], 1))

    def on_join(self, e, st, v):
        st.mon["joined"] = st.cons.norm(add(st.mon["joined"], 1))

    def on_tool(self, e, st, name, ps, args):
        b = content(e, st, ps.get("path"))
        if name != "erase" or b is None:
            self.ob(e, st, "files are erased", None, "")
            return
        st.mon["cur"] = self.kpath(st, b)
        if st.mon["cur"]:
            want = b[1] and len(b[1]) == 1
            self.ob(e, st, "the file itself is erased", bool(want), "a path derived from the listed file is erased, not the file")
            st.mon["kerase"] = 1
            self.ob(e, st, "requested number of passes", exactly(e, st, number(e, st, ps.get("passes")), PASSES), "a file is erased with another number of passes than requested")

    def on_tooldone(self, e, st, name, ps):
        if name == "erase" and self.kpath(st, content(e, st, ps.get("path"))):
            st.mon["kerase"] = 2
        st.mon["cur"] = False

    def removing(self, e, st, p):
        self.ob(e, st, "the given directory is removed", same_bytes(e, st, p, whole(self.ENTRY)), "another path than the given directory is removed")
        self.ob(e, st, "the directory was listed to its end", bool(st.mon["walked"] and st.mon["ended"]), "the directory is removed before its entries were all listed")
        self.ob(e, st, "all erasures succeeded", not st.mon["bad"], "the directory is removed although a step failed")
        self.ob(e, st, "all erasures are waited for", exactly(e, st, st.mon["spawned"], st.mon["joined"]), "the directory is removed before every erasing thread was joined")
        kd = self.kisdir(e, st)
        if kd is False:
            self.ob(e, st, "every file is erased first", st.mon["kerase"] == 2, "the directory is removed although a file in it was not erased")
        elif kd is None:
            # whether K is a directory was never asked: it may be a file
            self.ob(e, st, "every file is erased first", True if st.mon["kerase"] == 2 else False if self.inrange(e, st) else None, "the directory is removed although a listed entry was neither checked nor erased")

    def inrange(self, e, st):
        return st.mon["ended"]

    def kisdir(self, e, st):
        p = seg(("direntpath", whole(self.ENTRY), "K"), 0, sym(("len", "direntpath", whole(self.ENTRY), "K"), 1, 1 << 16))
        s = sym(("bool", ("is_dir", p)), 0, 1)
        if st.cons.same(s, 1):
            return True
        if st.cons.same(s, 0):
            return False
        return None

    def on_remove_dir_all(self, e, st, p):
        self.removing(e, st, p)
        st.mon["removed"] = True

    def on_remove_dir(self, e, st, p):
        self.removing(e, st, p)

    def on_remove_file(self, e, st, p):
        self.ob(e, st, "only erased files are removed", False, "a file is removed without being erased")

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        errors(self, e, st, k, "erasing a directory reports success although a step failed", "erasing a directory fails without a failing step", "bad")
        if k == "ok":
            self.ob(e, st, "success means removed", st.mon["removed"], "success is reported although the directory was not removed")


class NotDir(Mon):
    """a path that is not a directory is refused"""

    def on_any(self, e, st, kind, args):
        if kind in ("tool", "remove_file", "remove_dir_all", "remove_dir", "write", "setlen"):
            self.ob(e, st, "nothing is touched", False, "a path that is not a directory is acted on")

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        self.ob(e, st, "refused", None if k is None else k == "err", "a path that is not a directory is accepted by directory erasure")


def e03():
    def conf(e, nat):
        contracts.tools(nat, "erase")
        e.skolem["walk"] = K
        e.special = list(e.special) + [K]

    def isdir(d):
        def setup(e, st, args):
            n = [v["name"] for v in e.p.types[contracts.adt(e, "volaris_tools::storage::Entry")]["variants"]]
            k = ("disc", ("req", "entry"))
            i = n.index("Dir")
            ok = e.assume(st, e.mkeq(st, sym(k, 0, len(n) - 1), i)) if d else e.assume(st, e.neg(e.mkeq(st, sym(k, 0, len(n) - 1), i)))
            if d:
                root = whole(EraseDir.ENTRY)
                ok &= e.assume(st, e.mkge(st, sub(sym(("walk", "count", root), 1, 1 << 30), 1), K))
            return None if ok else False

        return setup

    yield Scenario("erase_dir of a directory", "root_erase_dir", EraseDir, isdir(True), conf=conf, min_ok=1)
    yield Scenario("erase_dir of a file", "root_erase_dir", NotDir, isdir(False), conf=conf)


reg(
    "E03",
    "Interprets erase_dir::execute over the file storage with the directory walk, worker threads and file erasure as events: for an arbitrary fixed listed entry and for counts of threads started and joined, every path to the directory's removal and every result is decided.",
    *e03())

# ------------------------------------------------------------------ T01
EFFECTS = ("create_dir_all", "create_dir", "remove_file", "remove_dir_all", "remove_dir", "rename", "copy", "hard_link", "setlen", "write", "open", "fs_write", "fs_read", "spawn", "walk")


class Store(Mon):
    """one storage operation: the effects it has and the outcomes it reports"""

    P = whole(("p",))
    flags = None  # what the file must be opened with, and must not
    never = frozenset()
    allowed = ()  # other effects
    mustfail = False

    def start(self, e, st):
        st.mon.update(fail=False, n=0, done=False)

    def on_fail(self, e, st, op, d):
        st.mon["fail"] = True

    def on_any(self, e, st, kind, args):
        if kind in EFFECTS and kind not in self.allowed and not (kind == "open" and self.flags is not None):
            self.ob(e, st, "no other effect", False, "the operation also performs %s" % kind)

    def path_ok(self, e, st, p):
        return same_bytes(e, st, p, self.P)

    def on_open(self, e, st, o, path, flags):
        if self.flags is None:
            return
        self.ob(e, st, "the given path is opened", self.path_ok(e, st, path), "another path than the given one is opened")
        if "create_new" in flags:
            flags = flags - {"create", "truncate"}  # ignored with create_new
        self.ob(e, st, "opened in the promised way", self.flags <= flags and not (flags & self.never), "the file is opened with %s" % (", ".join(sorted(flags)) or "no access"))
        st.mon["n"] += 1

    def effect_ok(self, e, st, p):
        self.ob(e, st, "acts on the given entry", self.path_ok(e, st, p), "another path than the given entry's is acted on")
        st.mon["done"] = True

    def refusal(self, e, st):
        return False

    def on_sink(self, e, st, v):
        k, p = outcome(e, st, v)
        if k == "ok":
            self.oksinks += 1
            self.ob(e, st, "failures are reported", not st.mon["fail"], "success is reported although a step failed")
            self.good(e, st, p)
        elif k == "err":
            self.ob(e, st, "only failures are reported", True if st.mon["fail"] else self.refusal(e, st), "the operation fails although no step failed")
        else:
            self.ob(e, st, "a result is returned", None, "")

    def good(self, e, st, p):
        self.ob(e, st, "success means done", st.mon["done"], "success is reported although nothing was done")


class Opens(Store):
    def good(self, e, st, p):
        n, f = variant(e, st, p)
        if n == "Dir":
            self.dir(e, st, f[0])
            return
        self.ob(e, st, "opened exactly once", st.mon["n"] == 1, "a file entry is returned without opening the file once")
        if n != "File" or st.mon["n"] != 1:
            self.ob(e, st, "an entry is returned", None if n is None else n == "File", "no file entry is returned")
            return
        fd = fields(e, st, f[0])
        b = content(e, st, fd.get("path"))
        self.ob(e, st, "the entry carries its path", None if b is None else self.path_ok(e, st, b), "the entry does not carry the path that was opened")

    def dir(self, e, st, b):
        self.ob(e, st, "a created file is a file", False, "a directory entry is returned")


class CreateFile(Opens):
    flags = frozenset({"read", "write", "create_new"})
    never = frozenset({"append"})


class Temp(CreateFile):
    def path_ok(self, e, st, p):
        # an unpredictable component: at least 16 random characters from the operating system's generator
        if p is None:
            return None
        n = 0
        unk = False

        def go(x):
            nonlocal n, unk
            if isinstance(x, tuple):
                if len(x) == 3 and isinstance(x[0], tuple) and x[0][:1] == ("rand",):
                    if x[0][1] != "weak" and "seeded" not in str(x[0][1]) and isinstance(x[2], int):
                        n += x[2]
                elif x[:1] == ("mix",):
                    unk = True
                for y in x:
                    go(y)

        go(p)
        return True if n >= 16 else None if unk else False


class ReadFile(Opens):
    flags = frozenset({"read"})
    never = frozenset({"write", "create", "create_new", "truncate", "append"})

    def dir(self, e, st, b):
        b = content(e, st, b)
        s = sym(("bool", ("is_dir", self.P)), 0, 1)
        self.ob(e, st, "directories are told apart", True if st.cons.same(s, 1) and st.mon["n"] == 0 else False if st.cons.same(s, 0) or st.mon["n"] else None, "a directory entry is returned for something that is not a directory")
        self.ob(e, st, "the entry carries its path", None if b is None else self.path_ok(e, st, b), "the entry does not carry the path that was opened")

    def on_open(self, e, st, o, path, flags):
        super().on_open(e, st, o, path, flags)
        s = sym(("bool", ("is_dir", self.P)), 0, 1)
        if st.cons.same(s, 1):
            self.ob(e, st, "directories are told apart", False, "a directory is opened as a file")


class WriteFile(Opens):
    flags = frozenset({"write", "truncate"})
    never = frozenset({"create", "create_new", "append"})


class EditFile(Opens):
    flags = frozenset({"read", "write"})
    never = frozenset({"create", "create_new", "truncate", "append"})


class CreateDir(Store):
    allowed = ("create_dir_all",)

    def on_create_dir_all(self, e, st, p):
        self.effect_ok(e, st, p)


def is_dir_entry(e, st, key):
    n = [v["name"] for v in e.p.types[contracts.adt(e, "volaris_tools::storage::Entry")]["variants"]]
    s = sym(("disc", key), 0, len(n) - 1)
    if st.cons.same(s, n.index("Dir")):
        return True
    return False if st.cons.ne0(sub(s, n.index("Dir"))) or st.cons.same(s, n.index("File")) else None


class OnEntry(Store):
    KEY = ("e", "*")

    def epath(self):
        return {True: whole(self.KEY + ("Dir", "0")), False: whole(self.KEY + ("File", "0", "path"))}

    def path_ok(self, e, st, p):
        d = is_dir_entry(e, st, self.KEY)
        return None if d is None else same_bytes(e, st, p, self.epath()[d])

    def stream(self):
        return self.KEY + ("File", "0", "stream", "*")


class Flush(OnEntry):
    def on_flush(self, e, st, o, name):
        self.ob(e, st, "acts on the given entry", name == self.stream(), "another file than the given one is flushed")
        st.mon["done"] = True

    def refusal(self, e, st):
        return is_dir_entry(e, st, self.KEY)


class Len(OnEntry):
    def good(self, e, st, p):
        self.ob(e, st, "the file's length is returned", exactly(e, st, number(e, st, p), sym(("size", self.stream()), 0, 1 << 62)), "the returned length is not the file's length")

    def refusal(self, e, st):
        return is_dir_entry(e, st, self.KEY)


class RemoveFile(OnEntry):
    KEY = ("e",)
    allowed = ("remove_file", "setlen")

    def on_setlen(self, e, st, o, name, n):
        self.ob(e, st, "acts on the given entry", name == self.stream(), "another file than the given one is truncated")

    def on_remove_file(self, e, st, p):
        self.effect_ok(e, st, p)

    def on_flush(self, e, st, o, name):
        pass


class RemoveDir(OnEntry):
    KEY = ("e",)
    allowed = ("remove_dir_all",)

    def on_remove_dir_all(self, e, st, p):
        self.effect_ok(e, st, p)
        d = is_dir_entry(e, st, self.KEY)
        self.ob(e, st, "only directories are removed recursively", d, "a file entry is removed as a directory")

    def refusal(self, e, st):
        d = is_dir_entry(e, st, self.KEY)
        return None if d is None else not d


class ReadDir(OnEntry):
    allowed = ("walk", "open")
    ROOT = whole(("e", "*", "Dir", "0"))

    def start(self, e, st):
        super().start(e, st)
        st.mon.update(ended=False)

    def on_walk(self, e, st, root, opts):
        self.ob(e, st, "acts on the given entry", same_bytes(e, st, root, self.ROOT), "another directory than the given one is listed")
        bad = [n for n, _ in opts if n in ("min_depth", "max_depth", "filter_entry", "same_file_system")]
        self.ob(e, st, "no entry is left out", not bad, "the listing is limited by %s" % ", ".join(bad))
        st.mon["done"] = True

    def on_walk_end(self, e, st, root):
        st.mon["ended"] = True

    def on_open(self, e, st, o, path, flags):
        self.ob(e, st, "listed files are opened for reading", flags == {"read"}, "a listed file is opened with %s" % ", ".join(sorted(flags)))

    def refusal(self, e, st):
        d = is_dir_entry(e, st, self.KEY)
        return None if d is None else not d

    def good(self, e, st, p):
        super().good(e, st, p)
        self.ob(e, st, "the listing is complete", st.mon["ended"], "success is reported before the end of the directory")
        v = val(e, st, p)
        n = None
        if not is_num(v) and v[0] == "V":
            l = e.cell(st, v[1])
            n = e.length(st, l)
            from core import has_mark

            self.ob(e, st, "every entry is listed", has_mark(l, st.heap), "an arbitrary directory entry is missing from the listing")
        self.ob(e, st, "as many entries as the directory has", exactly(e, st, n, sym(("walk", "count", self.ROOT), 1, 1 << 30)), "the listing has not as many entries as the directory")


def t01():
    def conf(e, nat):
        e.skolem["walk"] = K
        e.special = list(e.special) + [K]

    def isdir(e, st, args):
        i = [v["name"] for v in e.p.types[contracts.adt(e, "volaris_tools::storage::Entry")]["variants"]].index("Dir")
        ok = e.assume(st, e.mkeq(st, sym(("disc", ("e", "*")), 0, 1), i))
        ok &= e.assume(st, e.mkge(st, sub(sym(("walk", "count", ReadDir.ROOT), 1, 1 << 30), 1), K))
        return None if ok else False

    def isfile(e, st, args):
        i = [v["name"] for v in e.p.types[contracts.adt(e, "volaris_tools::storage::Entry")]["variants"]].index("File")
        return None if e.assume(st, e.mkeq(st, sym(("disc", ("e", "*")), 0, 1), i)) else False

    for n, m in (("create_temp_file", Temp), ("create_dir_all", CreateDir), ("create_file", CreateFile), ("read_file", ReadFile), ("write_file", WriteFile), ("edit_file", EditFile), ("flush_file", Flush), ("file_len", Len), ("remove_file", RemoveFile), ("remove_dir_all", RemoveDir)):
        yield Scenario(n, "root_st_" + n, m, core=n != "edit_file", min_ok=1)
    yield Scenario("read_dir of a directory", "root_st_read_dir", ReadDir, isdir, conf=conf, min_ok=1)
    yield Scenario("read_dir of a file", "root_st_read_dir", ReadDir, isfile, conf=conf)


reg(
    "T01",
    "Interprets every operation of the file storage on an arbitrary path or entry: the flags each open carries, the path every effect acts on, and the result reported on every path.",
    *t01())


# ------------------------------------------------------------------ P01, P02 (packing)
CF = ("req", "compress_files")
KE = CF + ("[]", "K")
KSTREAM = KE + ("File", "0", "stream", "*")
KPATH = {"File": whole(KE + ("File", "0", "path")), "Dir": whole(KE + ("Dir", "0"))}


def packconf(e, nat):
    contracts.tools(nat, "encrypt", "overwrite")
    e.skolem[CF] = K
    e.special = list(e.special) + [K]
    nat.POS0[KSTREAM] = 0


class Cleanup:
    """the temporary archive is wiped and removed, whatever happens"""

    group = "P02"

    def cl_start(self, st):
        st.mon.update(tmp=None, wiped="no", gone="no")

    def cl_open(self, e, st, o, path, flags):
        if "create_new" in flags and st.mon["tmp"] is None:
            st.mon["tmp"] = ("open", path, flags)
            st.mon["tmpo"] = o
            return True
        return False

    def cl_use(self, e, st, name, what):
        if st.mon["tmp"] is not None and name == st.mon["tmp"]:
            self.g("P02", e, st, "wiped after its last use", st.mon["wiped"] == "no" and st.mon["gone"] == "no", "the temporary archive is used after it was wiped or removed (%s)" % what)

    def cl_overwrite(self, e, st, ps):
        name = fname(e, st, ps.get("writer"))
        mine = st.mon["tmp"] is not None and name == st.mon["tmp"]
        self.g("P02", e, st, "only the temporary archive is wiped", None if name is None else mine, "something other than the temporary archive is overwritten")
        if mine:
            size = natives.fget(e, st, st.mon["tmpo"])[2]
            n = number(e, st, ps.get("buf_capacity"))
            self.g("P02", e, st, "wiped over its full length", exactly(e, st, n, size), "the temporary archive is not overwritten over its full length")
            p = number(e, st, ps.get("passes"))
            self.g("P02", e, st, "at least one pass", None if p is None else e.cond_status(st, e.mkge(st, p, 1)), "the temporary archive is overwritten with no pass at all")
            st.mon["wiped"] = "yes"

    def cl_fail(self, e, st, op, d):
        """a failing step of the cleanup itself"""
        t = st.mon["tmp"]
        if t is None:
            return False
        if op == "metadata" and d == t:
            if st.mon["wiped"] == "no":
                st.mon["wiped"] = "fail"
            return True
        if op == "tool:overwrite":
            return True
        if op in ("set_len", "flush") and d == t and st.mon["wiped"] != "no":
            st.mon["gone"] = "fail"
            return True
        if op == "remove_file" and d == t[1]:
            st.mon["gone"] = "fail"
            return True
        return False

    def cl_remove(self, e, st, p):
        t = st.mon["tmp"]
        mine = t is not None and p is not None and p == t[1]
        self.g("P02", e, st, "only the temporary archive is removed", mine or (None if p is None else same_bytes(e, st, p, t[1]) if t else False), "something other than the temporary archive is removed")
        if mine:
            self.g("P02", e, st, "wiped before it is removed", st.mon["wiped"] != "no", "the temporary archive is removed without being wiped")
            st.mon["gone"] = "yes"

    def cl_end(self, e, st):
        if st.mon["tmp"] is not None:
            self.g("P02", e, st, "wiped before returning", st.mon["wiped"] != "no", "the operation returns without wiping the temporary archive")
            self.g("P02", e, st, "removed before returning", st.mon["gone"] != "no", "the operation returns without removing the temporary archive")


def fname(e, st, v):
    """name of the file behind a reader or writer value"""
    if v is None:
        return None
    try:
        o, _ = natives.obj_of(e, st, v)
    except Limit:
        return None
    if not is_num(o) and o[0] == "O" and o[1] == "file":
        return natives.fget(e, st, o)[0]
    return None


def passed(e, st, v, field):
    """is the value the request's field of the same name?"""
    if v is None:
        return None
    for _ in range(4):
        if is_num(v) or isinstance(v, bool):
            return None
        if v[0] == "S":
            return v[1] == ("req", field)
        if v[0] == "R" and isinstance(v[1], tuple) and v[1][0] == "c":
            return v[1][1][:2] == ("req", field)
        break
    return None


class Pack(Groups, Cleanup, Mon):
    def start(self, e, st):
        st.mon.update(fail=False, kst="none", kout=0, keof=False, fin=False, enc="no", tmpo=None, late=False)
        self.cl_start(st)

    def disc(self, e, st):
        return is_dir_entry(e, st, KE)

    def on_fail(self, e, st, op, d):
        if self.cl_fail(e, st, op, d):
            return
        if op == "tool:encrypt":
            st.mon["enc"] = "err"
        st.mon["fail"] = True

    def on_open(self, e, st, o, path, flags):
        if self.cl_open(e, st, o, path, flags):
            return
        self.g("P02", e, st, "the archive is kept in one temporary file", not (flags - {"read"}), "another file is opened for writing while packing")

    def on_zip_new(self, e, st, o):
        n = natives.fget(e, st, o)[0] if o[1] == "file" else None
        self.g("P02", e, st, "the archive is kept in one temporary file", None if n is None else n == st.mon["tmp"], "the archive is not written to the temporary file")

    def kname(self, e, st, name):
        """does an entry's name say where K came from?"""
        d = self.disc(e, st)
        if d is None or name is None:
            return None
        p = KPATH["Dir" if d else "File"]
        if name == p:
            return True
        os = [o for o, _, _ in name[1]]
        if len(os) == 1 and os[0][0] == "comppath":
            return os[0][1] == p and "Normal" in os[0][2]
        if len(os) == 1 and os[0][0] == "pathfn":
            return False
        return None

    def marked(self, e, st, b):
        from core import has_mark

        return b is not None and has_mark(b, st.heap)

    def on_zip_start_file(self, e, st, name, opts):
        if not self.marked(e, st, name):
            return
        d = self.disc(e, st)
        self.g("P01", e, st, "directories are stored as directories", None if d is None else not d, "a directory is stored as a file")
        self.g("P01", e, st, "stored under its own name", self.kname(e, st, name), "a file is not stored under its own name")
        self.g("P01", e, st, "stored once", st.mon["kst"] == "none", "a file is stored twice")
        st.mon["kst"] = "file"

    def on_zip_add_directory(self, e, st, name, opts):
        if not self.marked(e, st, name):
            return
        d = self.disc(e, st)
        self.g("P01", e, st, "files are stored as files", d, "a file is stored as a directory")
        self.g("P01", e, st, "stored under its own name", self.kname(e, st, name), "a directory is not stored under its own name")
        st.mon["kst"] = "dir"

    def on_zip_write(self, e, st, cur, y):
        k = self.marked(e, st, cur)
        if y is not None and any(o == ("file", KSTREAM, "0") or o[:2] == ("file", KSTREAM) for o, _, _ in y[1]):
            self.g("P01", e, st, "content goes into its own entry", k, "content of a file is stored in another entry")
        if not k:
            return
        want = seg(("file", KSTREAM, "0"), st.mon["kout"], blen(y))
        v = same_bytes(e, st, y, want)
        self.g("P01", e, st, "complete content in order", v, "the content stored for a file is not what was read from it")
        st.mon["kout"] = st.cons.norm(add(st.mon["kout"], blen(y)))

    def on_eof(self, e, st, o, name):
        if name == KSTREAM:
            st.mon["keof"] = True

    def on_zip_finish(self, e, st, o):
        d = self.disc(e, st)
        k = st.mon["kst"]
        if d is False:
            self.g("P01", e, st, "every file is stored", k == "file", "the archive is closed without a given file")
            if k == "file":
                size = sym(("size", KSTREAM), 0, 1 << 61)
                self.g("P01", e, st, "stored to its end", exactly(e, st, st.mon["kout"], size) if not st.mon["keof"] else eqv(e, st, st.mon["kout"], size), "the archive is closed before a file was stored to its end")
        elif d is True:
            if KPATH["Dir"] in e.natives.COMPS:
                # (a path without a name of its own need not be stored)
                self.g("P01", e, st, "every directory is stored", k == "dir", "the archive is closed without a given directory")
        else:
            self.g("P01", e, st, "every entry is looked at", False, "the archive is closed although a given entry was never looked at")
        st.mon["fin"] = True

    def on_tool(self, e, st, name, ps, args):
        if name == "overwrite":
            self.cl_overwrite(e, st, ps)
            return
        r = fname(e, st, ps.get("reader"))
        self.cl_use(e, st, r, "encrypt")
        self.g("P01", e, st, "the archive is what is encrypted", None if r is None else r == st.mon["tmp"], "something other than the archive is encrypted")
        self.g("P01", e, st, "the archive is complete when encrypted", st.mon["fin"], "the archive is encrypted before it was closed")
        for f in ("raw_key", "header_type", "hashing_algorithm"):
            self.g("P01", e, st, "encrypted as requested", passed(e, st, ps.get(f), f), "the archive is encrypted with another %s than requested" % f)
        for f in ("writer", "header_writer"):
            self.g("P01", e, st, "encrypted as requested", passed(e, st, ps.get(f), f), "the encrypted archive goes to another %s than requested" % f)

    def on_tooldone(self, e, st, name, ps):
        if name == "encrypt":
            st.mon["enc"] = "done"

    def on_remove_file(self, e, st, p):
        self.cl_remove(e, st, p)

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        self.cl_end(e, st)
        if k == "err":
            self.g("P01", e, st, "only failures are reported", st.mon["fail"], "packing fails although no step failed")
        elif k == "ok":
            self.oksinks += 1
            self.g("P01", e, st, "failures are reported", not st.mon["fail"], "packing reports success although a step failed")
            self.g("P01", e, st, "success means encrypted", st.mon["enc"] == "done", "packing reports success although nothing was encrypted")


def pack_scenarios(group):
    mon = type("Pack" + group, (Pack,), {"groups": (group,)})

    def setup(d):
        def f(e, st, args):
            i = [v["name"] for v in e.p.types[contracts.adt(e, "volaris_tools::storage::Entry")]["variants"]].index(d)
            ok = e.assume(st, e.mkge(st, sub(e.len_sym(CF), 1), K)) and e.assume(st, e.mkeq(st, sym(("disc", KE), 0, 1), i))
            return None if ok else False

        return f

    yield Scenario("pack, an arbitrary given file", "root_pack", mon, setup("File"), conf=packconf, min_ok=1)
    yield Scenario("pack, an arbitrary given directory", "root_pack", mon, setup("Dir"), conf=packconf, min_ok=1)
    if group == "P01":

        def named(e, nat):
            packconf(e, nat)
            nat.COMPS = {KPATH["Dir"]: ("Normal",)}

        yield Scenario("pack, a given directory with a name", "root_pack", mon, setup("Dir"), conf=named, min_ok=1)


reg(
    "P01",
    "Interprets pack::execute over the file storage with archive writing and encryption as events: for an arbitrary fixed given file or directory, every path to the closed and encrypted archive is decided.",
    *pack_scenarios("P01"))
# ------------------------------------------------------------------ unpack
OUT = whole(("req", "output_dir_path"))
CALLBACK = ("T", "dyn", ("req", "on_zip_file", "Some", "0"))
ZSIZE = sym(("zipsize", "data", "K"), 0, 1 << 61)


def unpackconf(e, nat):
    contracts.tools(nat, "decrypt", "overwrite")
    e.skolem["zip"] = K
    e.special = list(e.special) + [K]


def targetconf(e, nat):
    contracts.tools(nat, "decrypt", "overwrite")
    nat.MARK = OUT


def known(st, t, hi=1):
    """value of an input symbol on this path, if it is fixed"""
    s = sym(t, 0, hi)
    for i in range(hi + 1):
        if st.cons.same(s, i):
            return i
    return None


class Unpack(Groups, Cleanup, Mon):
    """one arbitrary fixed archive entry K"""

    def start(self, e, st):
        st.mon.update(fail=False, bad=False, dec="no", tmpo=None, cur=None, asked=None, kdir=False, kfile="no", kout=0, keof=False, out=False, spawned=0, joined=0)
        self.cl_start(st)

    # -- what a path is
    def cls(self, b):
        if b is None:
            return None
        if b == OUT:
            return ("out",)
        os = [o for o, _, _ in b[1]]
        if len(os) == 1 and os[0][0] == "pjoin" and os[0][1] == OUT:
            xs = [o for o, _, _ in os[0][2][1]]
            if len(xs) == 1 and xs[0][0] == "zipenclosed":
                return ("entry", xs[0][1])
            if len(xs) == 1 and xs[0][0] == "comppath" and xs[0][2] == ("Normal",):
                ys = [o for o, _, _ in xs[0][1][1]]
                if len(ys) == 1 and ys[0][0] in ("zipname", "zipenclosed", "zipmangled_name"):
                    return ("entry", ys[0][1])
            if len(xs) == 1 and xs[0][0] in ("zipname", "zipmangled_name", "zipname_raw"):
                return ("unsafe", xs[0][1])
        if len(os) == 1 and os[0][0] in ("zipenclosed", "zipname", "zipmangled_name"):
            return ("outside", os[0][1])
        return None

    def created(self, e, st, p):
        """a file or directory is about to be created"""
        k = self.cls(p)
        self.g("U01", e, st, "created inside the target", None if k is None else k[0] in ("out", "entry"), "something is created at a path that is not the target joined with a sanitised entry name")
        self.g("U02", e, st, "decrypted and verified first", st.mon["dec"] == "done", "something is created before the archive was decrypted and verified")
        if k is not None and len(k) > 1 and k[1] == "K":
            some = known(st, ("disc", ("req", "on_zip_file")))
            asked = st.mon["asked"]
            if some == 0:
                v = True
            elif asked is None:
                v = False
            else:
                v = known(st, asked) == 1
            self.g("U01", e, st, "only accepted entries are created", v, "an entry is created although the caller's decision was not asked for or declined it")
            return True
        return False

    def mine(self, e, st, op, d):
        """does the failing step concern K (or the whole operation)?"""
        p = None
        if op in ("open", "create_dir_all", "create_dir"):
            p = d[1] if d and d[0] == "open" else d
        if p is not None:
            k = self.cls(p)
            if k is not None and len(k) > 1:
                return k[1] == "K"
            return k is None or k[0] != "out" or self.target
        if op in ("zip_entry", "enclosed_name", "zip_read", "by_index"):
            return d == "K"
        if op in ("copy", "write", "write_all", "flush", "set_len", "flush on drop", "metadata"):
            return st.mon["cur"] in (None, "K")
        return True

    target = False

    def on_fail(self, e, st, op, d):
        if self.cl_fail(e, st, op, d):
            return
        st.mon["fail"] = True
        if op == "open" and d and d[0] == "open" and "create_new" in d[2] and self.cls(d[1]) == ("entry", "K") and st.mon["kfile"] == "no":
            # it may exist already
            st.mon["kfile"] = "exists"
            return
        if self.mine(e, st, op, d):
            st.mon["bad"] = True

    def on_open(self, e, st, o, path, flags):
        if self.cl_open(e, st, o, path, flags):
            return
        if not flags - {"read"}:
            return
        mine = self.created(e, st, path)
        self.g("U02", e, st, "every directory worker is joined before files are created", exactly(e, st, st.mon["spawned"], st.mon["joined"]), "a file is created before every directory-creating thread was joined")
        self.dirs_first(e, st)
        if mine:
            self.g("U02", e, st, "directories are not stored as files", self.no(known(st, ("bool", ("zip_is_dir", "K")))), "a directory entry is created as a file")
            self.g("U02", e, st, "nothing of an older file is kept", bool(flags & {"create_new", "truncate"}), "a file that existed is not emptied before an entry is written to it")
            st.mon["kfile"] = "open"
            st.mon["kout"] = 0

    def no(self, v):
        return None if v is None else v == 0

    def dirs_first(self, e, st):
        if known(st, ("bool", ("zip_is_dir", "K"))) == 1 and not self.declined(st):
            self.g("U02", e, st, "directories before files", st.mon["kdir"], "a file is created before a directory of the archive was")

    def declined(self, st):
        return st.mon["asked"] is not None and known(st, st.mon["asked"]) == 0

    def on_create_dir_all(self, e, st, p):
        if self.created(e, st, p):
            st.mon["kdir"] = True
        if self.cls(p) == ("out",):
            st.mon["out"] = True

    on_create_dir = on_create_dir_all

    def on_fswrite(self, e, st, p, d):
        self.g("U01", e, st, "created inside the target", None, "")

    def on_spawn(self, e, st):
        st.mon["spawned"] = st.cons.norm(add(st.mon["spawned"], 1))

    def on_join(self, e, st, v):
        st.mon["joined"] = st.cons.norm(add(st.mon["joined"], 1))

    def on_callback(self, e, st, f, args):
        if f[:3] == CALLBACK and args and self.cls(args[0]) is not None and self.cls(args[0])[1:] == ("K",):
            st.mon["asked"] = ("bool", ("callback", args))

    def on_zip_open(self, e, st, o):
        n = natives.fget(e, st, o)[0] if o[0] == "O" and o[1] == "file" else None
        self.g("U02", e, st, "the decrypted archive is opened", None if n is None else n == st.mon["tmp"] and st.mon["dec"] == "done", "something other than the completely decrypted archive is opened")

    def on_zip_get(self, e, st, key):
        self.cl_use(e, st, st.mon["tmp"], "entry")
        st.mon["cur"] = key if key == "K" else "other"

    def on_zip_eof(self, e, st, key):
        if key == "K":
            st.mon["keof"] = True

    def on_write(self, e, st, o, name, pos, data, size):
        if st.mon["tmp"] is not None and name == st.mon["tmp"]:
            self.cl_use(e, st, name, "write")
            return
        k = self.cls(name[1]) if name and name[0] == "open" else None
        fromk = data is not None and any(x[0] == "zipdata" and x[1] == "K" for x, _, _ in data[1])
        if k == ("entry", "K"):
            want = seg(("zipdata", "K"), st.mon["kout"], blen(data)) if data is not None else None
            self.g("U02", e, st, "complete content in order", None if data is None else same_bytes(e, st, data, want), "what is written to a file is not the content of its entry")
            self.g("U02", e, st, "written where it belongs", exactly(e, st, pos, st.mon["kout"]), "the content of an entry is written at another position")
            if data is not None:
                st.mon["kout"] = st.cons.norm(add(st.mon["kout"], blen(data)))
            st.mon["kfile"] = "written"
        elif fromk:
            self.g("U02", e, st, "each entry goes to its own file", None if k is None else False, "the content of an entry is written to another file")

    def on_tool(self, e, st, name, ps, args):
        if name == "overwrite":
            self.cl_overwrite(e, st, ps)
            return
        w = fname(e, st, ps.get("writer"))
        self.cl_use(e, st, w, "decrypt")
        self.g("P02", e, st, "decrypted to the temporary file", None if w is None else w == st.mon["tmp"], "the archive is decrypted to something other than the temporary file")
        for f in ("raw_key", "reader", "header_reader"):
            self.g("U02", e, st, "decrypted as requested", passed(e, st, ps.get(f), f), "the archive is decrypted with another %s than requested" % f)

    def on_tooldone(self, e, st, name, ps):
        if name == "decrypt":
            st.mon["dec"] = "done"

    def on_remove_file(self, e, st, p):
        self.cl_remove(e, st, p)

    def on_sink(self, e, st, v):
        k, _ = outcome(e, st, v)
        self.cl_end(e, st)
        if k == "err":
            self.g("U02", e, st, "only failures are reported", st.mon["fail"], "unpacking fails although no step failed")
        elif k == "ok":
            self.oksinks += 1
            self.g("U02", e, st, "failures are reported", not st.mon["bad"], "unpacking reports success although a step failed")
            self.g("U02", e, st, "every directory worker is joined", exactly(e, st, st.mon["spawned"], st.mon["joined"]), "unpacking reports success before every directory-creating thread was joined")
            self.complete(e, st)

    def complete(self, e, st):
        self.g("U02", e, st, "refused names are reported", known(st, ("bool", ("zip_enclosed", "K"))) != 0, "an entry refused because of its name is silently skipped")
        if self.declined(st):
            return
        d = known(st, ("bool", ("zip_is_dir", "K")))
        if d == 1:
            self.g("U02", e, st, "every directory is created", st.mon["kdir"], "success is reported although a directory of the archive was not created")
        elif d == 0:
            self.g("U02", e, st, "every file is created", st.mon["kfile"] in ("open", "written"), "success is reported although a file of the archive was not created")
            if st.mon["kfile"] in ("open", "written"):
                v = eqv(e, st, st.mon["kout"], ZSIZE) if st.mon["keof"] else exactly(e, st, st.mon["kout"], ZSIZE)
                self.g("U02", e, st, "every file is complete", v, "success is reported although a file was not written completely")
        else:
            self.g("U02", e, st, "no entry is skipped", False, "success is reported although an entry of the archive was never looked at")


class Target(Unpack):
    """the target directory"""

    target = True

    def dirs_first(self, e, st):
        self.g("U02", e, st, "the target before files", st.mon["out"], "a file is created before the target directory was")

    def complete(self, e, st):
        self.g("U02", e, st, "the target is created", st.mon["out"], "success is reported although the target directory was not created")


def unpack_scenarios(group):
    mon = type("Unpack" + group, (Unpack,), {"groups": (group,)})
    tar = type("Target" + group, (Target,), {"groups": (group,)})

    def setup(e, st, args):
        return None if e.assume(st, e.mkge(st, sub(sym(("zip", "count"), 0, 1 << 32), 1), K)) else False

    yield Scenario("unpack, an arbitrary entry", "root_unpack", mon, setup, conf=unpackconf, min_ok=1)
    if group == "U02":
        yield Scenario("unpack, the target directory", "root_unpack", tar, conf=targetconf, min_ok=1)


reg("P02", "Interprets pack::execute and unpack::execute over the file storage: at every return the temporary archive, once created, was wiped over its length and removed after its last use.", *pack_scenarios("P02"), *unpack_scenarios("P02"))
reg("U01", "Interprets unpack::execute over the file storage with decryption, archive reading and worker threads as events: for an arbitrary fixed archive entry, the provenance of every created path and the caller's decision on every path to its creation.", *unpack_scenarios("U01"))
reg("U02", "Same analysis: for an arbitrary fixed archive entry and for the target directory, order of decryption, directory creation, joins and file creation, the bytes written, and the result on every path.", *unpack_scenarios("U02"))
