"""Model of the clap builder and of parsed matches.

The command table is built by interpreting the program's own builder calls; `get_matches` then stands for
every valid invocation of that table. Each option contributes a boolean "given" and, if it takes a value,
"valued" and an arbitrary string; options are named as the user sees them (long flag, or position)."""
import re

import natives

from core import NH, UNIT, Limit, seg, lit
from lin import is_num, sub, sym, syms
from natives import content, deref, err, flat, fresh, is_lit, newvec, none, ok, rt, some, tname


def newref(e, st, x):
    return ("R", e.newcell(st, x), (), None)

STRING = "alloc::string::String"
# builder calls that only change how help is shown
COSMETIC = {
    "value_name", "help", "long_help", "about", "long_about", "version", "author", "arg_required_else_help", "display_order", "hide", "after_help",
    "before_help", "help_heading", "next_help_heading", "propagate_version", "value_hint", "long_version", "override_usage", "help_template", "term_width", "color", "styles",
    "disable_help_subcommand", "next_line_help", "hide_default_value", "hide_possible_values", "subcommand_value_name", "subcommand_help_heading", "bin_name", "display_name", "max_term_width",
    "flatten_help", "disable_colored_help", "help_expected", "dont_collapse_args_in_usage", "hide_short_help", "hide_long_help", "value_names", "subcommand_required_else_help", "no_binary_name",
}


def text(e, st, v):
    b = content(e, st, v)
    if b[0] != "B" or not is_lit(b):
        raise Limit("clap name")
    return flat(b).decode()


def props(a):
    return dict(a[3])


def put(a, k, v):
    return ("T", "arg", a[2], tuple(x for x in a[3] if x[0] != k) + ((k, v),))


class Cmd:
    """decoded command definition"""

    def __init__(self, t):
        self.t = t
        self.name = t[2]
        p = dict(t[3])
        self.subs = p.get("subs", ())
        self.required = p.get("subcommand_required", False)
        self.args = {}
        self.order = []
        pos = 0
        for a in p.get("args", ()):
            x = Arg(a)
            if x.long is None and x.short is None:
                x.label = "#%d" % pos
                pos += 1
            self.args[x.id] = x
            self.order.append(x)


class Arg:
    def __init__(self, t):
        p = props(t)
        self.id = t[2]
        self.p = p
        self.long, self.short = p.get("long"), p.get("short")
        self.label = "--" + self.long if self.long else "-%s" % self.short if self.short else None
        lo, hi = p.get("num_args", (None, None))
        act = p.get("action")
        if act is None:
            act = "SetTrue" if hi == 0 else "Set"
        self.action = act
        self.kind = {"SetTrue": "bool", "SetFalse": "bool", "Count": "u8"}.get(act, STRING)
        if "value_parser" in p:
            self.kind = p["value_parser"]
        self.takes = act in ("Set", "Append")
        self.min = 1 if lo is None else lo
        self.hi = hi
        self.multi = act == "Append" or hi is None and lo is not None or isinstance(hi, int) and hi > 1
        self.required = p.get("required", False)
        self.default = p.get("default_value")
        self.missing = p.get("default_missing_value")
        self.conflicts = p.get("conflicts", ())


CACHE = {}


def cmd(t):
    if t not in CACHE:
        CACHE[t] = Cmd(t)
    return CACHE[t]


def key(path, label, what):
    return ("clap", path, label, what)


def flag_sym(path, label, what="given"):
    return sym(key(path, label, what), 0, 1)


def val_bytes(nat, path, label, i=None):
    label = nat.SAME.get(label, label) if i is None else label
    if isinstance(label, tuple):
        return label
    k = key(path, label, "val")
    return seg(("sym", k), 0, sym(("len", k), 0, 1 << 20))


class Clap:
    def __init__(self, nat):
        self.nat = nat
        nat.extra = self

    def lookup(self, e, inst):
        p = inst["path"]
        m = re.match(r"^clap_builder::builder::(arg::Arg|command::Command)::(\w+)$", p)
        if m:
            f = getattr(self, ("a_" if "Arg" in m.group(1) else "c_") + m.group(2), None)
            if f is None:
                if m.group(2) in COSMETIC:
                    return lambda e, st, c: e.res(st, c.args[0])
                return self.unknown
            return f
        if re.match(r"^<clap_builder::builder::(command::Command|arg::Arg) as core::clone::Clone>::clone$", p):
            return lambda e, st, c: deref(e, st, c.args[0])[0]
        m = re.match(r"^clap_builder::parser::matches::arg_matches::ArgMatches::(\w+)$", p)
        if m:
            return getattr(self, "m_" + m.group(1), self.unknown)
        if p.startswith("clap_builder::") and "value_parser" in p:
            return self.parser
        return None

    def unknown(self, e, st, c):
        raise Limit("clap call " + c.inst["path"].split("::")[-1])

    def parser(self, e, st, c):
        return ("T", "vparser", tname(e, rt(e, c)) if rt(e, c) is not None else "?")

    # ---- arguments
    def a_new(self, e, st, c):
        return ("T", "arg", text(e, st, c.args[0]), ())

    def a_id(self, e, st, c):
        a = e.res(st, c.args[0])
        return ("T", "arg", text(e, st, c.args[1]), a[3])

    def a_short(self, e, st, c):
        v = e.val(st, c.args[1])
        if not isinstance(v, int):
            raise Limit("clap short")
        return put(e.res(st, c.args[0]), "short", chr(v))

    def a_long(self, e, st, c):
        return put(e.res(st, c.args[0]), "long", text(e, st, c.args[1]))

    def boolean(k):
        def f(self, e, st, c):
            v = e.val(st, c.args[1])
            if not isinstance(v, (bool, int)):
                raise Limit("clap " + k)
            return put(e.res(st, c.args[0]), k, bool(v))

        return f

    a_required = boolean("required")
    a_require_equals = boolean("require_equals")
    a_last = boolean("last")
    a_allow_hyphen_values = boolean("allow_hyphen_values")

    def a_num_args(self, e, st, c):
        v = e.val(st, c.args[1])
        if is_num(v):
            n = (v, v)
        else:
            v = e.res(st, v)
            t = tname(e, c.argtys[1]) if c.argtys else ""
            xs = [e.val(st, x) for x in v[3]]
            if not all(isinstance(x, int) for x in xs):
                raise Limit("clap num_args")
            if "RangeFrom" in t:
                n = (xs[0], None)
            elif "RangeFull" in t:
                n = (0, None)
            elif "RangeToInclusive" in t:
                n = (0, xs[0])
            elif "RangeTo<" in t:
                n = (0, xs[0] - 1)
            elif "RangeInclusive" in t:
                n = (xs[0], xs[1])
            elif "Range<" in t:
                n = (xs[0], xs[1] - 1)
            else:
                raise Limit("clap num_args " + t)
        if not all(x is None or isinstance(x, int) for x in n):
            raise Limit("clap num_args")
        return put(e.res(st, c.args[0]), "num_args", n)

    def a_action(self, e, st, c):
        v = e.res(st, c.args[1])
        if v[0] != "A" or not isinstance(v[1], int):
            raise Limit("clap action")
        return put(e.res(st, c.args[0]), "action", e.p.ty(v[1])["variants"][v[2]]["name"])

    def a_default_value(self, e, st, c):
        return put(e.res(st, c.args[0]), "default_value", text(e, st, c.args[1]))

    def a_default_missing_value(self, e, st, c):
        return put(e.res(st, c.args[0]), "default_missing_value", text(e, st, c.args[1]))

    def a_conflicts_with(self, e, st, c):
        a = e.res(st, c.args[0])
        return put(a, "conflicts", props(a).get("conflicts", ()) + (text(e, st, c.args[1]),))

    def a_value_parser(self, e, st, c):
        v = e.val(st, c.args[1])
        return put(e.res(st, c.args[0]), "value_parser", v[2] if not is_num(v) and v[:2] == ("T", "vparser") else "?")

    def a_get_id(self, e, st, c):
        raise Limit("clap get_id")

    # ---- commands
    def cput(self, t, k, v):
        return ("T", "cmd", t[2], tuple(x for x in t[3] if x[0] != k) + ((k, v),))

    def c_new(self, e, st, c):
        return ("T", "cmd", text(e, st, c.args[0]), ())

    def c_arg(self, e, st, c):
        t = e.res(st, c.args[0])
        a = e.res(st, c.args[1])
        if a[:2] != ("T", "arg"):
            raise Limit("clap arg")
        return self.cput(t, "args", dict(t[3]).get("args", ()) + (a,))

    def c_args(self, e, st, c):
        t = e.res(st, c.args[0])
        b = e.res(st, c.args[1])
        xs = b[1] if b[0] == "L" else e.cell(st, b[1])[1] if b[0] == "V" else None
        if xs is None or any(i[0] != "e" for i in xs):
            raise Limit("clap args")
        return self.cput(t, "args", dict(t[3]).get("args", ()) + tuple(e.res(st, i[1]) for i in xs))

    def c_subcommand(self, e, st, c):
        t = e.res(st, c.args[0])
        s = e.res(st, c.args[1])
        if s[:2] != ("T", "cmd"):
            raise Limit("clap subcommand")
        return self.cput(t, "subs", dict(t[3]).get("subs", ()) + (s,))

    def c_subcommands(self, e, st, c):
        t = e.res(st, c.args[0])
        b = e.res(st, c.args[1])
        xs = b[1] if b[0] == "L" else e.cell(st, b[1])[1] if b[0] == "V" else None
        if xs is None or any(i[0] != "e" for i in xs):
            raise Limit("clap subcommands")
        return self.cput(t, "subs", dict(t[3]).get("subs", ()) + tuple(e.res(st, i[1]) for i in xs))

    def c_subcommand_required(self, e, st, c):
        return self.cput(e.res(st, c.args[0]), "subcommand_required", bool(e.val(st, c.args[1])))

    def c_short_flag(self, e, st, c):
        v = e.val(st, c.args[1])
        return self.cput(e.res(st, c.args[0]), "short_flag", chr(v) if isinstance(v, int) else None)

    def c_get_matches(self, e, st, c):
        t = e.res(st, c.args[0])
        e.event(st, "clap", t)
        return ("T", "matches", (t[2],), t)

    # ---- matches
    def recv(self, e, st, v):
        m, _ = deref(e, st, v)
        if is_num(m) or m[:2] != ("T", "matches"):
            raise Limit("clap matches")
        return m

    def choose(self, e, st, m):
        """[(state, sub or None)]: the subcommand the user gave"""
        path, t = m[2], m[3]
        chosen = getattr(st, "mon").get("#sub" + "/".join(path))
        want = self.nat.SUB[len(path) - 1] if len(self.nat.SUB) >= len(path) else None
        if t is None:
            return [(st, want)] if want else []
        cm = cmd(t)
        names = [s[2] for s in cm.subs]
        if want is not None and want not in names:
            e.event(st, "nosub", path, want)
            return [(st, want)] if self.nat.FORCE else []
        if len(set(names)) != len(names):
            e.event(st, "clapbad", "two subcommands have the same name")
        out = []
        for n in [want] if want is not None else names:
            s = e.decide(st, ("C", "eq", sub(sym(("clapsub", path, n), 0, 1), 1))) if False else None
            out.append((st.fork(), n))
        if not names or want is None and not cm.required:
            out.append((st, None))
        return out

    def sub(self, m, n):
        t = m[3]
        s = None
        if t is not None:
            for x in cmd(t).subs:
                if x[2] == n:
                    s = x
        return ("T", "matches", m[2] + (n,), s)

    def m_subcommand(self, e, st, c):
        m = self.recv(e, st, c.args[0])
        out = []
        for s, n in self.choose(e, st, m):
            if n is None:
                out.append((s, none(c.dty)))
            else:
                x = self.sub(m, n)
                e.event(s, "sub", x[2])
                out.append((s, some(("A", "tuple", 0, (natives.newref(e, s, lit(n.encode())), newref(e, s, x))), c.dty)))
        return out

    def m_subcommand_name(self, e, st, c):
        m = self.recv(e, st, c.args[0])
        out = []
        for s, n in self.choose(e, st, m):
            out.append((s, none(c.dty) if n is None else some(natives.newref(e, s, lit(n.encode())), c.dty)))
        return out

    def m_subcommand_matches(self, e, st, c):
        m = self.recv(e, st, c.args[0])
        want = text(e, st, c.args[1])
        out = []
        for s, n in self.choose(e, st, m):
            if n == want:
                x = self.sub(m, n)
                e.event(s, "sub", x[2])
                out.append((s, some(newref(e, s, x), c.dty)))
            else:
                out.append((s, none(c.dty)))
        return out

    def arg(self, e, st, m, name):
        """the definition, None if undefined, or a free-form one for a command without a table"""
        if m[3] is None:
            a = Arg(("T", "arg", name, (("long", name),)))
            a.kind = None
            a.label = "--" + {"autogenerate": "auto"}.get(name, name) if name not in ("input", "output") else "#%d" % ("input", "output").index(name)
            if a.label[0] == "#":
                a.required = True
            return a
        return cmd(m[3]).args.get(name)

    def given(self, e, st, m, a):
        if a.required:
            return True
        s = flag_sym(m[2], a.label)
        g = e.decide(st, e.mkge(st, s, 1))
        if g:
            x = self.nat.GIVEN.get(a.label)
            for o in cmd(m[3]).order if m[3] is not None else ():
                if o is not a and (o.id in a.conflicts or a.id in o.conflicts):
                    e.assume(st, e.mkeq(st, flag_sym(m[2], o.label), 0))
        return g

    def bad(self, e, st, c, m, name, why, soft):
        e.event(st, "badoption", m[2], name, why, soft)
        if soft:
            return [(st, err(("T", "matcheserror", why), c.dty))]
        e.panic(st, ("call", "ArgMatches", why))
        return []

    def typed(self, e, c):
        a = c.inst.get("args") or []
        return tname(e, a[-1]) if a and isinstance(a[-1], int) else None

    def lookup_arg(self, e, st, c, soft=False, ty=None):
        m = self.recv(e, st, c.args[0])
        name = text(e, st, c.args[1])
        a = self.arg(e, st, m, name)
        if a is None:
            return m, None, self.bad(e, st, c, m, name, "option `%s` is not defined for `%s`" % (name, " ".join(m[2][1:])), soft)
        if ty is not None and a.kind is not None and a.kind != ty:
            if a.kind == "?":
                raise Limit("clap value parser")
            e.event(st, "readoption", m[2], a.label)
            return m, None, self.bad(e, st, c, m, name, "option `%s` of `%s` is read as another kind of value" % (name, " ".join(m[2][1:])), soft)
        e.event(st, "readoption", m[2], a.label)
        return m, a, None

    def value(self, e, st, m, a, ty):
        """bytes of the value, a bool, or None"""
        if ty == "bool":
            g = self.given(e, st, m, a)
            return (not g) if a.action == "SetFalse" else g
        if self.given(e, st, m, a):
            if a.min == 0:
                if not e.decide(st, e.mkge(st, flag_sym(m[2], a.label, "valued"), 1)):
                    return lit(a.missing.encode()) if a.missing is not None else None
            return val_bytes(self.nat, m[2], a.label)
        return lit(a.default.encode()) if a.default is not None else None

    def get_one(self, e, st, c, soft):
        ty = self.typed(e, c)
        m, a, r = self.lookup_arg(e, st, c, soft, ty)
        if a is None:
            return r
        if ty not in ("bool", STRING):
            raise Limit("clap type %s" % ty)
        v = self.value(e, st, m, a, ty)
        ity = e.p.ty(c.dty)
        inner = c.dty
        if soft:
            inner = rt(e, c)
        if v is None:
            o = none(inner)
        elif isinstance(v, bool):
            o = some(newref(e, st, 1 if v else 0), inner)
        else:
            o = some(("R", e.newcell(st, newvec(e, st, v)), (), None), inner)
        return ok(o, c.dty) if soft else o

    def m_get_one(self, e, st, c):
        return self.get_one(e, st, c, False)

    def m_try_get_one(self, e, st, c):
        return self.get_one(e, st, c, True)

    def m_get_flag(self, e, st, c):
        m, a, r = self.lookup_arg(e, st, c, False, "bool")
        if a is None:
            return r
        v = self.value(e, st, m, a, "bool")
        return 1 if v else 0

    def present(self, e, st, m, a):
        if a.kind == "bool" or a.default is not None:
            return True
        return self.given(e, st, m, a)

    def m_contains_id(self, e, st, c):
        m, a, r = self.lookup_arg(e, st, c)
        if a is None:
            return r
        return 1 if self.present(e, st, m, a) else 0

    def m_try_contains_id(self, e, st, c):
        m, a, r = self.lookup_arg(e, st, c, True)
        if a is None:
            return r
        return ok(1 if self.present(e, st, m, a) else 0, c.dty)

    def m_value_source(self, e, st, c):
        m, a, r = self.lookup_arg(e, st, c)
        if a is None:
            return r
        t = rt(e, c) if rt(e, c) is not None else None
        if self.given(e, st, m, a):
            n = "CommandLine"
        elif a.kind == "bool" or a.default is not None:
            n = "DefaultValue"
        else:
            return none(c.dty)
        for i, ty in enumerate(e.p.types):
            if ty.get("k") == "adt" and ty.get("path", "").endswith("ValueSource"):
                vs = [v["name"] for v in ty["variants"]]
                return some(("A", i, vs.index(n), ()), c.dty)
        raise Limit("clap value_source")

    def m_get_many(self, e, st, c, soft=False):
        ty = self.typed(e, c)
        m, a, r = self.lookup_arg(e, st, c, soft, ty)
        if a is None:
            return r
        if ty != STRING:
            raise Limit("clap type %s" % ty)
        tid = self.string(e)
        if not a.multi:
            v = self.value(e, st, m, a, ty)
            if v is None:
                return none(c.dty)
            l = ("L", (("e", newvec(e, st, v)),))
        else:
            if not self.given(e, st, m, a):
                return none(c.dty)
            k = key(m[2], a.label, "vals")
            l = ("L", (("s", k, tid, 0, sym(("len", k), 1, 1 << 20)),))
        n = 1 if not a.multi else sym(("len", k), 1, 1 << 20)
        src = ("R", e.newcell(st, l), (), (0, n))
        return some(natives.it_new(e, st, l, src), c.dty)

    def string(self, e):
        for i, t in enumerate(e.p.types):
            if t.get("path") == STRING:
                return i
        raise Limit("String type")
