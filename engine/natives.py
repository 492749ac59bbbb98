"""Transfer functions of library functions that are not interpreted from their MIR:
collections, iterators, files, threads, random numbers, cryptographic primitives, archives, formatting."""
import hashlib
import re

from core import (NH, U, UNIT, Infeasible, Limit, Mismatch, NeedFork, blen, bmerge, lit, seg, zeros, deps_of_origin, has_mark, anyid)
from lin import TAB, Lin, add, fresh, is_num, mulc, sub, sym

SMART = ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::rcs::", "core::cell::RefCell", "core::cell::Cell", "core::cell::UnsafeCell",
         "std::sync::", "core::pin::Pin", "core::cell::once")
PURE_CRATES = None


def tname(e, t):
    return e.p.ty(t)["s"] if t is not None else ""


# ------------------------------------------------------------------ helpers
def opt(c, v):
    t = c.dty if c is not None else "option"
    return ("A", t, 1, (v,)) if v is not None else ("A", t, 0, ())


def some(v, t="option"):
    return ("A", t, 1, (v,))


def none(t="option"):
    return ("A", t, 0, ())


def ok(v, t="result"):
    return ("A", t, 0, (v,))


def err(v, t="result"):
    return ("A", t, 1, (v,))


def newvec(e, st, content):
    return ("V", e.newcell(st, content))


def newref(e, st, content):
    n = e.length(st, content)
    return ("R", e.newcell(st, content), (), (0, n))


def ref(e, st, v):
    return ("R", e.newcell(st, v), (), None)


def deref(e, st, v):
    """follow references and smart pointers to a plain value; returns (value, loc)"""
    loc = None
    while True:
        v = e.val(st, v)
        if is_num(v) or isinstance(v, bool):
            return v, loc
        if v[0] == "R":
            if v[3] is not None:
                return v, loc
            loc = (v[1], v[2], None)
            v = e.get(st, loc)
        elif v[0] == "X":
            loc = (v[1], (), None)
            v = e.cell(st, v[1])
        elif v[0] == "D":
            v = v[1]
        else:
            return v, loc


def term_bytes(t):
    return seg(("term", t), 0, sym(("len", ("term", t)), 0, 1 << 40))


def content(e, st, v):
    """byte string or list behind a string, slice, vector, array or path value"""
    v, _ = deref(e, st, v)
    if is_num(v):
        raise Limit("content of a number")
    if v[0] == "R":
        return e.get(st, (v[1], v[2], v[3]))
    if v[0] == "V":
        return e.cell(st, v[1])
    if v[0] in ("B", "L"):
        return v
    if v[0] == "A" and len(v[3]) == 1:
        return content(e, st, v[3][0])
    if v[0] == "T":
        return term_bytes(v)
    if v[0] == "A" and v[1] == "component":
        return v[3][1]
    raise Limit("content of %r" % (v[:3],))


def set_content(e, st, v, new):
    v, loc = deref(e, st, v)
    if v[0] == "R":
        e.set(st, (v[1], v[2], v[3]), new)
    elif v[0] == "V":
        st.heap[v[1]] = new
    elif v[0] in ("B", "L") and loc is not None:
        e.set(st, loc, new)
    else:
        raise Limit("set content of %r" % (v[:2],))


def slen(e, st, v):
    return e.length(st, content(e, st, v))


def snap(e, st, v, depth=0):
    """a closed (reference-free) copy of a value, for use inside terms"""
    if isinstance(v, bool) or is_num(v):
        return v
    if depth > 12:
        return ("T", "deep")
    v = e.val(st, v)
    if isinstance(v, bool) or is_num(v):
        return v
    k = v[0]
    if k == "R":
        x = e.get(st, (v[1], v[2], v[3]))
        return snap(e, st, x, depth + 1)
    if k == "X":
        return snap(e, st, e.cell(st, v[1]), depth + 1)
    if k == "V":
        return snap(e, st, e.cell(st, v[1]), depth + 1)
    if k == "O":
        x = e.cell(st, v[2])
        return ("T", "obj", v[1], x[3][0] if x[0] == "A" and x[3] and v[1] == "file" else None)
    if k == "A":
        return ("A", v[1], v[2], tuple(snap(e, st, x, depth + 1) for x in v[3]))
    if k == "L":
        out = []
        for it in v[1]:
            if it[0] == "e":
                out.append(("e", snap(e, st, it[1], depth + 1)))
            elif it[0] == "m":
                out.append(("m", it[1], ("T", "tpl")))
            else:
                out.append(it)
        return ("L", tuple(out))
    if k == "D":
        return snap(e, st, v[1], depth + 1)
    return v


def ioerr(e, st, what, kind=None, notkinds=()):
    e.ncell += 1
    return ("T", "ioerr", what, kind, tuple(notkinds))


def failed(e, st, op, errv, dty, detail=None):
    s = st.fork()
    s.nf += 1
    e.event(s, "fail", op, detail)
    return (s, err(errv, dty))


def fallible(e, st, c, op, okv, errv=None, detail=None):
    """both outcomes of a fallible operation; okv may be None if the caller mutates `st` itself"""
    f = failed(e, st, op, errv if errv is not None else ("T", "err", op), c.dty, detail)
    st.nf += 1
    return [(st, ok(okv, c.dty)), f]


def rt(e, c, i=0):
    """type argument i of the return type"""
    if c.dty is None:
        return None
    a = e.p.ty(c.dty).get("args") or []
    return a[i] if i < len(a) else None


def beq(e, st, a, b):
    """equality of two byte strings"""
    if a == b:
        return True
    la, lb = blen(a), blen(b)
    r = e.cond_status(st, e.mkeq(st, la, lb))
    if r is False:
        return False
    a, b = ("B", bmerge(a[1], st.cons)), ("B", bmerge(b[1], st.cons))
    if a == b:
        return True
    if r is None:
        if not e.decide(st, e.mkeq(st, la, lb)):
            return False
    n = st.cons.norm(la)
    if isinstance(n, int) and n <= 16:
        for i in range(n):
            x, y = e.index(st, a, i), e.index(st, b, i)
            x, y = e.as_int(st, x), e.as_int(st, y)
            if not e.decide(st, e.mkeq(st, x, y)):
                return False
        return True
    litp = lambda z: all(o[0] in ("lit", "zero") for o, _, _ in z[1])
    if litp(a) and litp(b) and isinstance(n, int):
        return flat(a) == flat(b)
    if litp(a) and not litp(b):
        a, b = b, a
    return e.termbool(st, ("beq", a, b), False)


def flat(b):
    out = b""
    for o, off, l in b[1]:
        out += bytes(l) if o[0] == "zero" else o[1][off : off + l]
    return out


def is_lit(b):
    return b[0] == "B" and all(o[0] in ("lit", "zero") and isinstance(l, int) and isinstance(off, int) for o, off, l in b[1])


def text(e, st, v):
    """python string of a literal string value, or None"""
    try:
        b = content(e, st, v)
    except Limit:
        return None
    if is_lit(b):
        return flat(b).decode("utf-8", "replace")
    return None


# ------------------------------------------------------------------ registry
EXACT = {}
RX = []


def path(*ps):
    def d(f):
        for p in ps:
            EXACT[p] = f
        return f

    return d


def rx(p):
    def d(f):
        RX.append((re.compile(p), f))
        return f

    return d


# ------------------------------------------------------------------ memory
@rx(r"core::mem::forget$|core::mem::drop$|core::intrinsics::cold_path|::precondition_check$|core::hint::(?!must_use|black_box)|core::intrinsics::assume$")
def n_unit(e, st, c):
    if c.inst["path"] == "core::mem::forget":
        e.event(st, "sink", c.args[0])
    if c.inst["path"] == "core::mem::drop":
        return NH
    return UNIT


@path("core::intrinsics::discriminant_value", "core::mem::discriminant")
def n_disc(e, st, c):
    v = c.args[0]
    loc = e.res(st, v)
    t = e.p.ty(c.argtys[0])["elem"] if c.argtys and c.argtys[0] is not None else None
    x, _ = deref(e, st, v)
    if t is None:
        raise Limit("discriminant type")
    while e.p.ty(t)["k"] in ("ref", "ptr"):
        t = e.p.ty(t)["elem"]
    return e.disc(st, x, t)


@rx(r"Allocator>::deallocate$|^alloc::alloc::dealloc$")
def n_dealloc(e, st, c):
    return UNIT


@rx(r"^core::intrinsics::(min_)?(size_of|align_of)|^core::mem::(size_of|align_of)(_val)?$")
def n_size(e, st, c):
    a = c.inst.get("args") or []
    if len(a) == 1 and isinstance(a[0], int):
        n = e.p.ty(a[0]).get("size" if "size_of" in c.inst["path"] else "align")
        if n is not None:
            return n
    return fresh("size_of", 1, 1 << 20)


@rx(r"^core::(mem|intrinsics)::needs_drop$")
def n_needsdrop(e, st, c):
    def nd(t):
        ty = e.p.ty(t)
        k = ty["k"]
        if k in ("int", "bool", "char", "float", "ref", "ptr", "rawptr", "fnptr", "fndef", "never"):
            return False
        if k == "array":
            return nd(ty["elem"])
        if k == "tuple":
            return any([nd(x) for x in ty["args"]])
        if k == "adt":
            if ty.get("has_drop") in (True, "true") or ty["path"] in ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "std::fs::File", "alloc::sync::Arc", "alloc::rc::Rc"):
                return True
            if ty["crate"].startswith("volaris"):
                fs = [ft for v in ty["variants"] for _, ft in v["fields"]]
                if all(ft is not None for ft in fs):
                    return any([nd(ft) for ft in fs])
        raise Limit("needs_drop")

    return nd(c.inst["args"][0])


@rx(r"core::intrinsics::integer_min$|core::cmp::(Ord::)?min$|core::cmp::Ord::min")
def n_min(e, st, c):
    a, b = e.val(st, c.args[0]), e.val(st, c.args[1])
    if not (is_num(a) and is_num(b)):
        return NH
    return a if e.decide(st, e.mkge(st, b, a)) else b


@rx(r"core::intrinsics::integer_max$|core::cmp::(Ord::)?max$|core::cmp::Ord::max")
def n_max(e, st, c):
    a, b = e.val(st, c.args[0]), e.val(st, c.args[1])
    if not (is_num(a) and is_num(b)):
        return NH
    return a if e.decide(st, e.mkge(st, a, b)) else b


@rx(r"core::num::<impl (u|i)(\w+)>::saturating_(add|sub|mul)$|^core::intrinsics::saturating_(add|sub)$")
def n_saturate(e, st, c):
    a, b = e.as_int(st, c.args[0]), e.as_int(st, c.args[1])
    ty = e.p.ty(c.dty)
    r = e.arith(st, c.inst["path"].split("_")[-1].capitalize(), a, b, ty)
    lo, hi = e.bounds(ty)
    if e.decide(st, e.mkge(st, sub(lo, 1), r)):
        return lo
    return hi if e.decide(st, e.mkge(st, r, add(hi, 1))) else r


@rx(r"core::num::<impl (u|i)(\w+)>::(wrapping_|checked_|overflowing_)(add|sub|mul)$")
def n_wrap(e, st, c):
    m = re.search(r"impl (u|i)(\w+)>::(wrapping_|checked_|overflowing_)(add|sub|mul)$", c.inst["path"])
    a, b = e.as_int(st, c.args[0]), e.as_int(st, c.args[1])
    bits = 64 if m.group(2) == "size" else int(m.group(2))
    ty = {"k": "int", "bits": bits, "signed": m.group(1) == "i"}
    r = e.arith(st, m.group(4).capitalize(), a, b, ty)
    lo, hi = e.bounds(ty)
    ov = e.overflow(st, r, lo, hi)
    if m.group(3) == "checked_":
        return none(c.dty) if e.decide(st, ov) else some(r, c.dty)
    if m.group(3) == "overflowing_":
        return ("A", "tuple", 0, (r, ov))
    if e.decide(st, ov):
        return fresh("wrapped", lo, min(hi, 1 << 62))
    return r


@rx(r"core::num::<impl (u|i)\w+>::(to_le_bytes|to_be_bytes|to_ne_bytes)$")
def n_tobytes(e, st, c):
    v = e.as_int(st, c.args[0])
    n = e.p.ty(c.dty)["len"]
    if isinstance(v, int):
        return lit((v & ((1 << (8 * n)) - 1)).to_bytes(n, "big" if "to_be" in c.inst["path"] else "little"))
    if n == 1:
        return ("B", ((("b1", v), 0, 1),))
    return seg(("intbytes", c.inst["path"][-11:-6], v), 0, n)


@rx(r"core::num::<impl (u|i)\w+>::(from_le_bytes|from_be_bytes)$")
def n_frombytes(e, st, c):
    b = content(e, st, c.args[0])
    if is_lit(b):
        return int.from_bytes(flat(b), "big" if "from_be" in c.inst["path"] else "little")
    t = e.p.ty(c.dty)
    if t["bits"] <= 32 and "impl u" in c.inst["path"]:
        # the sum of its bytes
        n = t["bits"] // 8
        r = 0
        for i in range(n):
            r = add(r, mulc(e.index(st, b, i), 256 ** (n - 1 - i if "from_be" in c.inst["path"] else i)))
        return r
    return sym(("int", b), 0, min((1 << t["bits"]) - 1, 1 << 62))


@rx(r"core::num::<impl u\w+>::(is_power_of_two|count_ones|leading_zeros|trailing_zeros|pow|isqrt)$")
def n_numpure(e, st, c):
    return NH


@path("core::convert::num::<impl core::convert::TryFrom<u64> for usize>::try_from")
def n_tryfrom(e, st, c):
    return ok(c.args[0], c.dty)


@rx(r"^core::convert::num::(ptr_try_from_impls::)?<impl core::convert::TryFrom<\w+> for \w+>::try_from$")
def n_tryfrom2(e, st, c):
    v = e.val(st, c.args[0])
    t = rt(e, c)
    lo, hi = e.bounds(e.p.ty(t))
    if e.decide(st, e.mkge(st, v, lo)) and (hi >= 1 << 62 or e.decide(st, e.mkge(st, hi, v))):
        return ok(v, c.dty)
    return err(("T", "tryfromint"), c.dty)


@rx(r"^core::convert::num::<impl core::convert::From<\w+> for \w+>::from$")
def n_fromnum(e, st, c):
    v = e.val(st, c.args[0])
    if isinstance(v, bool):
        return int(v)
    if not is_num(v) and v[0] == "C":
        return e.as_int(st, v)
    return v


# ------------------------------------------------------------------ panics
@rx(r"^core::panicking::|^std::panicking::|::(unwrap|expect|slice_index|slice_start_index_len|slice_end_index_len|slice_index_order|len_mismatch|copy_from_slice_len_mismatch)_fail(ed)?(::|$)|^core::slice::index::slice_|^std::rt::begin_panic|^core::intrinsics::abort|^core::option::(unwrap|expect)_failed|^core::result::unwrap_failed|^alloc::alloc::handle_alloc_error|^alloc::raw_vec::")
def n_panic(e, st, c):
    msg = None
    for a in c.args:
        try:
            msg = text(e, st, a)
        except (Limit, NeedFork):
            pass
        if msg:
            break
    e.panic(st, ("call", c.inst["path"].split("::")[-1], msg or ""))
    return []


# ------------------------------------------------------------------ boxes, cells, arcs
@rx(r"^(alloc::boxed::Box|alloc::rc::Rc|alloc::sync::Arc|alloc::rcs::\w+::\w+|core::cell::RefCell|core::cell::Cell|std::sync::.*Mutex|std::sync::.*RwLock|core::cell::UnsafeCell|core::pin::Pin)(::)?<T>::(new|pin)$")
def n_xnew(e, st, c):
    return ("X", e.newcell(st, c.args[0]))


@rx(r"^alloc::boxed::Box::<T>::new_uninit$")
def n_newuninit(e, st, c):
    return ("X", e.newcell(st, U))


@path("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec", "alloc::slice::hack::into_vec")
def n_boxvec(e, st, c):
    v = e.res(st, c.args[0])
    x = e.cell(st, v[1])
    while x[0] == "A" and len(x[3]) >= 1:
        x = [y for y in x[3] if y != U][0]
    return newvec(e, st, x)


@rx(r"^(core::cell::RefCell|core::cell::UnsafeCell)::<T>::(borrow|borrow_mut|get_mut|get)$")
def n_borrow(e, st, c):
    v, _ = deref1(e, st, c.args[0])
    return ("R", v[1], (), None)


@rx(r"^(core::cell::RefCell)::<T>::(try_borrow|try_borrow_mut)$|^std::sync::.*(Mutex|RwLock)::<T>::(lock|read|write|get_mut)$")
def n_tryborrow(e, st, c):
    v, _ = deref1(e, st, c.args[0])
    return ok(("R", v[1], (), None), c.dty)


@rx(r"^(core::cell::RefCell|core::cell::Cell|core::cell::UnsafeCell|alloc::boxed::Box)(::)?<T>::(into_inner)$")
def n_into_inner(e, st, c):
    v = e.res(st, c.args[0])
    return e.cell(st, v[1])


@rx(r"^(core::cell::RefCell|core::cell::Cell)::<T>::(replace|set|take|get)$")
def n_cellset(e, st, c):
    v, _ = deref1(e, st, c.args[0])
    old = e.cell(st, v[1])
    m = c.inst["path"].split("::")[-1]
    if m == "get":
        return old
    if m == "take":
        return NH
    st.heap[v[1]] = c.args[1]
    return old if m == "replace" else UNIT


def deref1(e, st, v):
    """strip references up to the first cell-like value"""
    loc = None
    while True:
        v = e.res(st, v)
        if v[0] == "R" and v[3] is None:
            loc = (v[1], v[2], None)
            v = e.get(st, loc)
            if is_num(v) or isinstance(v, bool):
                return v, loc
        else:
            return v, loc


@rx(r"^<(core::cell::(Ref|RefMut)<.*>|std::sync::.*Guard<.*>|alloc::boxed::Box<.*>|alloc::(rc|sync|rcs).*>) as core::(ops::deref::Deref(Mut)?|borrow::Borrow(Mut)?|convert::As(Ref|Mut))(<.*>)?>::\w+$")
def n_derefx(e, st, c):
    v, _ = deref1(e, st, c.args[0])
    v0 = e.res(st, c.args[0])
    # argument is a reference to the guard: read the guard itself
    g = e.get(st, (v0[1], v0[2], v0[3])) if v0[0] == "R" and v0[3] is None else v0
    g = e.res(st, g)
    if g[0] == "R":
        return g
    if g[0] == "X":
        return ("R", g[1], (), None)
    if g[0] == "V":
        return ("R", g[1], (), (0, e.length(st, e.cell(st, g[1]))))
    if g[0] == "D":
        return g[1]
    raise Limit("deref of %r" % (g[:2],))


@rx(r"^<(alloc::(rc|sync|rcs).*) as core::clone::Clone>::clone$")
def n_arcclone(e, st, c):
    v, _ = deref1(e, st, c.args[0])
    return v


@rx(r"^core::cell::(Ref|RefMut)::<.*>::(map|clone)$")
def n_refmap(e, st, c):
    if c.inst["path"].endswith("map"):
        return e.call_value(st, c.args[1], [c.args[0]], None)
    return NH


# ------------------------------------------------------------------ clone of collections
@rx(r"^<(alloc::vec::Vec<.*>|alloc::string::String|std::path::PathBuf|std::ffi::os_str::OsString|alloc::boxed::Box<\[.*\]>|alloc::boxed::Box<str>|std::ffi::.*OsString) as core::clone::Clone>::clone$|^<T as alloc::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec$|^alloc::slice::<impl \[T\]>::(to_vec|to_vec_in|into_vec)$|^alloc::(str|string|slice|path)::<impl alloc::borrow::ToOwned for .*>::to_owned$|^std::path::<impl .*ToOwned for .*>::to_owned$|^std::path::Path::to_path_buf$|^std::ffi::os_str::OsStr::to_(os_string|owned)$|^<(std::path::Path|str|\[T\]|std::ffi::os_str::OsStr) as alloc::borrow::ToOwned>::to_owned$|^<(str|alloc::string::String) as alloc::string::(ToString|SpecToString)>::(to_string|spec_to_string)$")
def n_tovec(e, st, c):
    b = content(e, st, c.args[0])
    if b[0] == "L":
        b = ("L", tuple(clone_item(e, st, it) for it in b[1]))
    return newvec(e, st, b)


def clone_item(e, st, it):
    if it[0] == "e":
        return ("e", clone_val(e, st, it[1]))
    return it


def clone_val(e, st, v):
    """deep copy of owned data (Vec cells are copied, Arc shared)"""
    if isinstance(v, bool) or is_num(v):
        return v
    if v[0] == "V":
        x = e.cell(st, v[1])
        if x[0] == "L":
            x = ("L", tuple(clone_item(e, st, i) for i in x[1]))
        return ("V", e.newcell(st, x))
    if v[0] == "A":
        return ("A", v[1], v[2], tuple(clone_val(e, st, x) for x in v[3]))
    if v[0] == "S":
        return v
    return v


# ------------------------------------------------------------------ Vec / String / slices
@rx(r"^alloc::vec::Vec::<T>::(new|with_capacity)$|^alloc::vec::Vec::<T, A>::(new_in|with_capacity_in)$|^<alloc::vec::Vec<T.*> as core::default::Default>::default$")
def n_vecnew(e, st, c):
    t = None
    if c.dty is not None:
        a = e.p.ty(c.dty).get("args")
        t = a[0] if a else None
    if t is not None and e.is_u8(t):
        return newvec(e, st, ("B", ()))
    return newvec(e, st, ("L", ()))


@rx(r"^alloc::string::String::(new|with_capacity)$|^std::path::PathBuf::(new|with_capacity)$|^std::ffi::os_str::OsString::new$|^<(alloc::string::String|std::path::PathBuf) as core::default::Default>::default$")
def n_strnew(e, st, c):
    return newvec(e, st, ("B", ()))


@path("alloc::vec::from_elem")
def n_from_elem(e, st, c):
    n = e.as_int(st, c.args[1])
    t = e.p.ty(c.dty)["args"][0]
    if e.is_u8(t):
        return newvec(e, st, fill_bytes(e.val(st, c.args[0]), n))
    if isinstance(n, int) and n <= 64:
        return newvec(e, st, ("L", tuple(("e", clone_val(e, st, c.args[0])) for _ in range(n))))
    return newvec(e, st, ("L", (("m", n, c.args[0], ("fill",)),)))


@rx(r"^alloc::slice::<impl \[T\]>::repeat$|^alloc::str::<impl str>::repeat$")
def n_repeat(e, st, c):
    b = content(e, st, c.args[0])
    n = e.as_int(st, c.args[1])
    if isinstance(n, int) and n <= 64:
        return newvec(e, st, (b[0], bmerge(b[1] * n, st.cons) if b[0] == "B" else b[1] * n))
    if b[0] == "B" and is_lit(b) and set(flat(b)) == {0}:
        l = blen(b)
        return newvec(e, st, zeros(mulc(n, l)))
    if b[0] == "L" and len(b[1]) == 1 and b[1][0][0] == "e":
        return newvec(e, st, ("L", (("m", n, b[1][0][1], ("fill",)),)))
    raise Limit("repeat")


@rx(r"^alloc::vec::Vec::<T, A>::len$|^alloc::string::String::len$|^core::(slice|str)::<impl (\[T\]|str)>::len$")
def n_len(e, st, c):
    return slen(e, st, c.args[0])


@rx(r"^alloc::vec::Vec::<T, A>::is_empty$|^alloc::string::String::is_empty$|^core::(slice|str)::<impl (\[T\]|str)>::is_empty$|^std::ffi::os_str::OsStr::is_empty$")
def n_isempty(e, st, c):
    return e.mkeq(st, slen(e, st, c.args[0]), 0)


@rx(r"^alloc::vec::Vec::<T, A>::capacity$|^alloc::string::String::capacity$")
def n_cap(e, st, c):
    x = fresh("cap", 0, 1 << 40)
    e.assume(st, e.mkge(st, x, slen(e, st, c.args[0])))
    return x


@rx(r"^alloc::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$|^alloc::string::String::(reserve|shrink_to_fit)$")
def n_reserve(e, st, c):
    return UNIT


@rx(r"^alloc::vec::Vec::<T, A>::(as_slice|as_mut_slice|as_ptr|as_mut_ptr|leak)$|^alloc::string::String::(as_str|as_bytes|as_mut_str)$|^core::str::<impl str>::as_bytes$|^<alloc::vec::Vec<.*> as core::(ops::deref::Deref(Mut)?|convert::As(Ref|Mut)<.*>|borrow::Borrow(Mut)?<.*>)>::\w+$|^<alloc::string::String as core::(ops::deref::Deref(Mut)?|convert::As(Ref|Mut)<.*>|borrow::Borrow(Mut)?<.*>)>::\w+$|^<(std::path::PathBuf|std::ffi::os_str::OsString) as core::(ops::deref::Deref(Mut)?|convert::AsRef<.*>|borrow::Borrow<.*>)>::\w+$|^std::path::(PathBuf::as_path|PathBuf::as_os_str|Path::new|Path::as_os_str|PathBuf::as_mut_os_string)$|^<(str|std::path::Path|\[T\]|\[T; N\]|std::ffi::os_str::OsStr|alloc::string::String|std::path::Component<.*>) as core::convert::As(Ref|Mut)<.*>>::as_(ref|mut)$|^std::path::<impl core::convert::AsRef<.*> for .*>::as_ref$|^core::(array|slice|str)::.*(as_slice|as_ref|as_mut_slice|as_mut|borrow)$|^std::ffi::os_str::<impl core::convert::AsRef<.*>::as_ref$|^core::str::<impl core::convert::AsRef<.*>::as_ref$|^core::slice::<impl \[T\]>::(as_ref|as_slice)$|^core::array::<impl core::(borrow::Borrow|convert::As|ops::deref::Deref)\w*(<.*>)? for \[T; N\]>::\w+$")
def n_asslice(e, st, c):
    v, loc = deref(e, st, c.args[0])
    if "IntoIterator" in c.inst["path"]:
        return NH
    if v[0] == "R":
        return v
    if v[0] == "V":
        return ("R", v[1], (), (0, e.length(st, e.cell(st, v[1]))))
    if v[0] in ("B", "L") and loc is not None:
        return ("R", loc[0], loc[1], (0, e.length(st, v)))
    if v[0] == "A" and v[1] == "component":
        return newref(e, st, v[3][1])
    if v[0] in ("T", "S"):
        return newref(e, st, term_bytes(v))
    if v[0] == "A":
        return newref(e, st, content(e, st, v))
    raise Limit("as slice of %r" % (v[:2],))


@path("std::path::Component::<'a>::as_os_str")
def n_comp_os(e, st, c):
    v = e.res(st, c.args[0])
    if v[0] == "R":
        v = e.res(st, e.get(st, (v[1], v[2], v[3])))
    return comp_ref(e, st, v)


def comp_ref(e, st, v):
    if v[0] == "A" and v[1] == "component":
        return newref(e, st, v[3][1])
    if v[0] == "A":
        names = ["Prefix", "RootDir", "CurDir", "ParentDir", "Normal"]
        k = names[v[2]]
        if k == "Normal":
            return v[3][0]
        return newref(e, st, seg(("comp", k), 0, 1 if k != "ParentDir" else 2))
    raise Limit("component")


@rx(r"^alloc::vec::Vec::<T, A>::(into_boxed_slice)$|^alloc::string::String::(into_bytes|into_boxed_str|into_string)$|^alloc::boxed::.*into_(vec|string)$|^std::path::PathBuf::(into_os_string|into_boxed_path)$|^<(alloc::vec::Vec<.*>|alloc::string::String|std::path::PathBuf|std::ffi::os_str::OsString|alloc::boxed::Box<\[.*) as core::convert::From<(alloc::vec::Vec<.*>|alloc::string::String|alloc::boxed::Box<.*>|std::path::PathBuf|std::ffi::os_str::OsString)>>::from$")
def n_move(e, st, c):
    return c.args[0]


@rx(r"^<(alloc::vec::Vec<.*>|alloc::string::String|std::path::PathBuf|alloc::boxed::Box<\[.*\]>|alloc::boxed::Box<str>|std::ffi::os_str::OsString) as core::convert::From<.*>>::from$|^<alloc::string::String as core::str::traits::FromStr>::from_str$|^<str as alloc::string::.*>::\w+$|^alloc::str::<impl core::convert::From.*>::from$")
def n_vecfrom(e, st, c):
    a = e.res(st, c.args[0])
    if a[0] == "V":
        return a
    b = content(e, st, a)
    r = newvec(e, st, b)
    return ok(r, c.dty) if c.inst["path"].endswith("from_str") else r


@rx(r"^alloc::string::String::from_utf8$|^core::str::converts::from_utf8$|^core::str::from_utf8$")
def n_fromutf8(e, st, c):
    a = c.args[0]
    b = content(e, st, a)
    if is_lit(b):
        return ok(a, c.dty)
    s2 = st.fork()
    s2.nf += 1
    st.nf += 1
    e.event(s2, "fail", "utf8", None)
    return [(st, ok(a, c.dty)), (s2, err(("T", "utf8err"), c.dty))]


@rx(r"^alloc::string::String::from_utf8_lossy$|^std::path::Path::(to_string_lossy|display)$|^std::ffi::os_str::OsStr::(to_string_lossy|display)$")
def n_lossy(e, st, c):
    return newref(e, st, seg(("lossy", content(e, st, c.args[0])), 0, fresh("len", 0, 1 << 40)))


@rx(r"^std::path::Path::to_str$|^std::ffi::os_str::OsStr::to_str$")
def n_tostr(e, st, c):
    b = content(e, st, c.args[0])
    r = newref(e, st, b)
    if is_lit(b):
        return some(r, c.dty)
    k = e.termbool(st, ("utf8", b), False)
    if e.decide(st, k):
        return some(r, c.dty)
    e.event(st, "fail", "to_str", None)
    return none(c.dty)


@rx(r"^alloc::vec::Vec::<T, A>::push$")
def n_push(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    if x[0] == "B":
        y = e.as_int(st, c.args[1])
        o = ("lit", bytes([y])) if isinstance(y, int) else ("b1", y)
        st.heap[v[1]] = ("B", bmerge(x[1] + ((o, 0, 1),), st.cons))
    else:
        st.heap[v[1]] = ("L", x[1] + (("e", c.args[1]),))
    return UNIT


@rx(r"^alloc::string::String::push$")
def n_strpush(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    y = e.as_int(st, c.args[1])
    n = chr(y).encode("utf-8") if isinstance(y, int) else None
    new = lit(n) if n is not None else seg(("char", y), 0, 1)
    e.event(st, "append", v[1], new)
    st.heap[v[1]] = ("B", bmerge(x[1] + new[1], st.cons))
    return UNIT


@rx(r"^alloc::string::String::push_str$|^alloc::vec::Vec::<T, A>::extend_from_slice$|^<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign$|^<alloc::string::String as core::fmt::Write>::write_str$|^alloc::vec::Vec::<T, A>::append$|^std::ffi::os_str::OsString::push$")
def n_pushstr(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    y = content(e, st, c.args[1])
    if x[0] == "B" and y[0] == "B":
        e.event(st, "append", v[1], y)
        st.heap[v[1]] = ("B", bmerge(x[1] + y[1], st.cons))
    else:
        its = y[1] if c.inst["path"].endswith("append") else tuple(clone_item(e, st, i) for i in y[1])
        st.heap[v[1]] = ("L", (x[1] if x[0] == "L" else ()) + its)
    if c.inst["path"].endswith("append"):
        w, _ = deref(e, st, c.args[1])
        st.heap[w[1]] = (y[0], ())
    if c.inst["path"].endswith("write_str"):
        return ok(UNIT, c.dty)
    return UNIT


@rx(r"^<alloc::string::String as core::ops::arith::Add<&str>>::add$")
def n_stradd(e, st, c):
    v = e.res(st, c.args[0])
    x = e.cell(st, v[1])
    y = content(e, st, c.args[1])
    e.event(st, "append", v[1], y)
    st.heap[v[1]] = ("B", bmerge(x[1] + y[1], st.cons))
    return v


@rx(r"^<alloc::vec::Vec<.*> as core::iter::traits::collect::Extend<&.*>>::extend$")
def n_extref(e, st, c):
    v, _ = deref(e, st, c.args[0])
    a = e.res(st, c.args[1])
    x = e.cell(st, v[1])
    try:
        y = content(e, st, a)
    except Limit:
        return NH
    if x[0] == "B" and y[0] == "B":
        st.heap[v[1]] = ("B", bmerge(x[1] + y[1], st.cons))
        return UNIT
    return NH


@rx(r"^<alloc::vec::Vec<u8.*> as core::iter::traits::collect::Extend<.*>>::extend$")
def n_ext(e, st, c):
    v, _ = deref(e, st, c.args[0])
    a = e.res(st, c.args[1])
    x = e.cell(st, v[1])
    if a[0] in ("V", "B", "R") and x[0] == "B":
        y = content(e, st, a)
        if y[0] == "B":
            st.heap[v[1]] = ("B", bmerge(x[1] + y[1], st.cons))
            return UNIT
    return NH


@rx(r"^alloc::vec::Vec::<T, A>::(remove|swap_remove)$")
def n_remove(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    i = e.as_int(st, c.args[1])
    n = e.length(st, x)
    if not e.decide(st, e.mkge(st, sub(n, 1), i)):
        e.panic(st, ("call", "remove", "index out of bounds"))
        return []
    if x[0] != "L" or any(it[0] != "e" for it in x[1]):
        if x[0] == "L" and len(x[1]) == 1 and x[1][0][0] == "s":
            _, key, tid, off, ln = x[1][0]
            el = e.elem(st, key, tid, add(off, i))
            st.heap[v[1]] = ("L", (("s", key, tid, off, i), ("s", key, tid, add(add(off, i), 1), sub(sub(ln, i), 1))))
            return el
        raise Limit("remove from summarised list")
    its = x[1]
    for j in range(len(its)):
        if e.decide(st, e.mkeq(st, i, j)):
            if c.inst["path"].endswith("swap_remove") and j != len(its) - 1:
                st.heap[v[1]] = ("L", its[:j] + (its[-1],) + its[j + 1 : -1])
            else:
                st.heap[v[1]] = ("L", its[:j] + its[j + 1 :])
            return its[j][1]
    raise Infeasible()


@rx(r"^alloc::vec::Vec::<T, A>::insert$")
def n_insert(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    i = e.as_int(st, c.args[1])
    if x[0] != "L" or not isinstance(i, int) or any(it[0] != "e" for it in x[1]):
        raise Limit("insert")
    if i > len(x[1]):
        e.panic(st, ("call", "insert", ""))
        return []
    st.heap[v[1]] = ("L", x[1][:i] + (("e", c.args[2]),) + x[1][i:])
    return UNIT


@rx(r"^alloc::vec::Vec::<T, A>::(clear)$|^alloc::string::String::clear$")
def n_clear(e, st, c):
    v, _ = deref(e, st, c.args[0])
    st.heap[v[1]] = (e.cell(st, v[1])[0], ())
    return UNIT


@rx(r"^alloc::vec::Vec::<T, A>::truncate$|^alloc::string::String::truncate$")
def n_truncate(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    n = e.as_int(st, c.args[1])
    if e.decide(st, e.mkge(st, e.length(st, x), n)):
        st.heap[v[1]] = e.bslice(st, x, 0, n) if x[0] == "B" else e.lslice(st, x, 0, n)
    return UNIT


@rx(r"^alloc::vec::Vec::<T, A>::resize$")
def n_resize(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    n = e.as_int(st, c.args[1])
    l = e.length(st, x)
    if e.decide(st, e.mkge(st, l, n)):
        st.heap[v[1]] = e.bslice(st, x, 0, n) if x[0] == "B" else e.lslice(st, x, 0, n)
        return UNIT
    f = e.val(st, c.args[2])
    d = sub(n, l)
    if x[0] == "B":
        new = zeros(d) if f == 0 else (lit(bytes([f]) * d) if isinstance(f, int) and isinstance(d, int) and d < 65536 else seg(("fill", f), 0, d))
        st.heap[v[1]] = ("B", bmerge(x[1] + new[1], st.cons))
        return UNIT
    if isinstance(d, int) and d <= 64:
        st.heap[v[1]] = ("L", x[1] + tuple(("e", clone_val(e, st, f)) for _ in range(d)))
        return UNIT
    raise Limit("resize")


@rx(r"^alloc::vec::Vec::<T, A>::pop$")
def n_pop(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x = e.cell(st, v[1])
    if x[0] == "L" and all(i[0] == "e" for i in x[1]):
        if not x[1]:
            return none(c.dty)
        st.heap[v[1]] = ("L", x[1][:-1])
        return some(x[1][-1][1], c.dty)
    raise Limit("pop")


@rx(r"^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$")
def n_first(e, st, c):
    v, loc = deref(e, st, c.args[0])
    if v[0] != "R":
        v = n_asslice(e, st, c)
    n = st.cons.norm(v[3][1])
    if not e.decide(st, e.mkge(st, n, 1)):
        return none(c.dty)
    i = v[3][0] if "first" in c.inst["path"] else sub(add(v[3][0], n), 1)
    return some(("R", v[1], v[2] + (("i", st.cons.norm(i)),), None), c.dty)


@rx(r"^core::slice::<impl \[T\]>::(get|get_mut|get_unchecked|get_unchecked_mut)$|^core::str::<impl str>::get$")
def n_get(e, st, c):
    return slice_index(e, st, c, c.args[0], c.args[1], "opt" if "unchecked" not in c.inst["path"] else "raw")


@rx(r"^<(usize|core::ops::range::Range\w*(<usize>)?|core::range::.*) as core::slice::index::SliceIndex<.*>>::(index|index_mut)$|^<alloc::vec::Vec<.*> as core::ops::index::Index(Mut)?<.*>>::index(_mut)?$|^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$|^<alloc::string::String as core::ops::index::Index.*>::index(_mut)?$|^core::str::traits::<impl .*>::index(_mut)?$|^core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$")
def n_index(e, st, c):
    if "SliceIndex" in c.inst["path"]:
        return slice_index(e, st, c, c.args[1], c.args[0], "panic")
    return slice_index(e, st, c, c.args[0], c.args[1], "panic")


def range_of(e, st, v, n):
    """(start, end) of a range value or None if it is an index"""
    v = e.val(st, v)
    if is_num(v):
        return None
    name = e.p.ty(v[1])["s"] if v[0] == "A" and isinstance(v[1], int) else ""
    if "RangeFull" in name:
        return 0, n
    f = [e.as_int(st, x) for x in v[3] if not (type(x) is tuple and x[0] == "C") and not isinstance(x, bool)]
    if "RangeToInclusive" in name:
        return 0, add(f[0], 1)
    if "RangeInclusive" in name:
        return f[0], add(f[1], 1)
    if "RangeTo" in name:
        return 0, f[0]
    if "RangeFrom" in name:
        return f[0], n
    if "Range" in name:
        return f[0], f[1]
    raise Limit("range %s" % name)


def slice_index(e, st, c, base, idx, mode):
    v, loc = deref(e, st, base)
    if v[0] == "V":
        v = ("R", v[1], (), (0, e.length(st, e.cell(st, v[1]))))
    elif v[0] in ("B", "L"):
        v = ("R", loc[0], loc[1], (0, e.length(st, v)))
    elif v[0] != "R":
        raise Limit("index of %r" % (v[:2],))
    n = st.cons.norm(v[3][1])
    r = range_of(e, st, idx, n)
    if r is None:
        i = e.as_int(st, idx)
        good = e.mkge(st, sub(n, 1), i)
        if mode != "raw" and not e.decide_ok(st, good):
            if mode == "opt":
                return none(c.dty)
            e.panic(st, ("call", "index", "index out of bounds"), maybe=True)
            return []
        x = ("R", v[1], v[2] + (("i", st.cons.norm(add(v[3][0], i))),), None)
        return some(x, c.dty) if mode == "opt" else x
    s, t = r
    if mode != "raw" and not (e.decide_ok(st, e.mkge(st, t, s)) and e.decide_ok(st, e.mkge(st, n, t))):
        if mode == "opt":
            return none(c.dty)
        e.panic(st, ("call", "slice", "range out of bounds"), maybe=True)
        return []
    x = ("R", v[1], v[2], (st.cons.norm(add(v[3][0], s)), st.cons.norm(sub(t, s))))
    return some(x, c.dty) if mode == "opt" else x


@rx(r"^core::slice::<impl \[T\]>::(split_at|split_at_mut)$|^core::str::<impl str>::split_at$")
def n_split_at(e, st, c):
    v, loc = deref(e, st, c.args[0])
    i = e.as_int(st, c.args[1])
    if v[0] != "R":
        raise Limit("split_at")
    n = v[3][1]
    if not e.decide(st, e.mkge(st, n, i)):
        e.panic(st, ("call", "split_at", ""), maybe=True)
        return []
    return ("A", "tuple", 0, (("R", v[1], v[2], (v[3][0], i)), ("R", v[1], v[2], (add(v[3][0], i), sub(n, i)))))


@rx(r"^core::slice::<impl \[T\]>::chunks(_exact)?(_mut)?$")
def n_chunks(e, st, c):
    """the pieces of a slice of known length"""
    v, loc = deref(e, st, c.args[0])
    i = st.cons.norm(e.as_int(st, c.args[1]))
    n = st.cons.norm(v[3][1]) if v[0] == "R" and v[3] is not None else None
    if not isinstance(i, int) or not isinstance(n, int) or i == 0 or n // i > 64:
        raise Limit("pieces of a slice of unknown length")
    out = [("R", v[1], v[2], (st.cons.norm(add(v[3][0], k)), min(i, n - k))) for k in range(0, n, i)]
    if "exact" in c.inst["path"].split("::")[-1]:
        out = [x for x in out if x[3][1] == i]
    return it_new(e, st, ("L", tuple(("e", x) for x in out)))


@path("<aead::Payload<'msg, 'aad> as core::convert::From<&'msg [u8]>>::from")
def n_payload_from(e, st, c):
    t = rt(e, c)
    f = {"msg": c.args[0], "aad": newref(e, st, ("B", ()))}
    return ("A", t, 0, tuple(f[n] for n, _ in e.p.ty(t)["variants"][0]["fields"]))


@rx(r"^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def n_copyfrom(e, st, c):
    b = content(e, st, c.args[1])
    n = slen(e, st, c.args[0])
    if not e.decide(st, e.mkeq(st, n, e.length(st, b))):
        e.panic(st, ("call", "copy_from_slice", "length mismatch"), maybe=True)
        return []
    set_content(e, st, c.args[0], b)
    return UNIT


@rx(r"^core::slice::<impl \[T\]>::fill$")
def n_fill(e, st, c):
    x = e.val(st, c.args[1])
    n = slen(e, st, c.args[0])
    b = zeros(n) if x == 0 else seg(("fill", x), 0, n)
    if content(e, st, c.args[0])[0] != "B":
        raise Limit("fill")
    set_content(e, st, c.args[0], b)
    return UNIT


@rx(r"^alloc::slice::<impl \[T\]>::(concat|join)$|^<\[.*\] as alloc::slice::(Concat|Join)<.*>>::(concat|join)$|^alloc::str::.*(Concat|Join).*::(concat|join)$")
def n_concat(e, st, c):
    l = content(e, st, c.args[0])
    sep = content(e, st, c.args[1]) if len(c.args) > 1 else None
    if l[0] != "L":
        raise Limit("concat")
    out = ("B", ())
    if all(it[0] == "e" for it in l[1]):
        for i, it in enumerate(l[1]):
            b = content(e, st, it[1])
            if b[0] != "B":
                raise Limit("concat of lists")
            if i and sep:
                out = ("B", out[1] + sep[1])
            out = ("B", out[1] + b[1])
        return newvec(e, st, ("B", bmerge(out[1], st.cons)))
    if sep is not None and len(l[1]) == 1 and l[1][0][0] == "m":
        return newvec(e, st, seg(("joined", snap(e, st, l[1][0][2]), l[1][0][1], sep), 0, fresh("len", 0, 1 << 40)))
    raise Limit("concat")


@rx(r"^core::slice::<impl \[T\]>::contains$")
def n_contains(e, st, c):
    l = content(e, st, c.args[0])
    if l[0] == "B":
        raise Limit("contains")
    if all(i[0] == "e" for i in l[1]):
        x = e.val(st, deref(e, st, c.args[1])[0])
        for it in l[1]:
            if eq_values(e, st, it[1], x):
                return True
        return False
    raise Limit("contains")


def eq_values(e, st, a, b):
    a, b = e.val(st, a), e.val(st, b)
    if is_num(a) and is_num(b):
        return e.decide(st, e.mkeq(st, a, b))
    return e.decide(st, beq(e, st, content(e, st, a), content(e, st, b)))


@rx(r"^core::intrinsics::(raw_eq|compare_bytes)$|SlicePartialEq<.*>>::(equal|equal_same_length)$|^<\[.*\] as core::cmp::PartialEq.*>::(eq|ne)$|^core::(slice|array|str)::.*PartialEq.*>::(eq|ne)$|^<(str|alloc::string::String|std::path::Path(Buf)?|std::ffi::os_str::OsStr(ing)?|alloc::vec::Vec<.*>) as core::cmp::PartialEq(<.*>)?>::(eq|ne)$|^alloc::(string|vec|str).*PartialEq<.*>.*::(eq|ne)$|^std::(path|ffi).*PartialEq<.*>.*::(eq|ne)$|^core::array::equality::.*::(eq|ne)$")
def n_eq(e, st, c):
    a, b = content(e, st, c.args[0]), content(e, st, c.args[1])
    if a[0] == "L" or b[0] == "L":
        if a[0] != b[0]:
            raise Limit("list eq")
        if all(i[0] == "e" for i in a[1] + b[1]):
            r = len(a[1]) == len(b[1]) and all(eq_values(e, st, x[1], y[1]) for x, y in zip(a[1], b[1]))
        elif a == b:
            r = True
        else:
            raise Limit("list eq")
    else:
        r = beq(e, st, a, b)
    if c.inst["path"].endswith("::ne"):
        r = e.neg(r)
    if c.inst["path"].endswith("compare_bytes"):
        return 0 if e.decide(st, r) else fresh("cmp", 1, 1)
    return r


@rx(r"^core::str::<impl str>::(chars|bytes|char_indices|lines|split|split_whitespace|trim\w*|to_lowercase|to_uppercase|to_ascii_lowercase|eq_ignore_ascii_case|starts_with|ends_with|parse|contains|find|rfind|split_once|strip_prefix|strip_suffix|is_ascii|as_ptr|get|char_count|replace)$|^alloc::str::<impl str>::(to_lowercase|to_uppercase|replace|into_string|to_ascii_lowercase)$")
def n_str(e, st, c):
    return str_fn(e, st, c)


TEXTS = {}


def text_key(b):
    """a short name for a large literal text"""
    if is_lit(b) and len(flat(b)) > 200:
        k = ("text", hashlib.sha256(flat(b)).hexdigest()[:16])
        TEXTS[k] = b
        return k
    return b


def text_lit(b):
    return b[0] == "text" or is_lit(b)


def text_lines(b):
    b = TEXTS.get(b, b)
    ls = flat(b).split(b"\n")
    return ls[:-1] if not ls[-1] else ls


def line_len(b, i):
    lo, hi = 0, 1 << 20
    if b in TEXTS:
        ls = [len(x) for x in text_lines(b)]
        lo, hi = min(ls, default=0), max(ls, default=0)
        if isinstance(i, int) and 0 <= i < len(ls):
            return ls[i]
    return sym(("len", ("line", b, i)), lo, hi)


def line_of(e, st, b, i):
    return newref(e, st, seg(("line", b, i), 0, line_len(b, i)))


VM = {}


def vm(name):
    def f(g):
        VM[name] = g
        return g

    return f


def same_list(e, st, o, c):
    """collecting a symbolic list element by element, each copied unchanged, gives the same list"""
    fs = []
    while o[0] == "A" and isinstance(o[1], int) and e.p.ty(o[1]).get("path") in ("core::iter::adapters::map::Map", "core::iter::adapters::cloned::Cloned", "core::iter::adapters::copied::Copied"):
        ty = e.p.ty(o[1])
        d = dict(zip([n for n, _ in ty["variants"][0]["fields"]], o[3]))
        if ty["path"].endswith("Map"):
            fs.append(d["f"])
        inner = d.get("iter", d.get("it"))
        if inner is None:
            return None
        o = e.res(st, inner)
    if o[0] != "O" or o[1] != "iter":
        return None
    l, byref, _ = e.cell(st, o[2])[3]
    if l[0] != "L" or len(l[1]) != 1 or l[1][0][0] != "s":
        return None
    _, key, tid, off, n = l[1][0]
    if key[0] == "lines":
        return None
    t = e.p.ty(c.dty)
    if not t.get("args") or t["args"][0] != tid:
        return None
    if fs:
        s = st.fork()
        el = e.S(key + ("[]", fresh("eltest", 0, 1 << 40)), tid)
        x = ref(e, s, el) if byref else el
        ev, e.mon = e.mon, None
        try:
            for f in reversed(fs):
                r = e.call_value(s, e.res(s, f), [x], tid)
                if len(r) != 1:
                    return None
                s, x = r[0]
            if is_num(x):
                return None
            a, b = content(e, s, x), content(e, s, el)
        except Limit:
            return None
        finally:
            e.mon = ev
        if a[0] != "B" or a != b:
            return None
    return ("V", e.newcell(st, ("L", (("s", key, tid, off, n),))))


def fields_of(e, o):
    ty = e.p.ty(o[1])
    return dict(zip([n for n, _ in ty["variants"][o[2] if isinstance(o[2], int) else 0]["fields"]], o[3]))


def fill_bytes(x, n):
    if x == 0:
        return zeros(n)
    if isinstance(x, int) and isinstance(n, int) and n <= 1 << 16:
        return lit(bytes([x]) * n)
    return seg(("fill", x), 0, n)


def iter_bytes(e, st, o, depth=0):
    """the bytes an iterator is going to yield, when they are known as a whole"""
    if is_num(o) or depth > 8:
        return None
    o = e.res(st, o)
    if o[0] in ("V", "B", "R"):
        y = content(e, st, o)
        return y if y[0] == "B" else None
    if o[0] == "O":
        return e.cell(st, o[2])[3][0] if o[1] == "biter" else None
    if o[0] != "A" or not isinstance(o[1], int):
        return None
    k = e.p.ty(o[1]).get("path", "").split("::")[-1]
    d = fields_of(e, o) if o[3] else {}
    if k in ("Copied", "Cloned"):
        return iter_bytes(e, st, d.get("it"), depth + 1)
    if k in ("Take", "Skip"):
        n = e.as_int(st, d["n"])
        i = e.res(st, d["iter"])
        if i[0] == "A" and isinstance(i[1], int) and e.p.ty(i[1]).get("path", "").endswith("::Repeat"):
            x = fields_of(e, i)["element"]
            t = e.p.ty(i[1])["args"][0]
            if k == "Skip" or not e.is_u8(t) and not (e.p.ty(t)["k"] == "ref"):
                return None
            return fill_bytes(e.val(st, e.load(st, x) if not is_num(x) and x[0] == "R" else x), n)
        b = iter_bytes(e, st, i, depth + 1)
        if b is None:
            return None
        m = blen(b)
        if not e.decide(st, e.mkge(st, m, n)):
            return b if k == "Take" else ("B", ())
        return e.bslice(st, b, 0, n) if k == "Take" else e.bslice(st, b, n, sub(m, n))
    if k == "Chain":
        out = ()
        for h in ("a", "b"):
            x = e.res(st, d[h])
            if x[0] != "A":
                return None
            if x[3]:
                y = iter_bytes(e, st, x[3][0], depth + 1)
                if y is None:
                    return None
                out += y[1]
        return ("B", bmerge(out, st.cons))
    return None


@vm("v_extend")
def vm_extend(e, st, c):
    v, _ = deref(e, st, c.args[0])
    if v[0] != "V":
        return NH
    x = e.cell(st, v[1])
    if x[0] != "B":
        return NH
    y = iter_bytes(e, st, c.args[1])
    if y is None:
        return NH
    e.event(st, "append", v[1], y)
    st.heap[v[1]] = ("B", bmerge(x[1] + y[1], st.cons))
    return UNIT


@vm("v_from_iter")
def vm_from_iter(e, st, c):
    """collecting the lines of a text keeps the list symbolic: element i is line i"""
    o = e.res(st, c.args[0])
    t = e.p.ty(c.dty)
    if t.get("args") and e.is_u8(t["args"][0]):
        y = iter_bytes(e, st, o)
        if y is not None:
            return newvec(e, st, y)
    r = same_list(e, st, o, c)
    if r is not None:
        return r
    if o[0] != "O" or o[1] != "lines":
        return NH
    b, n, i = st.heap[o[2]][3]
    if not text_lit(b):
        return NH
    t = e.p.ty(c.dty)
    return ("V", e.newcell(st, ("L", (("s", ("lines", b), t["args"][0], i, sub(n, i)),))))


def str_fn(e, st, c):
    m = c.inst["path"].split("::")[-1]
    b = content(e, st, c.args[0])
    if m == "lines":
        n = len(text_lines(b)) if is_lit(b) else fresh("lines", 0, 1 << 30)
        return ("O", "lines", e.newcell(st, ("A", "lines", 0, (text_key(b), n, 0))))
    if m in ("chars", "bytes", "char_indices"):
        return ("O", m, e.newcell(st, ("A", m, 0, (b, 0))))
    t = flat(b).decode("utf-8", "replace") if is_lit(b) else None
    if m in ("trim", "trim_end", "trim_start", "to_lowercase", "to_uppercase", "to_ascii_lowercase"):
        if t is not None:
            r = {"trim": t.strip(), "trim_end": t.rstrip(), "trim_start": t.lstrip(), "to_lowercase": t.lower(), "to_ascii_lowercase": t.lower(), "to_uppercase": t.upper()}[m]
            nb = lit(r.encode())
        else:
            m2 = {"to_ascii_lowercase": "to_lowercase"}.get(m, m)
            key = ("strfn", m2, b)
            nb = seg(key, 0, sym(("len", key), 0, 1 << 40))
        return newvec(e, st, nb) if m.startswith("to_") else newref(e, st, nb)
    if m in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and len(c.args) > 1:
        p = e.val(st, c.args[1])
        if is_num(p):
            p = lit(chr(p).encode()) if isinstance(p, int) else None
        else:
            try:
                p = content(e, st, p)
            except Limit:
                p = None
        if p is None:
            raise Limit(m)
        if t is not None and is_lit(p):
            q = flat(p).decode()
            return {"starts_with": t.startswith(q), "ends_with": t.endswith(q), "contains": q in t, "eq_ignore_ascii_case": q.lower() == t.lower()}[m]
        return e.termbool(st, (m, b, p), False)
    if m == "parse":
        it = rt(e, c)
        if t is not None and e.p.ty(it)["k"] == "int":
            # the text is known: so is the result
            import re as _re

            ty = e.p.ty(it)
            lo, hi = e.bounds(ty)
            if _re.match(r"^[+-]?[0-9]+$" if lo < 0 else r"^\+?[0-9]+$", t) and lo <= int(t) <= hi:
                return ok(int(t), c.dty)
            e.event(st, "fail", "parse", b)
            return err(("T", "parseerr"), c.dty)
        key = ("parse", b, tname(e, it))
        if e.decide(st, e.termbool(st, ("parses",) + key, False)):
            if e.p.ty(it)["k"] == "int":
                lo, hi = e.bounds(e.p.ty(it))
                return ok(sym(key, max(lo, -(1 << 62)), min(hi, 1 << 62)), c.dty)
            return ok(e.S(key, it), c.dty)
        e.event(st, "fail", "parse", b)
        return err(("T", "parseerr"), c.dty)
    return NH


# ------------------------------------------------------------------ iterators
def it_new(e, st, l, refsrc=None):
    """iterator over a list value; refsrc: reference to the place for by-reference iteration"""
    if l[0] == "B":
        return ("O", "biter", e.newcell(st, ("A", "biter", 0, (l, refsrc is not None, refsrc))))
    return ("O", "iter", e.newcell(st, ("A", "iter", 0, (l, refsrc if refsrc is not None else False, 0))))


def inst_template(e, st, m):
    """a fresh instance of a summarised list element"""
    from lin import TAB

    sub_ = {}
    cells = {}

    def go(x):
        if isinstance(x, Lin):
            d = x.c
            for k, v in x.t:
                key = TAB.info[k][0]
                if isinstance(key, tuple) and key and key[0] == "tv":
                    if k not in sub_:
                        sub_[k] = fresh("ti", TAB.info[k][1], TAB.info[k][2])
                    d = add(d, mulc(sub_[k], v))
                else:
                    d = add(d, Lin(0, ((k, v),)))
            return d
        if isinstance(x, tuple):
            if x and x[0] == "any#":
                if x[1] == "bool":
                    return ("C", "eq", sub(fresh("anyb", 0, 1), 1))
                if x[1] == "enum" and isinstance(x[2], int):
                    e.ncell += 1
                    return ("S", ("any", e.ncell), x[2])
                return ("T", "any")
            if x and x[0] in ("R", "X", "V") and x[1] in st.heap:
                c = x[1]
                if c not in cells:
                    e.ncell += 1
                    cells[c] = e.ncell
                    st.heap[cells[c]] = go(st.heap[c])
                return (x[0], cells[c]) + tuple(go(y) for y in x[2:])
            if len(x) >= 3 and x[0] == "O" and x[2] in st.heap:
                c = x[2]
                if c not in cells:
                    e.ncell += 1
                    cells[c] = e.ncell
                    st.heap[cells[c]] = go(st.heap[c])
                return x[:2] + (cells[c],) + tuple(go(y) for y in x[3:])
            return tuple(go(y) for y in x)
        return x

    return go(m[2])


def list_pop(e, st, l, back=False):
    """(first value, rest, is_first_item_plain) or None"""
    its = list(l[1])
    while its:
        i = -1 if back else 0
        it = its[i]
        rest = its[:-1] if back else its[1:]
        if it[0] == "e":
            return it[1], ("L", tuple(rest))
        n = it[1] if it[0] == "m" else it[4]
        if e.decide(st, e.mkge(st, n, 1)):
            if it[0] == "s":
                _, key, tid, off, ln = it
                if back:
                    el = e.elem(st, key, tid, sub(add(off, ln), 1))
                    keep = ("s", key, tid, off, sub(ln, 1))
                else:
                    el = e.elem(st, key, tid, off)
                    keep = ("s", key, tid, add(off, 1), sub(ln, 1))
            else:
                el = inst_template(e, st, it)
                keep = ("m", sub(n, 1), it[2], it[3])
            return el, ("L", tuple((rest + [keep]) if back else ([keep] + rest)))
        # counts are never negative
        e.assume(st, e.mkeq(st, n, 0))
        its = rest
    return None


@rx(r"^core::slice::<impl \[T\]>::(iter|iter_mut)$|^core::slice::iter::<impl .*IntoIterator for .*>::into_iter$|^<&'a (mut )?alloc::vec::Vec<.*> as core::iter::traits::collect::IntoIterator>::into_iter$|^core::array::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def n_iter(e, st, c):
    v, loc = deref(e, st, c.args[0])
    if v[0] == "V":
        v = ("R", v[1], (), (0, e.length(st, e.cell(st, v[1]))))
    elif v[0] in ("B", "L"):
        v = ("R", loc[0], loc[1], (0, e.length(st, v)))
    l = e.get(st, (v[1], v[2], v[3]))
    return it_new(e, st, l, v)


@rx(r"^<alloc::vec::Vec<.*> as core::iter::traits::collect::IntoIterator>::into_iter$|^core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter$|^<\[T; N\] as core::iter::traits::collect::IntoIterator>::into_iter$|^<alloc::boxed::Box<\[.*\]> as core::iter::traits::collect::IntoIterator>::into_iter$|^alloc::vec::Vec::<T, A>::drain$|^core::array::iter::IntoIter::<T, N>::new$")
def n_intoiter(e, st, c):
    l = content(e, st, c.args[0])
    if c.inst["path"].endswith("drain"):
        v, _ = deref(e, st, c.args[0])
        r = range_of(e, st, c.args[1], e.length(st, l))
        if r[0] != 0 or not st.cons.same(r[1], e.length(st, l)):
            raise Limit("drain")
        st.heap[v[1]] = (l[0], ())
    return it_new(e, st, l)


ITERT = r"(core::slice::iter::(Iter|IterMut)<.*>|alloc::vec::into_iter::IntoIter<.*>|core::array::iter::IntoIter<.*>|alloc::vec::drain::Drain<.*>|core::str::.*|std::path::Components<.*>|walkdir::.*|clap_builder::.*|core::slice::iter::(Chunks|ChunksExact|ChunksMut|ChunksExactMut)<.*>)"


@rx(r"^<" + ITERT + r" as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)$")
def n_next(e, st, c):
    back = c.inst["path"].endswith("next_back")
    o, loc = deref(e, st, c.args[0])
    if o[0] != "O":
        raise Limit("next of %r" % (o[:2],))
    return iter_next(e, st, c, o, back)


def iter_next(e, st, c, o, back):
    x = e.cell(st, o[2])
    k = o[1]
    if k == "iter":
        l, byref, pos = x[3]
        r = list_pop(e, st, l, back)
        if r is None:
            st.heap[o[2]] = ("A", "iter", 0, (("L", ()), byref, pos))
            return none(c.dty)
        v, rest = r
        if byref:
            its = l[1]
            if back:
                idx = sub(add(byref[3][0], add(pos, e.length(st, l))), 1)
            else:
                idx = add(byref[3][0], pos)
            idx = st.cons.norm(idx)
            if isinstance(idx, int) and all(i[0] == "e" for i in its):
                v = ("R", byref[1], byref[2] + (("i", idx),), None)
            elif "IterMut" in c.inst["path"]:
                raise Limit("next of a list of unknown length to be changed")
            else:
                v = ref(e, st, v)
            npos = pos if back else add(pos, 1)
        else:
            npos = pos
        st.heap[o[2]] = ("A", "iter", 0, (rest, byref, npos))
        return some(v, c.dty)
    if k == "biter":
        b, byref, src = x[3]
        n = st.cons.norm(blen(b))
        if not e.decide(st, e.mkge(st, n, 1)):
            return none(c.dty)
        i = sub(n, 1) if back else 0
        v = e.index(st, b, i)
        nb = e.bslice(st, b, 0 if back else 1, sub(n, 1))
        if byref:
            if not back and isinstance(src[3][0], int):
                v = ("R", src[1], src[2] + (("i", src[3][0]),), None)
                src = ("R", src[1], src[2], (add(src[3][0], 1), sub(src[3][1], 1)))
            elif "IterMut" in c.inst["path"]:
                raise Limit("next of an array of unknown length to be changed")
            else:
                v = ref(e, st, v)
        st.heap[o[2]] = ("A", "biter", 0, (nb, byref, src))
        return some(v, c.dty)
    if k == "lines":
        b, n, i = x[3]
        if not e.decide(st, e.mkge(st, sub(n, 1), i)):
            return none(c.dty)
        st.heap[o[2]] = ("A", "lines", 0, (b, n, add(i, 1)))
        return some(line_of(e, st, b, i), c.dty)
    if k in ("chars", "bytes"):
        b, i = x[3]
        if i == 0 and is_lit(b):
            s = flat(b).decode("utf-8", "replace")
            if not s:
                return none(c.dty)
            st.heap[o[2]] = ("A", k, 0, (lit(s[1:].encode()), 0))
            return some(ord(s[0]), c.dty)
        n = e.length(st, b)
        if not e.decide(st, e.mkge(st, n, 1)) if i == 0 else False:
            return none(c.dty)
        if i == 0:
            st.heap[o[2]] = ("A", k, 0, (b, 1))
            return some(sym(("char0", b), 0, 0x10FFFF), c.dty)
        raise Limit("chars")
    if k == "comps":
        b, n, i = x[3]
        fixed = e.natives.COMPS.get(b)
        if not e.decide(st, e.mkge(st, sub(n, 1), i)):
            return none(c.dty)
        st.heap[o[2]] = ("A", "comps", 0, (b, n, add(i, 1)))
        st.nf += 1
        e.ncell += 1
        return comp_value(e, st, c, b, fixed and fixed[st.cons.norm(i)])
    if k == "walk":
        return walk_next(e, st, c, o, x)
    if k == "args":
        return args_next(e, st, c, o, x)
    raise Limit("next of object " + k)


def comp_value(e, st, c, b, kind=None):
    """one path component, of any kind unless given"""
    t = rt(e, c)
    vs = e.p.ty(t)["variants"]
    out = []
    for i, v in enumerate(vs):
        if kind is not None and v["name"] != kind:
            continue
        s = st.fork()
        s.nf += 1
        if v["name"] == "Normal":
            f = (newref(e, s, seg(("comp", "Normal", b), 0, fresh("len", 1, 255))),)
        elif v["name"] == "Prefix":
            f = (("T", "prefix"),)
        else:
            f = ()
        out.append((s, some(("A", t, i, f), c.dty)))
    return out


@rx(r"^<" + ITERT + r" as core::iter::traits::(iterator::Iterator::size_hint|exact_size::ExactSizeIterator)>::len$|^<.* as core::iter::traits::exact_size::ExactSizeIterator>::len$")
def n_iterlen(e, st, c):
    o, _ = deref(e, st, c.args[0])
    if o[0] != "O" or o[1] != "iter":
        return NH
    return e.length(st, e.cell(st, o[2])[3][0])


@rx(r"^<" + ITERT + r" as core::iter::traits::iterator::Iterator>::size_hint$")
def n_sizehint(e, st, c):
    o, _ = deref(e, st, c.args[0])
    if o[0] == "O" and o[1] in ("iter", "biter"):
        x = e.cell(st, o[2])[3][0]
        n = st.cons.norm(blen(x) if o[1] == "biter" else e.length(st, x))
        return ("A", "tuple", 0, (n, some(n)))
    if "core::slice::iter::" in c.inst["path"] or "core::array::" in c.inst["path"]:
        raise Limit("size_hint of " + str(o[1]))
    return ("A", "tuple", 0, (0, none()))


@rx(r"^<" + ITERT + r" as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked$")
def n_itgetun(e, st, c):
    """random access by the specialised Zip: element idx, counted from the
    iterator's present position"""
    o, _ = deref(e, st, c.args[0])
    if o[0] != "O" or o[1] not in ("iter", "biter"):
        raise Limit("random access into an iterator")
    x = e.cell(st, o[2])
    idx = st.cons.norm(c.args[1])
    if not isinstance(idx, int):
        raise Limit("random access at an unknown position")
    if o[1] == "biter":
        b, byref, src = x[3]
        if not byref:
            return e.index(st, b, idx)
        if isinstance(src[3][0], int):
            return ("R", src[1], src[2] + (("i", src[3][0] + idx),), None)
    else:
        l, byref, pos = x[3]
        base = st.cons.norm(add(byref[3][0], pos)) if byref else None
        if isinstance(base, int) and all(i[0] == "e" for i in l[1]):
            return ("R", byref[1], byref[2] + (("i", base + idx),), None)
    raise Limit("random access into an iterator of unknown length")


@rx(r"^<" + ITERT + r" as core::clone::Clone>::clone$")
def n_iterclone(e, st, c):
    o, _ = deref(e, st, c.args[0])
    if o[0] != "O":
        return NH
    return ("O", o[1], e.newcell(st, e.cell(st, o[2])))


# integer ranges
@rx(r"^core::iter::range::<impl core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator) for core::ops::range::Range(Inclusive)?<A>>::(next|next_back)$|^<core::ops::range::Range(Inclusive)?<A> as core::iter::traits::.*>::(next|next_back)$")
def n_rangenext(e, st, c):
    v, loc = deref(e, st, c.args[0])
    back = c.inst["path"].endswith("back")
    incl = "RangeInclusive" in c.inst["path"]
    a, b = e.as_int(st, v[3][0]), e.as_int(st, v[3][1])
    if incl:
        ex = v[3][2] if len(v[3]) > 2 else False
        ex = e.decide(st, e.val(st, ex)) if not isinstance(ex, bool) else ex
        if ex or not e.decide(st, e.mkge(st, b, a)):
            return none(c.dty)
        if e.decide(st, e.mkeq(st, a, b)):
            e.set(st, loc, ("A", v[1], v[2], (a, b, True)))
            return some(a, c.dty)
        if back:
            e.set(st, loc, ("A", v[1], v[2], (a, sub(b, 1), False)))
            return some(b, c.dty)
        e.set(st, loc, ("A", v[1], v[2], (add(a, 1), b, False)))
        return some(a, c.dty)
    if not e.decide(st, e.mkge(st, sub(b, 1), a)):
        return none(c.dty)
    if back:
        b = st.cons.norm(sub(b, 1))
        e.set(st, loc, ("A", v[1], v[2], (a, b)))
        return some(b, c.dty)
    e.set(st, loc, ("A", v[1], v[2], (st.cons.norm(add(a, 1)), b)))
    return some(a, c.dty)


@rx(r"^core::ops::range::RangeInclusive::<Idx>::new$")
def n_rangeincl(e, st, c):
    return ("A", c.dty, 0, (c.args[0], c.args[1], False))


@rx(r"^core::ops::range::Range(Inclusive)?::<Idx>::contains$")
def n_rangecontains(e, st, c):
    v, _ = deref(e, st, c.args[0])
    x, _ = deref(e, st, c.args[1])
    a, b = e.as_int(st, v[3][0]), e.as_int(st, v[3][1])
    if not is_num(x):
        raise Limit("contains")
    hi = b if "Inclusive" in c.inst["path"] else sub(b, 1)
    return e.decide(st, e.mkge(st, x, a)) and e.decide(st, e.mkge(st, hi, x))


# ------------------------------------------------------------------ paths
@rx(r"^std::path::PathBuf::(push|_push)$")
def n_pathpush(e, st, c):
    v, _ = deref(e, st, c.args[0])
    a = e.cell(st, v[1])
    b = content(e, st, path_arg(e, st, c.args[1]))
    st.heap[v[1]] = pjoin(e, st, a, b)
    return UNIT


def path_arg(e, st, v):
    x = e.res(st, v)
    y, _ = deref(e, st, x)
    if y[0] == "A" and isinstance(y[1], int) and "Component<" in e.p.ty(y[1])["s"]:
        return comp_ref(e, st, y)
    return v


def pjoin(e, st, a, b):
    if a[1] == ():
        if b[1] and b[1][0][0][0] == "comp" and len(b[1]) == 1:
            o = b[1][0][0]
            k = ("comppath", o[2] if len(o) > 2 else None, frozenset([o[1]]))
            return seg(k, 0, fresh("len", 1, 1 << 20))
        return b
    ao = a[1][0][0]
    if ao[0] == "comppath" and b[1] and b[1][0][0][0] == "comp":
        o = b[1][0][0]
        return seg(("comppath", ao[1], ao[2] | {o[1]}), 0, fresh("len", 1, 1 << 20))
    k = ("pjoin", a, b)
    return seg(k, 0, sym(("len", k), 0, 1 << 20))


@rx(r"^std::path::Path::(join|_join)$")
def n_pathjoin(e, st, c):
    return newvec(e, st, pjoin(e, st, content(e, st, c.args[0]), content(e, st, path_arg(e, st, c.args[1]))))


@rx(r"^<std::path::PathBuf as core::iter::traits::collect::FromIterator<.*>>::from_iter$|^<std::path::PathBuf as core::iter::traits::collect::Extend<.*>>::extend$")
def n_pathfromiter(e, st, c):
    return NH


@rx(r"^std::path::Path::(is_dir|is_file|exists|is_absolute|is_relative|has_root|is_symlink)$")
def n_isdir(e, st, c):
    m = c.inst["path"].split("::")[-1]
    b = content(e, st, c.args[0])
    e.event(st, "stat", m, b)
    return e.termbool(st, (m, b), False)


@rx(r"^std::path::Path::(components|iter)$")
def n_components(e, st, c):
    b = content(e, st, c.args[0])
    fixed = e.natives.COMPS.get(b)
    n = len(fixed) if fixed is not None else fresh("ncomp", 0, 1 << 12)
    return ("O", "comps", e.newcell(st, ("A", "comps", 0, (b, n, 0))))


@rx(r"^std::path::Path::(file_name|parent|extension|file_stem)$")
def n_filename(e, st, c):
    m = c.inst["path"].split("::")[-1]
    b = content(e, st, c.args[0])
    if e.decide(st, e.termbool(st, ("has", m, b), False)):
        k = ("pathfn", m, b)
        return some(newref(e, st, seg(k, 0, sym(("len", k), 0, 1 << 20))), c.dty)
    return none(c.dty)


@path("std::env::temp_dir")
def n_tempdir(e, st, c):
    return newvec(e, st, seg(("tempdir",), 0, sym(("len", "tempdir"), 1, 4096)))


# ------------------------------------------------------------------ files
def file_new(e, st, name, pos, size, flags=frozenset()):
    return ("O", "file", e.newcell(st, ("A", "file", 0, (name, pos, size, "0", flags))))


def fget(e, st, o):
    return e.cell(st, o[2])[3]


def fset(e, st, o, **kw):
    n, p, s, m, fl = fget(e, st, o)
    st.heap[o[2]] = ("A", "file", 0, (kw.get("name", n), st.cons.norm(kw.get("pos", p)), st.cons.norm(kw.get("size", s)), kw.get("mod", m), fl))


def obj_of(e, st, v):
    """the native object behind a (possibly wrapped) reader/writer value"""
    x, loc = deref(e, st, v)
    if not is_num(x) and x[0] == "V":
        return x, loc
    return x, loc


def extent(e, st, pos, n, size):
    """new size after writing n bytes at pos"""
    end = st.cons.norm(add(pos, n))
    if st.cons.ge0(sub(size, end)):
        return size
    if st.cons.ge0(sub(end, size)):
        return end
    s = fresh("size", 0, 1 << 61)
    st.nf += 1
    e.assume(st, e.mkge(st, s, size))
    e.assume(st, e.mkge(st, s, end))
    return s


def do_read(e, st, o, n):
    """outcomes of one read of at most n bytes: [(state, bytes or None)]"""
    name, pos, size, mod, fl = fget(e, st, o)
    out = []
    if e.cond_status(st, e.mkeq(st, n, 0)) is True:
        return [(st, ("B", ()))]
    s0 = st.fork()
    s0.nf += 1
    if e.assume(s0, e.mkge(s0, pos, size)):
        e.event(s0, "eof", o, name)
        out.append((s0, ("B", ())))
    s1 = st.fork()
    s1.nf += 1
    k = fresh("n", 1, 1 << 61)
    if e.assume(s1, e.mkge(s1, n, k)) and e.assume(s1, e.mkge(s1, sub(size, pos), k)):
        data = seg(("file", name, mod), pos, k)
        fset(e, s1, o, pos=add(pos, k))
        e.event(s1, "read", o, name, pos, k)
        out.append((s1, data))
    return out


@rx(r"::Read(>|)::read$|^std::io::Read::read$|io::read::Read::read$")
def n_read(e, st, c):
    o, _ = obj_of(e, st, c.args[0])
    if o[0] == "O" and o[1] == "file":
        n = slen(e, st, c.args[1])
        f = failed(e, st, "read", ioerr(e, st, "read"), c.dty, fget(e, st, o)[0])
        out = [f]
        for s, d in do_read(e, st, o, n):
            k = blen(d)
            buf = content(e, s, c.args[1])
            if k != 0:
                set_content(e, s, c.args[1], e.bsplice(s, buf, 0, k, d))
            out.append((s, ok(k, c.dty)))
        return out
    return obj_read(e, st, c, o, "read")


def obj_read(e, st, c, o, what):
    if o[0] == "O" and o[1] in ("zipfile", "stdin"):
        h = OBJREAD.get((o[1], what))
        if h:
            return h(e, st, c, o)
    return NH


OBJREAD = {}


@rx(r"io::read::Read(>|)::read_exact$|^alloc::io::cursor::<impl .*Read for .*>::read_exact$")
def n_read_exact(e, st, c):
    o, _ = obj_of(e, st, c.args[0])
    if o[0] == "O" and o[1] == "file":
        name, pos, size, mod, fl = fget(e, st, o)
        n = slen(e, st, c.args[1])
        out = []
        s1 = st.fork()
        s1.nf += 1
        if e.assume(s1, e.mkge(s1, sub(size, pos), n)):
            set_content(e, s1, c.args[1], seg(("file", name, mod), pos, n))
            fset(e, s1, o, pos=add(pos, n))
            e.event(s1, "read", o, name, pos, n)
            out.append((s1, ok(UNIT, c.dty)))
        s2 = st.fork()
        s2.nf += 1
        if e.assume(s2, e.mkge(s2, sub(n, 1), sub(size, pos))):
            # the stream ended first; what was read stays unspecified in the buffer
            k = fresh("part", 0, 1 << 40)
            e.assume(s2, e.mkge(s2, n, k))
            np = s2.cons.norm(size)
            if not s2.cons.ge0(sub(size, pos)):
                np = fresh("pos", 0, 1 << 61)
                e.assume(s2, e.mkge(s2, np, pos))
            fset(e, s2, o, pos=np)
            set_content(e, s2, c.args[1], seg(("mix", frozenset([("file", name, mod)])), 0, n))
            e.event(s2, "fail", "read_exact:eof", name)
            out.append((s2, err(ioerr(e, s2, "read_exact", "UnexpectedEof"), c.dty)))
        s3 = st.fork()
        s3.nf += 1
        set_content(e, s3, c.args[1], seg(("mix", frozenset([("file", name, mod)])), 0, n))
        np = fresh("pos", 0, 1 << 61)
        e.assume(s3, e.mkge(s3, np, pos))
        fset(e, s3, o, pos=np)
        e.event(s3, "fail", "read_exact", name)
        out.append((s3, err(ioerr(e, s3, "read_exact", None, ("UnexpectedEof",)), c.dty)))
        return out
    if o[0] == "O" and o[1] == "cursor":
        return cursor_read_exact(e, st, c, o)
    return obj_read(e, st, c, o, "read_exact")


def capped(e, st, src, n, limit):
    """the first `limit` of n bytes: [(state, bytes, count, all of them?)]"""
    if limit is None:
        return [(st, src, n, True)]
    out = []
    s1 = st.fork()
    s1.nf += 1
    if e.assume(s1, e.mkge(s1, limit, n)):
        out.append((s1, src, n, True))
    s2 = st.fork()
    s2.nf += 1
    if e.assume(s2, e.mkge(s2, sub(n, 1), limit)):
        out.append((s2, e.bslice(s2, src, 0, limit), limit, False))
    return out


def drain(e, st, v, op, limit=None):
    """reading until the end: None, or ([failed states], [(state, bytes, count)])"""
    x, loc = deref(e, st, v)
    if is_num(x) or isinstance(x, bool):
        return None
    if x[0] == "A" and isinstance(x[1], int) and e.p.ty(x[1]).get("path", "").endswith("::Take"):
        f = fields_of(e, x)
        own = e.as_int(st, f["limit"])
        if limit is not None:
            return None
        r = drain(e, st, f["inner"], op, own)
        if r is None or loc is None:
            return r
        for s, b, n in r[1]:
            names = [k for k, _ in e.p.ty(x[1])["variants"][0]["fields"]]
            e.set(s, (loc[0], loc[1] + (("f", names.index("limit")),), None), s.cons.norm(sub(own, n)))
        return r
    if x[0] != "O":
        return None
    if x[1] == "stdin":
        e.ncell += 1
        f = st.fork()
        f.nf += 1
        e.event(f, "fail", op, "stdin")
        n = sym(("len", "stdin"), 0, 1 << 40)
        st.nf += 1
        return [f], [r[:3] for r in capped(e, st, ("B", ((("stdin",), 0, n),)), n, limit)]
    if x[1] == "zipfile":
        key, pos = e.cell(st, x[2])[3]
        size = sym(("zipsize", "data", key), 0, 1 << 61)
        f = st.fork()
        f.nf += 1
        e.event(f, "fail", op, "copy" if op == "copy" else key)
        st.nf += 1
        n = st.cons.norm(sub(size, pos))
        out = []
        for s, b, k, whole in capped(e, st, seg(("zipdata", key), pos, n), n, limit):
            s.heap[x[2]] = ("A", "zipfile", 0, (key, s.cons.norm(add(pos, k))))
            if whole:
                e.event(s, "zip_eof", key)
            out.append((s, b, k))
        return [f], out
    if x[1] == "file":
        name, pos, size, mod, fl = fget(e, st, x)
        f = st.fork()
        f.nf += 1
        e.event(f, "fail", op, "copy" if op == "copy" else name)
        out = []
        s = st.fork()
        s.nf += 1
        if not st.cons.ge0(sub(size, pos)) and e.assume(s, e.mkge(s, sub(pos, 1), size)):
            e.event(s, "eof", x, name)
            out.append((s, ("B", ()), 0))
        s = st.fork()
        s.nf += 1
        if e.assume(s, e.mkge(s, size, pos)):
            n = s.cons.norm(sub(size, pos))
            for s, b, k, whole in capped(e, s, seg(("file", name, mod), pos, n), n, limit):
                fset(e, s, x, pos=s.cons.norm(add(pos, k)))
                e.event(s, "read", x, name, pos, k)
                if whole:
                    e.event(s, "eof", x, name)
                out.append((s, b, k))
        return [f], out
    return None


@rx(r"io::read::Read(>|)::read_to_end$|^alloc::io::cursor::<impl .*Read for .*>::read_to_end$|^alloc::io::read::default_read_to_end$")
def n_read_to_end(e, st, c):
    r = drain(e, st, c.args[0], "read")
    if r is None:
        o, _ = obj_of(e, st, c.args[0])
        return obj_read(e, st, c, o, "read_to_end")
    v, _ = deref(e, st, c.args[1])
    x = e.cell(st, v[1])
    out = [(f, err(ioerr(e, f, "read_to_end"), c.dty)) for f in r[0]]
    for s, b, n in r[1]:
        s.heap[v[1]] = ("B", bmerge(x[1] + b[1], s.cons))
        out.append((s, ok(n, c.dty)))
    return out


@rx(r"^std::fs::(read|read_to_string)$")
def n_fsread(e, st, c):
    p = content(e, st, c.args[0])
    k = ("fileat", p)
    f = failed(e, st, "read", ioerr(e, st, "fs::read"), c.dty, p)
    st.nf += 1
    e.event(st, "open", None, p, frozenset(["read"]))
    return [f, (st, ok(newvec(e, st, seg(k, 0, sym(("len", k), 0, 1 << 40))), c.dty))]


@rx(r"^std::fs::write$")
def n_fswrite(e, st, c):
    p = content(e, st, c.args[0])
    e.event(st, "open", None, p, frozenset(["write", "create", "truncate"]))
    d = content(e, st, c.args[1])
    f = failed(e, st, "write", ioerr(e, st, "fs::write"), c.dty, p)
    e.event(st, "fswrite", p, d)
    st.nf += 1
    return [f, (st, ok(UNIT, c.dty))]


@rx(r"io::seek::Seek(>|)::(seek|rewind|stream_position|seek_relative|stream_len)$|^core::io::impls::<impl core::io::seek::Seek for .*>::\w+$|^alloc::io::impls::<impl .*Seek for .*>::\w+$")
def n_seek(e, st, c):
    m = c.inst["path"].split("::")[-1]
    o, _ = obj_of(e, st, c.args[0])
    if o[0] == "O" and o[1] == "cursor":
        return cursor_seek(e, st, c, o, m)
    if o[0] != "O" or o[1] != "file":
        return NH
    name, pos, size, mod, fl = fget(e, st, o)
    f = failed(e, st, "seek", ioerr(e, st, "seek"), c.dty, name)
    if m == "stream_position":
        st.nf += 1
        return [f, (st, ok(pos, c.dty))]
    if m == "stream_len":
        st.nf += 1
        return [f, (st, ok(size, c.dty))]
    if m == "rewind":
        np = 0
    elif m == "seek_relative":
        np = add(pos, e.as_int(st, c.args[1]))
    else:
        w = e.res(st, c.args[1])
        t = e.p.ty(w[1])["variants"][w[2]]["name"] if w[0] == "A" and isinstance(w[1], int) else None
        if t is None:
            raise Limit("seek")
        d = e.as_int(st, w[3][0])
        np = d if t == "Start" else add(pos, d) if t == "Current" else add(size, d)
    out = [f]
    r = e.cond_status(st, e.mkge(st, np, 0))
    if r is not False:
        s = st.fork()
        s.nf += 1
        if e.assume(s, e.mkge(s, np, 0)):
            fset(e, s, o, pos=np)
            e.event(s, "seek", o, name, s.cons.norm(np))
            out.append((s, ok(UNIT if m in ("rewind", "seek_relative") else s.cons.norm(np), c.dty)))
    if r is not True:
        s = st.fork()
        s.nf += 1
        if e.assume(s, e.mkge(s, sub(0, np), 1)):
            e.event(s, "fail", "seek", name)
            out.append((s, err(ioerr(e, s, "seek"), c.dty)))
    return out


@rx(r"io::write::Write(>|)::(write_all|write|flush|write_fmt|write_all_vectored)$|^core::io::impls::<impl core::io::write::Write for .*>::\w+$|^alloc::io::(impls|cursor)::<impl .*Write for .*>::\w+$")
def n_write(e, st, c):
    m = c.inst["path"].split("::")[-1]
    o, loc = obj_of(e, st, c.args[0])
    if o[0] == "V":
        if m == "flush":
            return ok(UNIT, c.dty)
        x = e.cell(st, o[1])
        y = content(e, st, c.args[1])
        st.heap[o[1]] = ("B", bmerge(x[1] + y[1], st.cons))
        return ok(UNIT if m == "write_all" else e.length(st, y), c.dty)
    if o[0] != "O":
        return NH
    k = o[1]
    if k == "bufw":
        inner = e.cell(st, o[2])[3][0]
        if m == "flush":
            f = failed(e, st, "flush", ioerr(e, st, "bufflush"), c.dty, "bufw")
            st.nf += 1
            dirty(e, st, o, False)
            buf_flushed(e, st, inner)
            return [f, (st, ok(UNIT, c.dty))]
        t, _ = obj_of(e, st, inner)
        if m in ("write", "write_all") and t[0] == "O" and t[1] == "file":
            # (the position seen through the buffer; what is still buffered is owed until flushed)
            dirty(e, st, o, True)
            o, k = t, "file"
        else:
            y = content(e, st, c.args[1])
            f = failed(e, st, "write", ioerr(e, st, "bufwrite"), c.dty, "bufw")
            st.nf += 1
            dirty(e, st, o, True)
            return [f, (st, ok(UNIT if m == "write_all" else e.length(st, y), c.dty))]
    if k == "file":
        name, pos, size, mod, fl = fget(e, st, o)
        if m == "flush":
            f = failed(e, st, "flush", ioerr(e, st, "flush"), c.dty, name)
            st.nf += 1
            e.event(st, "flush", o, name)
            return [f, (st, ok(UNIT, c.dty))]
        if m not in ("write_all", "write"):
            raise Limit(m)
        y = content(e, st, c.args[1])
        n = e.length(st, y)
        # a failing write may have stored a part
        s0 = st.fork()
        s0.nf += 1
        if e.cond_status(st, e.mkeq(st, n, 0)) is not True:
            fset(e, s0, o, mod="1", pos=fresh("pos", 0, 1 << 61), size=fresh("size", 0, 1 << 61))
            e.event(s0, "wfail", o, name, pos, y)
        e.event(s0, "fail", m, name)
        out = [(s0, err(ioerr(e, st, m), c.dty))]
        if m == "write":
            k2 = fresh("w", 0, 1 << 61)
            if not e.assume(st, e.mkge(st, n, k2)):
                return out
            y = e.bslice(st, y, 0, k2)
            n = k2
        st.nf += 1
        ns = extent(e, st, pos, n, size)
        if n != 0:
            fset(e, st, o, pos=add(pos, n), size=ns, mod="1")
        e.event(st, "write", o, name, pos, y, size)
        out.append((st, ok(UNIT if m == "write_all" else n, c.dty)))
        return out
    if k == "zipw":
        return zip_write(e, st, c, o, m)
    if k in ("stdout", "stderr"):
        if m == "flush":
            f = failed(e, st, "flush", ioerr(e, st, "stdout"), c.dty, k)
            st.nf += 1
            return [f, (st, ok(UNIT, c.dty))]
        e.event(st, "print", snap(e, st, c.args[1]))
        return ok(UNIT if m != "write" else slen(e, st, c.args[1]), c.dty)
    if k == "cursor":
        return cursor_write(e, st, c, o, m)
    return NH


def dirty(e, st, o, b):
    st.heap[o[2]] = ("A", "bufw", 0, (e.cell(st, o[2])[3][0], b))


def buf_flushed(e, st, inner):
    o, _ = obj_of(e, st, inner)
    if o[0] == "O" and o[1] == "file":
        e.event(st, "flush", o, fget(e, st, o)[0])


@rx(r"^alloc::io::buffered::(bufwriter::BufWriter|linewriter::LineWriter)::<W>::(new|with_capacity)$")
def n_bufw(e, st, c):
    return ("O", "bufw", e.newcell(st, ("A", "bufw", 0, (c.args[-1], False))))


@rx(r"^alloc::io::buffered::bufwriter::BufWriter::<W>::(get_ref|get_mut)$")
def n_bufget(e, st, c):
    o, _ = deref(e, st, c.args[0])
    return ref(e, st, e.cell(st, o[2])[3][0])


@rx(r"^alloc::io::buffered::bufwriter::BufWriter::<W>::into_inner$")
def n_bufinto(e, st, c):
    o = e.res(st, c.args[0])
    inner = e.cell(st, o[2])[3][0]
    f = failed(e, st, "flush", ("T", "intoinnererr"), c.dty, "bufw")
    st.nf += 1
    dirty(e, st, o, False)
    buf_flushed(e, st, inner)
    return [f, (st, ok(inner, c.dty))]


@rx(r"^alloc::io::buffered::bufreader::BufReader::<R>::(new|with_capacity)$")
def n_bufr(e, st, c):
    # reads ahead; positions seen through the buffer are those of the consumer
    return c.args[-1]


@rx(r"^std::fs::File::(sync_all|sync_data)$")
def n_sync(e, st, c):
    o, _ = obj_of(e, st, c.args[0])
    f = failed(e, st, "flush", ioerr(e, st, "sync"), c.dty, fget(e, st, o)[0])
    st.nf += 1
    e.event(st, "flush", o, fget(e, st, o)[0])
    return [f, (st, ok(UNIT, c.dty))]


@rx(r"^std::fs::File::set_len$")
def n_setlen(e, st, c):
    o, _ = obj_of(e, st, c.args[0])
    name, pos, size, mod, fl = fget(e, st, o)
    n = e.as_int(st, c.args[1])
    f = failed(e, st, "set_len", ioerr(e, st, "set_len"), c.dty, name)
    st.nf += 1
    fset(e, st, o, size=n, mod="1")
    e.event(st, "setlen", o, name, n)
    return [f, (st, ok(UNIT, c.dty))]


@rx(r"^std::fs::File::metadata$")
def n_fmeta(e, st, c):
    o, _ = obj_of(e, st, c.args[0])
    name, pos, size, mod, fl = fget(e, st, o)
    f = failed(e, st, "metadata", ioerr(e, st, "metadata"), c.dty, name)
    st.nf += 1
    return [f, (st, ok(("A", "metadata", 0, (size, name)), c.dty))]


@rx(r"^std::fs::(metadata|symlink_metadata)$|^std::path::Path::metadata$")
def n_meta(e, st, c):
    b = content(e, st, c.args[0])
    k = e.termbool(st, ("exists", b), False)
    e.event(st, "stat", "metadata", b)
    if e.decide(st, k):
        return ok(("A", "metadata", 0, (sym(("sizeat", b), 0, 1 << 61), b)), c.dty)
    e.event(st, "fail", "stat", b)
    return err(ioerr(e, st, "metadata"), c.dty)


@rx(r"^std::fs::exists$|^std::path::Path::try_exists$")
def n_tryexists(e, st, c):
    b = content(e, st, c.args[0])
    f = failed(e, st, "stat", ioerr(e, st, "stat"), c.dty, b)
    st.nf += 1
    return [f, (st, ok(e.termbool(st, ("exists", b), False), c.dty))]


@rx(r"^std::fs::Metadata::(len|is_dir|is_file)$")
def n_mlen(e, st, c):
    v, _ = deref(e, st, c.args[0])
    m = c.inst["path"].split("::")[-1]
    if m == "len":
        return v[3][0]
    return e.termbool(st, (m, v[3][1]), False)


@rx(r"^std::fs::(File::options|OpenOptions::new)$")
def n_opts(e, st, c):
    return ("O", "openopts", e.newcell(st, ("A", "openopts", 0, (frozenset(),))))


@rx(r"^std::fs::OpenOptions::(read|write|create|create_new|truncate|append)$")
def n_optset(e, st, c):
    o, loc = deref(e, st, c.args[0])
    m = c.inst["path"].split("::")[-1]
    fl = e.cell(st, o[2])[3][0]
    b = e.val(st, c.args[1])
    b = e.decide(st, b) if not isinstance(b, bool) else b
    fl = fl | {m} if b else fl - {m}
    st.heap[o[2]] = ("A", "openopts", 0, (fl,))
    return c.args[0]


@rx(r"^std::fs::OpenOptions::open$|^std::fs::File::(open|create|create_new)$")
def n_open(e, st, c):
    m = c.inst["path"].split("::")[-1]
    if "OpenOptions" in c.inst["path"]:
        o, _ = deref(e, st, c.args[0])
        fl = e.cell(st, o[2])[3][0]
        p = content(e, st, c.args[1])
    else:
        fl = {"open": frozenset(["read"]), "create": frozenset(["write", "create", "truncate"]), "create_new": frozenset(["read", "write", "create_new"])}[m]
        p = content(e, st, c.args[0])
    return open_file(e, st, c, p, fl)


def open_file(e, st, c, p, fl):
    f = failed(e, st, "open", ioerr(e, st, "open"), c.dty, ("open", p, fl))
    st.nf += 1
    e.ncell += 1
    name = ("open", p, fl)
    if "create_new" in fl or "truncate" in fl:
        size = 0
    else:
        size = sym(("size", name), 0, 1 << 61)
    o = file_new(e, st, name, 0, size, fl)
    e.event(st, "open", o, p, fl)
    return [f, (st, ok(o, c.dty))]


@rx(r"^std::fs::(create_dir_all|create_dir|remove_file|remove_dir_all|remove_dir)$")
def n_fsop(e, st, c):
    m = c.inst["path"].split("::")[-1]
    p = content(e, st, c.args[0])
    f = failed(e, st, m, ioerr(e, st, m), c.dty, p)
    st.nf += 1
    e.event(st, m, p)
    return [f, (st, ok(UNIT, c.dty))]


@rx(r"^std::fs::(rename|copy|hard_link)$")
def n_fsop2(e, st, c):
    m = c.inst["path"].split("::")[-1]
    p, q = content(e, st, c.args[0]), content(e, st, c.args[1])
    f = failed(e, st, m, ioerr(e, st, m), c.dty, p)
    st.nf += 1
    e.event(st, m, p, q)
    return [f, (st, ok(UNIT if m != "copy" else fresh("n", 0, 1 << 61), c.dty))]


@rx(r"^(alloc|std|core)::io::(error::)?Error::kind$|^core::io::error::Error::kind$")
def n_kind(e, st, c):
    v, _ = deref(e, st, c.args[0])
    vs = e.p.ty(c.dty)["variants"]
    idx = {x["name"]: i for i, x in enumerate(vs)}
    if v[0] == "T" and v[1] == "ioerr":
        if v[3] is not None:
            return ("A", c.dty, idx[v[3]], ())
        d = fresh("errkind", 0, len(vs) - 1)
        for k in v[4]:
            e.assume(st, ("C", "ne", sub(d, idx[k])))
        st.nf += 1
        e.ncell += 1
        s = ("S", ("kind", e.ncell), c.dty)
        e.assume(st, e.mkeq(st, e.discsym(s), d))
        return s
    e.ncell += 1
    return ("S", ("kind", e.ncell), c.dty)


@rx(r"^(std|alloc|core)::io::(error::)?Error::(new|other)$|^core::io::error::.*Error.*::(new|other|from)$")
def n_ioerrnew(e, st, c):
    return ("T", "ioerr", "new", None, ())


@path("alloc::io::copy::copy", "std::io::copy")
def n_iocopy(e, st, c):
    r, _ = obj_of(e, st, c.args[0])
    w, _ = obj_of(e, st, c.args[1])
    while w[0] == "O" and w[1] == "bufw":
        dirty(e, st, w, True)
        w, _ = obj_of(e, st, e.cell(st, w[2])[3][0])
    if w[0] != "O" or w[1] not in ("file", "zipw", "hasher"):
        raise Limit("copy to %r" % (w[:2],))
    d = drain(e, st, c.args[0], "copy")
    if d is None:
        raise Limit("copy from %r" % (r[:2],))
    out = []
    for f in d[0]:
        if w[1] == "file":
            name, pos, size, mod, fl = fget(e, f, w)
            fset(e, f, w, mod="1", pos=fresh("pos", 0, 1 << 61), size=fresh("size", 0, 1 << 61))
            e.event(f, "wfail", w, name, pos, d[1][0][1] if d[1] else ("B", ()))
        out.append((f, err(ioerr(e, f, "copy"), c.dty)))
    for s, src, n in d[1]:
        if n == 0 and src == ("B", ()):
            pass
        elif w[1] == "file":
            name, pos, size, mod, fl = fget(e, s, w)
            ns = extent(e, s, pos, n, size)
            fset(e, s, w, pos=add(pos, n), size=ns, mod="1")
            e.event(s, "copyto", r, w, name)
            e.event(s, "write", w, name, pos, src, size)
        elif w[1] == "zipw":
            e.event(s, "zip_write", e.cell(s, w[2])[3][1], src)
        else:
            hasher_update(e, s, w, src)
        out.append((s, ok(n, c.dty)))
    return out


# ------------------------------------------------------------------ cursors
@rx(r"^core::io::cursor::Cursor::<T>::new$")
def n_cursor(e, st, c):
    return ("O", "cursor", e.newcell(st, ("A", "cursor", 0, (c.args[0], 0))))


@rx(r"^core::io::cursor::Cursor::<T>::(into_inner|get_ref|get_mut|position|set_position)$")
def n_cursorget(e, st, c):
    m = c.inst["path"].split("::")[-1]
    o, _ = deref(e, st, c.args[0])
    inner, pos = e.cell(st, o[2])[3]
    if m == "into_inner":
        return inner
    if m == "position":
        return pos
    if m == "set_position":
        st.heap[o[2]] = ("A", "cursor", 0, (inner, e.as_int(st, c.args[1])))
        return UNIT
    return ("R", o[2], (("f", 0),), None)


def cursor_read_exact(e, st, c, o):
    inner, pos = e.cell(st, o[2])[3]
    b = content(e, st, inner)
    n = slen(e, st, c.args[1])
    total = e.length(st, b)
    if e.decide(st, e.mkge(st, sub(total, pos), n)):
        set_content(e, st, c.args[1], e.bslice(st, b, pos, n))
        st.heap[o[2]] = ("A", "cursor", 0, (inner, st.cons.norm(add(pos, n))))
        return ok(UNIT, c.dty)
    e.event(st, "fail", "cursor:eof", None)
    return err(ioerr(e, st, "cursor", "UnexpectedEof"), c.dty)


def cursor_seek(e, st, c, o, m):
    inner, pos = e.cell(st, o[2])[3]
    b = content(e, st, inner)
    if m == "stream_position":
        return ok(pos, c.dty)
    if m == "rewind":
        np = 0
    elif m == "seek_relative":
        np = add(pos, e.as_int(st, c.args[1]))
    else:
        w = e.res(st, c.args[1])
        t = e.p.ty(w[1])["variants"][w[2]]["name"]
        d = e.as_int(st, w[3][0])
        np = d if t == "Start" else add(pos, d) if t == "Current" else add(e.length(st, b), d)
    np = st.cons.norm(np)
    if not e.decide(st, e.mkge(st, np, 0)):
        e.event(st, "fail", "seek", None)
        return err(ioerr(e, st, "seek"), c.dty)
    st.heap[o[2]] = ("A", "cursor", 0, (inner, np))
    return ok(UNIT if m in ("rewind", "seek_relative") else np, c.dty)


def cursor_write(e, st, c, o, m):
    inner, pos = e.cell(st, o[2])[3]
    if m == "flush":
        return ok(UNIT, c.dty)
    b = content(e, st, inner)
    y = content(e, st, c.args[1])
    n = e.length(st, y)
    v, _ = deref(e, st, inner)
    if v[0] != "V":
        raise Limit("cursor write")
    total = e.length(st, b)
    if not st.cons.same(pos, total):
        if not e.decide(st, e.mkge(st, total, add(pos, n))):
            raise Limit("cursor write across the end")
        st.heap[v[1]] = e.bsplice(st, b, pos, n, y)
    else:
        st.heap[v[1]] = ("B", bmerge(b[1] + y[1], st.cons))
    st.heap[o[2]] = ("A", "cursor", 0, (inner, st.cons.norm(add(pos, n))))
    return ok(UNIT if m == "write_all" else n, c.dty)


@rx(r"^core::io::cursor::Cursor<.*>.*read$|^alloc::io::cursor::.*::read$")
def n_cursor_read(e, st, c):
    o, _ = deref(e, st, c.args[0])
    inner, pos = e.cell(st, o[2])[3]
    b = content(e, st, inner)
    n = slen(e, st, c.args[1])
    total = e.length(st, b)
    av = sub(total, pos)
    k = n if e.decide(st, e.mkge(st, av, n)) else av
    d = e.bslice(st, b, pos, k)
    set_content(e, st, c.args[1], e.bsplice(st, content(e, st, c.args[1]), 0, k, d))
    st.heap[o[2]] = ("A", "cursor", 0, (inner, st.cons.norm(add(pos, k))))
    return ok(k, c.dty)


# ------------------------------------------------------------------ threads
def captures(e, st, v, b):
    """does a closure capture exactly these bytes?"""
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x and x[0] == "B":
            if x == b:
                return True
            continue
        if len(x) >= 2 and x[0] in ("R", "X", "V") and x[1] in st.heap and x[1] not in seen:
            seen.add(x[1])
            stack.append(st.heap[x[1]])
        stack.extend(x)
    return False


@rx(r"^std::thread::functions::spawn$|^std::thread::spawn$|^std::thread::Builder::spawn$")
def n_spawn(e, st, c):
    e.event(st, "spawn")
    mark = "K" if has_mark(c.args[0], st.heap) or e.natives.MARK is not None and captures(e, st, c.args[0], e.natives.MARK) else ""
    out = []
    for s, v in e.call_value(st, c.args[0], [], None):
        e.event(s, "spawned", v)
        o = ("O", "thread", e.newcell(s, ("A", "thread", 0, (v, mark))))
        out.append((s, ok(o, c.dty) if "Builder" in c.inst["path"] else o))
    return out


@rx(r"^std::thread::join_handle::JoinHandle::<T>::join$")
def n_join(e, st, c):
    o = e.res(st, c.args[0])
    if o[0] != "O":
        raise Limit("join")
    v = e.cell(st, o[2])[3][0]
    e.event(st, "join", v)
    return ok(v, c.dty)


# ------------------------------------------------------------------ random numbers
@rx(r"^rand::rngs::thread::thread_rng$|^<rand::rngs::thread::ThreadRng as core::default::Default>::default$|^rand_core::SeedableRng::from_entropy$|^<.* as rand_core::SeedableRng>::from_entropy$|^<rand_core::os::OsRng as core::default::Default>::default$|^rand::(rng|thread_rng)$")
def n_rng(e, st, c):
    return ("T", "rng", "os")


@rx(r"^std::process::id$")
def n_pid(e, st, c):
    return sym(("processid",), 1, (1 << 32) - 1)


@rx(r"rand_core::SeedableRng(>|)::(seed_from_u64|from_seed)$|^rand::rngs::mock::")
def n_rngweak(e, st, c):
    return ("T", "rng", "seeded", snap(e, st, c.args[0]))


@rx(r"rand_core::SeedableRng(>|)::from_rng$")
def n_rngfrom(e, st, c):
    q = rngq(e, st, c.args[0])
    return ok(("T", "rng", q), c.dty)


def rngq(e, st, v):
    try:
        x, _ = deref(e, st, v)
    except Limit:
        return "?"
    if not is_num(x) and x[0] == "T" and x[1] == "rng":
        return x[2]
    if not is_num(x) and x[0] == "A" and "OsRng" in (e.p.ty(x[1])["s"] if isinstance(x[1], int) else ""):
        return "os"
    return "weak"


def fresh_random(e, st, q, n):
    st.nf += 1
    x = fresh("rnd", 0, 1 << 62)
    e.event(st, "rand", q, n, x)
    return seg(("rand", q, x), 0, n)


@rx(r"rand_core::RngCore(>|)::(fill_bytes|try_fill_bytes)$|^rand::rng::Rng::(fill|try_fill)$|^getrandom::getrandom$")
def n_fillbytes(e, st, c):
    m = c.inst["path"].split("::")[-1]
    buf = c.args[-1]
    q = rngq(e, st, c.args[0]) if len(c.args) > 1 else "os"
    b = fresh_random(e, st, q, slen(e, st, buf))
    set_content(e, st, buf, b)
    if m in ("try_fill_bytes", "try_fill", "getrandom"):
        f = failed(e, st, "rng", ("T", "rngerr"), c.dty, None)
        return [f, (st, ok(UNIT, c.dty))]
    return UNIT


@rx(r"^rand::rng::Rng::gen$|^rand::random$|rand_core::RngCore(>|)::next_u(32|64)$|^rand::distributions::distribution::Distribution::sample$")
def n_gen(e, st, c):
    q = rngq(e, st, c.args[0]) if c.args else "os"
    t = e.p.ty(c.dty)
    if t["k"] == "array" and e.is_u8(t["elem"]):
        return fresh_random(e, st, q, t["len"])
    if t["k"] == "int":
        st.nf += 1
        lo, hi = e.bounds(t)
        x = fresh("rndint", max(lo, -(1 << 62)), min(hi, 1 << 62))
        e.event(st, "randint", q, None, None, x)
        return x
    raise Limit("gen")


@rx(r"^rand::rng::Rng::gen_range$")
def n_genrange(e, st, c):
    q = rngq(e, st, c.args[0])
    t = c.argtys[1]
    v = e.res(st, c.args[1])
    a, b = e.as_int(st, v[3][0]), e.as_int(st, v[3][1])
    if "RangeInclusive" in tname(e, t):
        b = add(b, 1)
    if not e.decide_ok(st, e.mkge(st, sub(b, 1), a)):
        e.panic(st, ("call", "gen_range", "empty range"), maybe=True)
        return []
    st.nf += 1
    x = fresh("pick", -(1 << 62), 1 << 62)
    e.assume(st, e.mkge(st, x, a))
    e.assume(st, e.mkge(st, sub(b, 1), x))
    e.event(st, "randint", q, a, b, x)
    return x


@rx(r"^rand::seq::SliceRandom::choose$|rand::seq::.*SliceRandom.*::choose$")
def n_choose(e, st, c):
    q = rngq(e, st, c.args[1])
    v, loc = deref(e, st, c.args[0])
    if v[0] != "R":
        raise Limit("choose")
    n = st.cons.norm(v[3][1])
    if not e.decide(st, e.mkge(st, n, 1)):
        return none(c.dty)
    st.nf += 1
    x = fresh("pick", 0, 1 << 62)
    e.assume(st, e.mkge(st, sub(n, 1), x))
    e.event(st, "randint", q, 0, n, x)
    return some(("R", v[1], v[2] + (("i", st.cons.norm(add(v[3][0], x))),), None), c.dty)


@rx(r"^rand::distributions::distribution::DistString::sample_string$|DistString>::sample_string$")
def n_samplestring(e, st, c):
    q = rngq(e, st, c.args[1])
    n = e.as_int(st, c.args[2])
    return newvec(e, st, fresh_random(e, st, q, n))


# ------------------------------------------------------------------ cryptographic primitives
def alg_of(s):
    if "aes_gcm::AesGcm" in s and "Aes256" in s:
        return "AES-256-GCM"
    if "aes_gcm" in s and "Aes128" in s:
        return "AES-128-GCM"
    if "XChaCha" in s:
        return "XChaCha20-Poly1305"
    if "chacha20poly1305::" in s:
        return "ChaCha20-Poly1305"
    if "deoxys::" in s and "DeoxysII" in s and "384" in s:
        return "Deoxys-II-256"
    if "deoxys::" in s:
        return "Deoxys-other"
    return "?" + s[:40]


def self_alg(e, c):
    t = c.inst.get("self")
    if t is None:
        t = c.inst["args"][0]
    return alg_of(tname(e, t))


KEYLEN = {"AES-128-GCM": 16}


@rx(r"crypto_common::KeyInit(>|)::(new_from_slice|new)$")
def n_keyinit(e, st, c):
    a = self_alg(e, c)
    k = content(e, st, c.args[0])
    n = KEYLEN.get(a, 32)
    if c.inst["path"].endswith("::new"):
        return ("T", "aead", a, k)
    if not e.decide(st, e.mkeq(st, e.length(st, k), n)):
        e.event(st, "fail", "keyinit", None)
        return err(("T", "invalidlength"), c.dty)
    return ok(("T", "aead", a, k), c.dty)


def typenum(s):
    """value of the last typenum UInt in a type string"""
    m = re.findall(r"typenum::uint::UInt<.*", s)
    if not m:
        return None
    x = m[-1]
    bits = re.findall(r"bit::B([01])", x[: matching(x)])
    if not bits:
        return None
    return int("".join(bits), 2)


def matching(x):
    d = 0
    for i, ch in enumerate(x):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d == 0:
                return i + 1
    return len(x)


@rx(r"generic_array::GenericArray<T, N> as core::convert::From<&'a (mut )?\[T\]>>::from$|^generic_array::GenericArray::<T, N>::(from_slice|from_mut_slice)$")
def n_garr(e, st, c):
    n = typenum(tname(e, c.dty))
    b = content(e, st, c.args[0])
    if n is None:
        raise Limit("generic array length")
    if not e.decide_ok(st, e.mkeq(st, e.length(st, b), n)):
        e.panic(st, ("call", "GenericArray::from_slice", "slice length != %d" % n), maybe=True)
        return []
    return newref(e, st, b)


@rx(r"^<generic_array::GenericArray<.*> as core::ops::deref::Deref(Mut)?>::\w+$|^<generic_array::GenericArray<.*> as core::convert::As(Ref|Mut).*>::\w+$|^generic_array::GenericArray::<T, N>::as_(mut_)?slice$|generic_array::.*AsRef.*as_ref$")
def n_garrd(e, st, c):
    return n_asslice(e, st, c)


def payload(e, st, v):
    """(msg, aad) of something convertible to an aead payload"""
    v = e.res(st, v)
    if v[0] == "A":
        # field order of aead::Payload: msg, aad
        names = [n for n, _ in e.p.ty(v[1])["variants"][0]["fields"]] if isinstance(v[1], int) else ["msg", "aad"]
        d = dict(zip(names, v[3]))
        return content(e, st, d["msg"]), content(e, st, d["aad"])
    return content(e, st, v), ("B", ())


@rx(r"aead::Aead(>|)::(encrypt|decrypt)$")
def n_aead(e, st, c):
    m = c.inst["path"].split("::")[-1]
    a, _ = deref(e, st, c.args[0])
    if a[0] != "T" or a[1] != "aead":
        raise Limit("aead value")
    nonce = content(e, st, c.args[1])
    msg, aad = payload(e, st, c.args[2])
    return aead_op(e, st, c, m, a[2], a[3], nonce, aad, msg, ("one",))


@rx(r"aead::AeadInPlace(>|)::(encrypt|decrypt)_in_place$")
def n_aeadip(e, st, c):
    m = c.inst["path"].split("::")[-1].split("_")[0]
    a, _ = deref(e, st, c.args[0])
    if a[0] != "T" or a[1] != "aead":
        raise Limit("aead value")
    nonce, aad = content(e, st, c.args[1]), content(e, st, c.args[2])
    b, _ = deref(e, st, c.args[3])
    if b[0] != "V":
        raise Limit("in-place buffer")
    out = []
    for s, v in aead_op(e, st, c, m, a[2], a[3], nonce, aad, e.cell(st, b[1]), ("one",)):
        if v[2] == 0:
            s.heap[b[1]] = e.cell(s, v[3][0][1])
            v = ok(UNIT, c.dty)
        out.append((s, v))
    return out


def aead_op(e, st, c, m, alg, key, nonce, aad, msg, pos):
    n = e.length(st, msg)
    enc = m == "encrypt"
    s0 = st.fork()
    s0.nf += 1
    e.event(s0, "fail", m, (alg,))
    e.event(s0, m[:3] + "fail", alg, key, nonce, aad, pos, msg)
    out = [(s0, err(("T", "aeaderr"), c.dty))]
    st.nf += 1
    if enc:
        r = seg(("ct", alg, key, nonce, aad, pos, msg), 0, add(n, 16))
    else:
        if not e.assume(st, e.mkge(st, n, 16)):
            return out
        r = seg(("pt", alg, key, nonce, aad, pos, msg), 0, st.cons.norm(sub(n, 16)))
    e.event(st, m, alg, key, nonce, aad, pos, msg, r)
    v = newvec(e, st, r)
    out.append((st, ok(v, c.dty)))
    return out


@rx(r"^aead::stream::(Encryptor|Decryptor)::<A, S>::(from_aead|new)$")
def n_streamnew(e, st, c):
    d = "enc" if "Encryptor" in c.inst["path"] else "dec"
    if c.inst["path"].endswith("::new"):
        a = e.res(st, e.val(st, content(e, st, c.args[0])))
    a, _ = deref(e, st, c.args[0])
    if a[0] != "T" or a[1] != "aead":
        raise Limit("aead value")
    s = tname(e, c.inst.get("self", c.inst["args"][0])) if c.inst.get("self") is not None else tname(e, c.dty)
    kind = "LE31" if "StreamLE31" in s else "BE32" if "StreamBE32" in s else "?"
    nonce = content(e, st, c.args[1])
    return ("O", "stream", e.newcell(st, ("A", "stream", 0, (d, kind, a[2], a[3], nonce, 0))))


@rx(r"^aead::stream::(Encryptor|Decryptor)::<A, S>::(encrypt|decrypt)_(next|last)$")
def n_streamop(e, st, c):
    m = c.inst["path"].split("::")[-1]
    op, which = m.split("_")
    o, _ = deref(e, st, c.args[0])
    d, kind, alg, key, nonce, ctr = e.cell(st, o[2])[3]
    msg, aad = payload(e, st, c.args[1])
    out = aead_op(e, st, c, op, alg, key, nonce, aad, msg, ("stream", kind, which, ctr))
    for s, v in out:
        if v[2] == 0:
            s.heap[o[2]] = ("A", "stream", 0, (d, kind, alg, key, nonce, s.cons.norm(add(ctr, 1))))
    return out


@rx(r"^argon2::params::Params::new$")
def n_argonparams(e, st, c):
    a = [snap(e, st, x) for x in c.args]
    f = failed(e, st, "kdfparams", ("T", "argonerr"), c.dty, None)
    st.nf += 1
    return [f, (st, ok(("T", "argonparams") + tuple(a), c.dty))]


@rx(r"^<argon2::params::Params as core::default::Default>::default$|^balloon_hash::params::.*default$")
def n_argondef(e, st, c):
    return ("T", "kdfparams-default")


@rx(r"^argon2::Argon2::<'key>::(new|new_with_secret)$")
def n_argon(e, st, c):
    return ("T", "argon2") + tuple(snap_enum(e, st, x) for x in c.args)


def snap_enum(e, st, v):
    v = snap(e, st, v)
    if not is_num(v) and v[0] == "A" and isinstance(v[1], int):
        t = e.p.ty(v[1])
        if t["k"] == "adt" and t["adt"] == "enum":
            return ("enum", t["variants"][v[2]]["name"]) + tuple(snap_enum(e, st, x) for x in v[3])
    return v


@rx(r"^argon2::Argon2::<'key>::hash_password_into$|^balloon_hash::Balloon::<'key, D>::hash_into$")
def n_kdf(e, st, c):
    h, _ = deref(e, st, c.args[0])
    pw, salt = content(e, st, c.args[1]), content(e, st, c.args[2])
    n = slen(e, st, c.args[3])
    f = failed(e, st, "kdf", ("T", "kdferr"), c.dty, None)
    s0 = f[0]
    k = ("kdf", h, pw, salt)
    st.nf += 1
    set_content(e, st, c.args[3], seg(k, 0, n))
    e.event(st, "kdf", h, pw, salt, n)
    return [f, (st, ok(UNIT, c.dty))]


@rx(r"^balloon_hash::params::Params::new$")
def n_balloonparams(e, st, c):
    a = [snap(e, st, x) for x in c.args]
    f = failed(e, st, "kdfparams", ("T", "balloonerr"), c.dty, None)
    st.nf += 1
    return [f, (st, ok(("T", "balloonparams") + tuple(a), c.dty))]


@rx(r"^balloon_hash::Balloon::<'key, D>::new$")
def n_balloon(e, st, c):
    t = c.inst.get("self")
    d = re.search(r"Balloon<.*, (.*)>$", tname(e, t)) if t is not None else None
    return ("T", "balloon", d.group(1) if d else "?") + tuple(snap_enum(e, st, x) for x in c.args)


@rx(r"^blake3::Hasher::(new|new_keyed|new_derive_key)$|^<blake3::Hasher as core::default::Default>::default$")
def n_b3new(e, st, c):
    m = c.inst["path"].split("::")[-1]
    k = "blake3" if m in ("new", "default") else m
    return ("A", "hasher", 0, (k, ("B", ())))


@rx(r"^blake3::Hasher::(update|update_rayon)$|^<blake3::Hasher as digest::.*Update>::update$")
def n_b3update(e, st, c):
    o, loc = deref(e, st, c.args[0])
    hasher_update_at(e, st, loc, o, content(e, st, c.args[1]))
    return c.args[0]


def hasher_update_at(e, st, loc, o, data):
    if o[0] == "S":
        raise Limit("hasher")
    k, b = o[3]
    e.event(st, "hash_update", loc, b, data)
    e.set(st, loc, ("A", "hasher", 0, (k, ("B", bmerge(b[1] + data[1], st.cons)))))


def hasher_update(e, st, w, src):
    raise Limit("copy to hasher")


@rx(r"^blake3::Hasher::update_reader$")
def n_b3reader(e, st, c):
    o, loc = deref(e, st, c.args[0])
    r, _ = obj_of(e, st, c.args[1])
    name, pos, size, mod, fl = fget(e, st, r)
    f = failed(e, st, "read", ioerr(e, st, "update_reader"), c.dty, name)
    st.nf += 1
    if not e.decide(st, e.mkge(st, size, pos)):
        return [f, (st, ok(c.args[0], c.dty))]
    n = st.cons.norm(sub(size, pos))
    hasher_update_at(e, st, loc, o, seg(("file", name, mod), pos, n))
    fset(e, st, r, pos=size)
    e.event(st, "eof", r, name)
    return [f, (st, ok(c.args[0], c.dty))]


@rx(r"^blake3::Hasher::finalize$")
def n_b3fin(e, st, c):
    o, loc = deref(e, st, c.args[0])
    return ("T", "digest") + o[3]


@rx(r"^blake3::hash$")
def n_b3hash(e, st, c):
    return ("T", "digest", "blake3", content(e, st, c.args[0]))


@rx(r"^blake3::Hash::(to_hex|as_bytes)$|^<blake3::Hash as core::fmt::Display>::fmt$")
def n_b3hex(e, st, c):
    m = c.inst["path"].split("::")[-1]
    o, _ = deref(e, st, c.args[0])
    if m == "to_hex":
        return ("T", "hex", o)
    if m == "as_bytes":
        return ref(e, st, seg(("hashbytes", o), 0, 32))
    return NH


@rx(r"^<T as alloc::string::(ToString|SpecToString)>::(to_string|spec_to_string)$")
def n_tostring(e, st, c):
    v, _ = deref(e, st, c.args[0])
    if not is_num(v) and v[0] == "T" and v[1] in ("hex", "digest"):
        t = v if v[1] == "hex" else ("T", "hex", v)
        return newvec(e, st, seg(("term", t), 0, 64))
    if not is_num(v) and v[0] in ("R", "V", "B"):
        return newvec(e, st, content(e, st, v))
    if isinstance(v, int):
        return newvec(e, st, lit(str(v).encode()))
    return newvec(e, st, term_bytes(("fmt1", snap(e, st, v))))


@rx(r"zeroize::Zeroize>::zeroize$|^zeroize::Zeroize::zeroize$")
def n_zeroize(e, st, c):
    v, loc = deref(e, st, c.args[0])
    if v[0] == "R":
        loc, n = (v[1], v[2], v[3]), v[3][1]
        e.event(st, "zeroize", e.get(st, loc))
        e.set(st, loc, zeros(n))
        return UNIT
    if v[0] == "V":
        e.event(st, "zeroize", e.cell(st, v[1]))
        x = e.cell(st, v[1])
        t = tname(e, c.inst.get("self")) if c.inst.get("self") is not None else ""
        if t.startswith("alloc::boxed::Box<["):
            st.heap[v[1]] = zeros(blen(x)) if x[0] == "B" else x
        else:
            st.heap[v[1]] = (x[0], ())
        return UNIT
    if v[0] == "B":
        e.event(st, "zeroize", v)
        e.set(st, loc, zeros(blen(v)))
        return UNIT
    e.event(st, "zeroize", v)
    if is_num(v) and loc is not None:
        e.set(st, loc, 0)
    return UNIT


# ------------------------------------------------------------------ closures and dyn objects
@rx(r"^core::ops::function::(Fn|FnMut|FnOnce)::call(_mut|_once)?$|^alloc::boxed::.*core::ops::function::(Fn|FnMut|FnOnce)<.*>>::call(_mut|_once)?$|^core::ops::function::impls::.*::call(_mut|_once)?$|^<alloc::boxed::Box<F.*> as core::ops::function::.*>::call(_mut|_once)?$")
def n_fncall(e, st, c):
    f = e.res(st, c.args[0])
    tup = e.res(st, c.args[1]) if len(c.args) > 1 else UNIT
    args = list(tup[3]) if tup[0] == "A" and tup[1] == "tuple" else [tup]
    fref = None
    while True:
        f = e.res(st, f)
        if f[0] == "R":
            fref = f
            f = e.get(st, (f[1], f[2], f[3]))
        elif f[0] == "X":
            fref = ("R", f[1], (), None)
            f = e.cell(st, f[1])
        elif f[0] == "D":
            f = f[1]
        else:
            break
    if f[0] == "F":
        return e.call_value(st, f, args, c.dty)
    if f[0] == "P":
        return e.call_value(st, f, args, c.dty)
    if f[0] == "A" and isinstance(f[1], int) and e.p.ty(f[1])["k"] == "closure":
        return e.call_closure(st, f, fref, args, c.dty)
    # a caller-supplied callback
    e.ncell += 1
    e.event(st, "callback", f, tuple(snap(e, st, a) for a in args))
    if c.dty is not None and e.p.ty(c.dty)["k"] == "bool":
        st.nf += 1
        return e.termbool(st, ("callback", tuple(snap(e, st, a) for a in args)), False)
    if c.dty is not None and e.p.ty(c.dty)["s"] == "()":
        return UNIT
    return ("S", ("callback", e.ncell), c.dty)


# ------------------------------------------------------------------ formatting, errors
@rx(r"^core::fmt::Arguments::<'a>::(new|from_str|new_const|new_v1|from_str_nonconst)$")
def n_fmtargs(e, st, c):
    return ("T", "fmt", tuple(snap(e, st, a) for a in c.args))


@rx(r"^core::fmt::rt::Argument::<'_>::new_(\w+)$")
def n_fmtarg(e, st, c):
    m = c.inst["path"].split("::")[-1]
    t = c.argtys[0] if c.argtys else None
    return ("T", "fmtarg", m, snap(e, st, c.args[0]), tname(e, t) if t is not None else "")


def fmt_pieces(t):
    """decodes format_args!: a list of ('lit', bytes) and ('arg', fmtarg term, plain?) or None"""
    if t[0] != "T" or t[1] != "fmt":
        return None
    xs = t[2]
    if len(xs) == 1:
        return [("lit", flat(xs[0]))] if xs[0][0] == "B" and is_lit(xs[0]) else None
    if len(xs) != 2 or xs[0][0] != "B" or not is_lit(xs[0]) or xs[1][0] != "L":
        return None
    b = flat(xs[0])
    args = [i[1] for i in xs[1][1] if i[0] == "e"]
    if len(args) != len(xs[1][1]):
        return None
    out = []
    p = a = 0
    while p < len(b):
        n = b[p]
        p += 1
        if n == 0:
            return out
        if n <= 0x80:
            if n == 0x80:
                n = b[p] | b[p + 1] << 8
                p += 2
            out.append(("lit", b[p : p + n]))
            p += n
            continue
        plain = n & 0x37 == 0
        if n & 1:
            p += 4
        if n & 2:
            p += 2
        if n & 4:
            p += 2
        if n & 8:
            a = b[p] | b[p + 1] << 8
            p += 2
        if a >= len(args):
            return None
        out.append(("arg", args[a], plain))
        a += 1
    return None


def fmt_text(e, st, t):
    """the bytes a formatting produces; pieces that are not known exactly are terms"""
    ps = fmt_pieces(t)
    if ps is None:
        return term_bytes(t)
    out = ()
    for p in ps:
        if p[0] == "lit":
            out += lit(p[1])[1]
            continue
        g = p[1]
        if g[0] == "T" and g[1] == "fmtarg" and g[2] == "new_display" and p[2]:
            v = g[3]
            if isinstance(v, int) and not isinstance(v, bool):
                out += lit(str(v).encode())[1]
                continue
            if not is_num(v) and v[0] == "B":
                out += v[1]
                continue
            out += term_bytes(("fmt1", v))[1]
        else:
            out += term_bytes(("fmt1", g))[1]
    return ("B", bmerge(out, st.cons))


@rx(r"^alloc::fmt::format$")
def n_format(e, st, c):
    return newvec(e, st, fmt_text(e, st, e.res(st, c.args[0])))


@rx(r"^core::fmt::Formatter::<'a>::|^core::fmt::Write::write_fmt$|^core::fmt::builders::|^<core::fmt::Formatter<.*> as core::fmt::Write>::|^core::fmt::write$")
def n_fmtw(e, st, c):
    e.event(st, "fmtwrite", tuple(snap(e, st, a) for a in c.args[1:]))
    if c.dty is not None and "Result" in tname(e, c.dty):
        return ok(UNIT, c.dty)
    return ("T", "fmtbuilder")


@rx(r"^<(&.* |&|bool|str|u\w+|i\w+|alloc::string::String|alloc::vec::Vec<.*>|.*) as core::fmt::(Display|Debug|LowerHex|UpperHex)>::fmt$|^core::fmt::(num|float)::.*::fmt$")
def n_fmtimpl(e, st, c):
    if c.inst.get("crate") in ("volaris_crypto", "volaris_tools", "volaris_cli"):
        return NH
    e.event(st, "fmtwrite", (snap(e, st, c.args[0]),))
    return ok(UNIT, c.dty)


@rx(r"^std::io::stdio::_(print|eprint)$")
def n_print(e, st, c):
    e.event(st, "print", e.res(st, c.args[0]))
    return UNIT


@rx(r"^anyhow::(__private::(format_err|must_use)|error::<impl anyhow::Error>::(from_std|from_display|from_adhoc|msg|new|from_boxed|construct|context)|kind::\w+::new|kind::\w+Kind::anyhow_kind|Error::(msg|new|context))|anyhow::context::ext::StdError>::ext_context$|^anyhow::error::<impl .*>::(from|msg|new|context)$|^<anyhow::Error as core::convert::From<.*>>::from$|^anyhow::context::|^<.* as anyhow::kind::\w+>::anyhow_kind$|^anyhow::__private::kind::")
def n_anyhow(e, st, c):
    if "body" in c.inst and "Context" in c.inst["path"]:
        return NH
    if c.inst["path"].endswith("must_use"):
        return c.args[0]
    return ("T", "anyhow", tuple(snap(e, st, a) for a in c.args))


@rx(r"^std::backtrace::|^core::error::request_ref$|^core::error::Error::|^core::any::")
def n_bt(e, st, c):
    return ("T", "bt")


@rx(r"^<zip::result::ZipError as core::convert::From<.*>>::from$")
def n_ziperr(e, st, c):
    return ("T", "ziperr")


# ------------------------------------------------------------------ zip archives, directory walks
@rx(r"^<zip::write::FileOptions<.*> as core::default::Default>::default$|^zip::write::FileOptions::<.*>::(compression_method|large_file|unix_permissions|compression_level|last_modified_time|with_alignment)$|^zip::write::.*SimpleFileOptions.*$")
def n_zipopts(e, st, c):
    m = c.inst["path"].split("::")[-1]
    if not c.args:
        return ("T", "zipopts", ())
    v = e.res(st, c.args[0])
    return ("T", "zipopts", v[2] + ((m, snap_enum(e, st, c.args[1])),))


@rx(r"^zip::write::<impl .*ZipWriter<W>>::(new|new_append)$|^zip::write::zip_writer::ZipWriter::<W>::new$")
def n_zipw(e, st, c):
    inner = c.args[0]
    o = ("O", "zipw", e.newcell(st, ("A", "zipw", 0, (inner, "none"))))
    e.event(st, "zip_new", zip_target(e, st, inner))
    return o


def zip_target(e, st, v):
    o, _ = obj_of(e, st, v)
    while o[0] == "O" and o[1] == "bufw":
        o, _ = obj_of(e, st, e.cell(st, o[2])[3][0])
    return o


@rx(r"^zip::write::<impl .*ZipWriter<W>>::(start_file|add_directory|start_file_from_path|add_directory_from_path|finish|add_symlink|raw_copy_file|flush_on_finish_file|set_comment|abort_file)$")
def n_zipop(e, st, c):
    m = c.inst["path"].split("::")[-1].replace("_from_path", "")
    o, _ = deref(e, st, c.args[0])
    inner, cur = e.cell(st, o[2])[3]
    if m in ("start_file", "add_directory"):
        name = content(e, st, c.args[1])
        opts = e.res(st, c.args[2])
        f = failed(e, st, "zip_" + m, ("T", "ziperr"), c.dty, None)
        st.nf += 1
        cur = "none"
        if m == "start_file":
            cur = ("entry", "other" if e.skolem and anyid(name) is not None else name)
        st.heap[o[2]] = ("A", "zipw", 0, (inner, cur))
        touch(e, st, inner)
        e.event(st, "zip_" + m, name, opts)
        return [f, (st, ok(UNIT, c.dty))]
    if m == "finish":
        f = failed(e, st, "zip_finish", ("T", "ziperr"), c.dty, None)
        st.nf += 1
        touch(e, st, inner)
        e.event(st, "zip_finish", zip_target(e, st, inner))
        return [f, (st, ok(inner, c.dty))]
    if m == "set_comment":
        return UNIT
    raise Limit(m)


def touch(e, st, inner):
    b, _ = obj_of(e, st, inner)
    if b[0] == "O" and b[1] == "bufw":
        dirty(e, st, b, True)
    o = zip_target(e, st, inner)
    if o[0] == "O" and o[1] == "file":
        fset(e, st, o, pos=fresh("pos", 0, 1 << 61), size=fresh("size", 0, 1 << 61), mod="1")


def zip_write(e, st, c, o, m):
    inner, cur = e.cell(st, o[2])[3]
    if m == "flush":
        f = failed(e, st, "flush", ioerr(e, st, "zipflush"), c.dty, "zip")
        st.nf += 1
        return [f, (st, ok(UNIT, c.dty))]
    y = content(e, st, c.args[1])
    n = e.length(st, y)
    f = failed(e, st, "zip_write", ioerr(e, st, "zipwrite"), c.dty, None)
    st.nf += 1
    if m == "write":
        k = fresh("w", 0, 1 << 61)
        e.assume(st, e.mkge(st, n, k))
        y = e.bslice(st, y, 0, k)
        n = k
    touch(e, st, inner)
    e.event(st, "zip_write", cur, y)
    return [f, (st, ok(UNIT if m == "write_all" else n, c.dty))]


@rx(r"^zip::read::<impl .*ZipArchive<R>>::(new|len|is_empty|by_index|by_index_raw|by_name|file_names|extract|name_for_index)$|^zip::read::zip_archive::ZipArchive::<R>::\w+$")
def n_zipa(e, st, c):
    m = c.inst["path"].split("::")[-1]
    if m == "new":
        o = zip_target(e, st, c.args[0])
        e.event(st, "zip_open", o)
        f = failed(e, st, "zip_open", ("T", "ziperr"), c.dty, None)
        st.nf += 1
        a = ("O", "zipa", e.newcell(st, ("A", "zipa", 0, (c.args[0],))))
        touch_pos(e, st, c.args[0])
        return [f, (st, ok(a, c.dty))]
    o, _ = deref(e, st, c.args[0])
    n = sym(("zip", "count"), 0, 1 << 32)
    if m == "len":
        return n
    if m == "is_empty":
        return e.mkeq(st, n, 0)
    if m in ("by_index", "by_index_raw"):
        i = st.cons.norm(e.as_int(st, c.args[1]))
        K = e.skolem.get("zip")
        # an index taken from a summarised list element is that of another entry than K
        other = isinstance(i, Lin) and i.c == 0 and len(i.t) == 1 and i.t[0][1] == 1 and TAB.info[i.t[0][0]][0][0] == "ti"
        if other:
            e.assume(st, e.mkge(st, sub(n, 1), i))
        elif not e.decide(st, e.mkge(st, sub(n, 1), i)):
            e.event(st, "fail", "by_index", i)
            return err(("T", "ziperr"), c.dty)
        if K is not None and not other and e.decide(st, e.mkeq(st, i, K)):
            key = "K"
        else:
            key = st.cons.norm(i)
        f = failed(e, st, "zip_entry", ("T", "ziperr"), c.dty, key)
        st.nf += 1
        z = ("O", "zipfile", e.newcell(st, ("A", "zipfile", 0, (key, 0))))
        e.event(st, "zip_get", key)
        return [f, (st, ok(z, c.dty))]
    raise Limit("zip " + m)


def touch_pos(e, st, inner):
    o = zip_target(e, st, inner)
    if o[0] == "O" and o[1] == "file":
        fset(e, st, o, pos=fresh("pos", 0, 1 << 61))


@rx(r"^zip::read::ZipFile::<'a>::(\w+)$")
def n_zipfile(e, st, c):
    m = c.inst["path"].split("::")[-1]
    o, _ = deref(e, st, c.args[0])
    key = e.cell(st, o[2])[3][0]
    if m in ("is_dir", "is_file"):
        r = e.termbool(st, ("zip_is_dir", key), False)
        return r if m == "is_dir" else e.neg(r)
    if m == "enclosed_name":
        ok_ = e.termbool(st, ("zip_enclosed", key), False)
        if e.decide(st, ok_):
            b = seg(("zipenclosed", key), 0, sym(("len", "zipname", key), 0, 65535))
            return some(newvec(e, st, b), c.dty)
        e.event(st, "fail", "enclosed_name", key)
        return none(c.dty)
    if m in ("name", "mangled_name", "name_raw"):
        b = seg(("zip" + m, key), 0, sym(("len", "zip" + m, key), 0, 65535))
        return newref(e, st, b) if m != "mangled_name" else newvec(e, st, b)
    if m in ("size", "compressed_size"):
        return sym(("zipsize", m, key), 0, 1 << 61)
    return NH


def zip_read(e, st, c, o):
    key, pos = e.cell(st, o[2])[3]
    n = slen(e, st, c.args[1])
    size = sym(("zipsize", "data", key), 0, 1 << 61)
    out = [failed(e, st, "zip_read", ioerr(e, st, "zipread"), c.dty, key)]
    s0 = st.fork()
    s0.nf += 1
    if e.assume(s0, e.mkge(s0, pos, size)):
        e.event(s0, "zip_eof", key)
        out.append((s0, ok(0, c.dty)))
    k = fresh("n", 1, 1 << 61)
    st.nf += 1
    if e.assume(st, e.mkge(st, n, k)) and e.assume(st, e.mkge(st, sub(size, pos), k)):
        d = seg(("zipdata", key), pos, k)
        set_content(e, st, c.args[1], e.bsplice(st, content(e, st, c.args[1]), 0, k, d))
        st.heap[o[2]] = ("A", "zipfile", 0, (key, st.cons.norm(add(pos, k))))
        out.append((st, ok(k, c.dty)))
    return out


OBJREAD[("zipfile", "read")] = zip_read


@rx(r"^walkdir::WalkDir::new$")
def n_walk(e, st, c):
    return ("O", "walk", e.newcell(st, ("A", "walk", 0, (content(e, st, c.args[0]), (), 0))))


@rx(r"^walkdir::WalkDir::(\w+)$")
def n_walkopt(e, st, c):
    o = e.res(st, c.args[0])
    root, opts, i = e.cell(st, o[2])[3]
    m = c.inst["path"].split("::")[-1]
    st.heap[o[2]] = ("A", "walk", 0, (root, opts + ((m, tuple(snap(e, st, a) for a in c.args[1:])),), i))
    return o


@rx(r"^<walkdir::WalkDir as core::iter::traits::collect::IntoIterator>::into_iter$")
def n_walkiter(e, st, c):
    o = e.res(st, c.args[0])
    root, opts, i = e.cell(st, o[2])[3]
    e.event(st, "walk", root, opts)
    return o


def walk_next(e, st, c, o, x):
    root, opts, i = x[3]
    n = sym(("walk", "count", root), 1, 1 << 30)
    if not e.decide(st, e.mkge(st, sub(n, 1), i)):
        e.event(st, "walk_end", root)
        return none(c.dty)
    st.heap[o[2]] = ("A", "walk", 0, (root, opts, st.cons.norm(add(i, 1))))
    K = e.skolem.get("walk")
    if K is not None and e.decide(st, e.mkeq(st, i, K)):
        key = "K"
    else:
        key = st.cons.norm(i)
    f = failed(e, st, "walk", ("T", "walkerr"), None, key)
    f = (f[0], some(err(("T", "walkerr")), c.dty))
    st.nf += 1
    return [f, (st, some(ok(("T", "dirent", root, key)), c.dty))]


@rx(r"^walkdir::dent::DirEntry::(path|into_path|file_type|file_name|metadata|depth|path_is_symlink)$")
def n_dirent(e, st, c):
    m = c.inst["path"].split("::")[-1]
    v, _ = deref(e, st, c.args[0])
    if v[0] != "T" or v[1] != "dirent":
        raise Limit("dirent")
    if m in ("path", "into_path"):
        b = seg(("direntpath", v[2], v[3]), 0, sym(("len", "direntpath", v[2], v[3]), 1, 1 << 16))
        return newref(e, st, b) if m == "path" else newvec(e, st, b)
    if m == "file_type":
        return ("T", "filetype", seg(("direntpath", v[2], v[3]), 0, sym(("len", "direntpath", v[2], v[3]), 1, 1 << 16)))
    raise Limit("dirent " + m)


@rx(r"^std::fs::FileType::(is_dir|is_file|is_symlink)$")
def n_filetype(e, st, c):
    m = c.inst["path"].split("::")[-1]
    v, _ = deref(e, st, c.args[0])
    return e.termbool(st, (m, v[2]), False)


# ------------------------------------------------------------------ process, environment, terminal
@path("std::process::exit", "std::process::abort")
def n_exit(e, st, c):
    e.event(st, "exit", e.val(st, c.args[0]) if c.args else 134)
    return []


@path("std::env::var", "std::env::var_os")
def n_envvar(e, st, c):
    k = snap(e, st, c.args[0])
    key = ("env", k)
    if e.decide(st, e.termbool(st, ("envset", k), False)):
        v = newvec(e, st, seg(key, 0, sym(("len", key), 0, 1 << 30)))
        return ok(v, c.dty) if c.inst["path"].endswith("var") else some(v, c.dty)
    e.event(st, "fail", "env", k)
    return err(("T", "varerror"), c.dty) if c.inst["path"].endswith("var") else none(c.dty)


@rx(r"^rpassword::(prompt_password|read_password|prompt_password_stdout)$|^rpassword::.*::(prompt_password|read_password)$")
def n_password(e, st, c):
    f = failed(e, st, "prompt", ioerr(e, st, "prompt"), c.dty, None)
    st.nf += 1
    x = fresh("typed", 0, 1 << 62)
    k = ("typed", x)
    e.event(st, "prompt", snap(e, st, c.args[0]) if c.args else None, k)
    return [f, (st, ok(newvec(e, st, seg(k, 0, sym(("len", k), 0, 1 << 30))), c.dty))]


@rx(r"^std::io::stdio::(stdin|stdout|stderr)$")
def n_stdio(e, st, c):
    m = c.inst["path"].split("::")[-1]
    return ("O", m, e.newcell(st, ("A", m, 0, ())))


@rx(r"^std::io::stdio::(Stdin|Stdout|Stderr)::lock$")
def n_stdlock(e, st, c):
    o, _ = deref(e, st, c.args[0])
    return o


@rx(r"^std::io::stdio::Stdin::(read_line)$|^<std::io::stdio::StdinLock.* as .*BufRead>::read_line$|io::bufread::BufRead(>|)::read_line$")
def n_readline(e, st, c):
    f = failed(e, st, "read_line", ioerr(e, st, "read_line"), c.dty, "stdin")
    st.nf += 1
    x = fresh("answer", 0, 1 << 62)
    k = ("answer", x)
    n = sym(("len", k), 0, 1 << 30)
    v, _ = deref(e, st, c.args[1])
    old = e.cell(st, v[1])
    e.event(st, "read_line", k)
    st.heap[v[1]] = ("B", bmerge(old[1] + ((k, 0, n),), st.cons))
    return [f, (st, ok(n, c.dty))]


# ------------------------------------------------------------------ clap
def args_next(e, st, c, o, x):
    raise Limit("args")


class Natives:
    def __init__(self, extra=None):
        self.cache = {}
        self.extra = extra
        self.over = {}

    def lookup(self, e, ii, inst):
        k = ii
        if k in self.cache:
            return self.cache[k]
        f = None
        if inst.get("crate") in ("volaris_crypto", "volaris_tools", "volaris_cli", "vharness"):
            f = self.over.get(inst["path"])
            if f is None:
                for p in self.over:
                    if p.startswith("~") and re.search(p[1:], inst["path"]):
                        f = self.over[p]
        elif "model" in inst and e.p.insts[inst["model"]]["path"].split("::")[-1] in VM:
            f = VM[e.p.insts[inst["model"]]["path"].split("::")[-1]]
        elif inst.get("crate") != "vmodels":
            p = inst["path"]
            f = EXACT.get(p)
            if f is None and self.extra is not None:
                f = self.extra.lookup(e, inst)
            if f is None:
                for r, g in RX:
                    if r.search(p):
                        f = g
                        break
        self.cache[k] = f
        return f

    def line(self, e, st, b, i):
        return line_of(e, st, b, i)

    SUB = ()  # the subcommand a scenario is about
    FORCE = False  # analyse it even if the program does not define it
    SAME = {}  # options with the same value as another
    GIVEN = {}
    POS0 = {}
    MARK = None  # a thread whose closure captures these bytes is told apart
    COMPS = {}  # path -> kinds of its components, where a scenario fixes them

    def expand(self, e, st, key, ty, tid):
        p = ty["path"]
        c = ("c", key)
        if p == "std::fs::File":
            if c not in st.heap:
                st.heap[c] = e.inits[c] = self.initial_file(key)
            return ("O", "file", c)
        if p in ("alloc::vec::Vec", "alloc::string::String", "std::path::PathBuf", "std::ffi::os_str::OsString") or (
            p == "alloc::boxed::Box" and e.p.ty(ty["args"][0])["k"] in ("slice", "str")
        ):
            if c not in st.heap:
                st.heap[c] = e.inits[c] = self.initial_vec(e, key, ty, st)
            return ("V", c)
        if any(p.startswith(s) for s in SMART) and ty.get("args"):
            et = e.p.ty(ty["args"][0])
            if et["k"] == "dyn":
                return ("X", self._cell(e, st, c, ("T", "dyn", key)))
            return ("X", self._cell(e, st, c, ("S", key + ("*",), ty["args"][0])))
        if p in ("core::cell::Ref", "core::cell::RefMut"):
            return ("R", self._cell(e, st, c, ("S", key + ("*",), ty["args"][0])), (), None)
        if p.startswith("blake3::Hasher"):
            return ("A", "hasher", 0, ("blake3?", ("B", ())))
        if p.startswith("anyhow::") or p.startswith("core::fmt::") or p.startswith("std::sync::") or p.startswith("core::io::error::Error") and ty["adt"] == "struct":
            return ("T", "sym", key)
        root = p.split("::")[0]
        if root in ("std", "alloc", "zip", "clap_builder", "walkdir", "aead", "aes_gcm", "chacha20poly1305", "deoxys", "rand") and ty["adt"] == "struct":
            return ("T", "sym", key)
        if p.startswith("generic_array::"):
            n = typenum(ty["s"])
            if n:
                return seg(("sym", key), 0, n)
        return None

    def _cell(self, e, st, c, init):
        if c not in st.heap:
            st.heap[c] = e.inits[c] = init
        return c

    def initial_file(self, key):
        return ("A", "file", 0, (key, self.POS0.get(key, 0), sym(("size", key), 0, 1 << 61), "0", frozenset(["arg"])))

    def initial_vec(self, e, key, ty, st):
        n = e.len_sym(key)
        if ty["path"] in ("alloc::vec::Vec", "alloc::boxed::Box"):
            et = ty["args"][0]
            if e.p.ty(et)["k"] in ("slice", "str"):
                et = e.p.ty(et).get("elem")
            if et is not None and not e.is_u8(et):
                k = st.cons.norm(n)
                if isinstance(k, int) and k <= 8 and key not in e.skolem:
                    return ("L", tuple(("e", e.S(key + ("[]", i), et)) for i in range(k)))
                return ("L", (("s", key, et, 0, n),))
        return seg(("sym", key), 0, n)

    def initial_cell(self, e, st, c):
        if isinstance(c, tuple) and c[0] == "c":
            key = c[1]
            tmp = e.inits.get(c)
            if tmp is not None and tmp[0] == "L" and not any(x[0] == "s" for x in tmp[1]):
                if st.cons.norm(e.len_sym(key)) != len(tmp[1]):
                    # the initial content was written out for another, known length
                    raise Mismatch
            return tmp
        return None
