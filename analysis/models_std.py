"""Standard library, bytes, tempfile, olio models."""
from num import Lin, Id, ZERO, ONE
from values import *
from models import M, reg, ok, err, some, NONE, RES, OPT, POLL


def one(st, v):
    return [(st, v)]


def is_bytes_ref(ty):
    return ty is not None and ty.k == "ref" and ty.to is not None and (
        ty.to.k == "str" or (ty.to.k == "slice" and ty.to.to is not None and ty.to.to.s == "u8"))


def view_of(ip, cs, st, a):
    """&[u8] view of the value a refers to."""
    if isinstance(a, (S, C)):
        return a
    if isinstance(a, R):
        v = ip.read(st, a.root, a.path, None)
        if isinstance(v, (R, S, C)):
            return view_of(ip, cs, st, v)
        root, path = a.root, a.path
    else:
        root, path = M.place(ip, st, a)
    v = ip.read(st, root, path, None)
    if isinstance(v, (S, C)):
        return v
    return S(("P", root, path), ZERO, M.length(ip, st, v))


def inner_ref(ip, st, a, mut=False):
    if isinstance(a, R):
        v = ip.read(st, a.root, a.path, None)
        if isinstance(v, R):
            return inner_ref(ip, st, v, mut)
        if isinstance(v, A) and "box" in v.fields:
            b = v.fields["box"]
            return R(b.root, b.path, mut)
        return R(a.root, a.path + ((None, "inner"),), mut)
    root, path = M.place(ip, st, a)
    return R(root, path + ((None, "inner"),), mut)


@reg("core::ops::deref::Deref::deref", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
     "core::ops::deref::DerefMut::deref_mut", "core::convert::AsMut::as_mut",
     "alloc::string::String::as_bytes", "alloc::string::String::as_str", "str::as_bytes", "alloc::vec::Vec::as_slice",
     "http::header::value::HeaderValue::as_bytes", "http::header::name::HeaderName::as_str",
     "bytes::buf::buf_impl::Buf::chunk", "bytes::buf::buf_impl::Buf::bytes", "http::method::Method::as_str",
     "http::status::StatusCode::as_str", "<alloc::boxed::Box as core::convert::AsRef<T>>::as_ref",
     "<&T as core::convert::AsRef<U>>::as_ref")
def m_deref(ip, cs, st):
    a = cs.args[0]
    if is_bytes_ref(cs.dty):
        return one(st, view_of(ip, cs, st, a))
    mut = bool(cs.dty.mut)
    sty = cs.atys[0]
    t = sty.to if sty is not None and sty.k == "ref" else sty
    if t is not None and t.adt == "core::pin::Pin" and isinstance(a, R):
        v = ip.nv(st, ip.get_elem(st, ip.read(st, a.root, a.path, t), (None, 0), t.args[0] if t.args else None))
        if isinstance(v, R):
            return one(st, R(v.root, v.path, mut))
    if cs.name.endswith("as_ref") and t is not None and t.k not in ("param",):
        # AsRef<T> for T-like: keep the reference for plain structs
        if t.adt in ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc"):
            return one(st, inner_ref(ip, st, a, mut))
        if isinstance(a, R):
            return one(st, R(a.root, a.path, mut))
        return one(st, a)
    if cs.dty.k == "ref" and cs.dty.to is not None and cs.dty.to.k == "slice" and t is not None and t.adt == "alloc::vec::Vec":
        # Vec<T> -> [T]: same sequence object
        if isinstance(a, R):
            return one(st, R(a.root, a.path, mut))
        return one(st, a)
    if t is not None and t.k in ("ref",) and isinstance(a, R):
        return one(st, ip.read(st, a.root, a.path, None))
    return one(st, inner_ref(ip, st, a, mut))


@reg("[T]::len", "alloc::vec::Vec::len", "bytes::bytes::Bytes::len", "bytes::bytes_mut::BytesMut::len", "alloc::string::String::len",
     "str::len", "http::header::value::HeaderValue::len", "bytes::buf::buf_impl::Buf::remaining",
     "<bytes::bytes::Bytes as bytes::buf::buf_impl::Buf>::remaining", "core::iter::traits::exact_size::ExactSizeIterator::len",
     "http::header::map::HeaderMap::len")
def m_len(ip, cs, st):
    return one(st, I(M.length(ip, st, view_len_target(ip, st, cs.args[0]))))


def own_buf(ip, cs, st, name):
    """Buf method of a workspace type called through a reference to it."""
    t, a = cs.atys[0] if cs.atys else None, cs.args[0]
    while t is not None and t.k == "ref" and t.to is not None and t.to.k == "ref" and isinstance(a, R):
        a = ip.read(st, a.root, a.path, None)
        t = t.to
    if t is None or t.k != "ref" or t.to is None or not t.to.adt or not isinstance(a, R):
        return None
    for c in ip.p.crates.values():
        for g in c.fns.values():
            if g.local and g.impl_self == t.to.adt and g.impl_trait == "bytes::buf::buf_impl::Buf" and g.name.endswith("::" + name):
                return ip.inline(cs, st, g, [a] + list(cs.args[1:]))
    return None


@reg("<&mut T as bytes::buf::buf_impl::Buf>::remaining")
def m_len2(ip, cs, st):
    o = own_buf(ip, cs, st, "remaining")
    return o if o is not None else m_len(ip, cs, st)


def view_len_target(ip, st, a):
    v = a
    n = 0
    while isinstance(v, (R, RS)) and n < 8:
        v = M.rd(ip, st, v)
        n += 1
    return v


@reg("[T]::is_empty", "alloc::vec::Vec::is_empty", "bytes::bytes::Bytes::is_empty", "bytes::bytes_mut::BytesMut::is_empty",
     "alloc::string::String::is_empty", "str::is_empty", "http::header::map::HeaderMap::is_empty")
def m_is_empty(ip, cs, st):
    return one(st, B("eq", M.length(ip, st, view_len_target(ip, st, cs.args[0]))))


@reg("bytes::buf::buf_impl::Buf::has_remaining")
def m_has_rem(ip, cs, st):
    o = own_buf(ip, cs, st, "remaining")
    if o is not None:
        return [(s, B("ge", v.lin - 1)) for s, v in o]
    return one(st, B("ge", M.length(ip, st, view_len_target(ip, st, cs.args[0])) - 1))


# ------------------------------------------------------------ conversions
@reg("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "[T]::to_vec", "[T]::to_owned",
     "bytes::bytes::Bytes::copy_from_slice", "bytes::bytes::Bytes::from_static", "http::header::value::HeaderValue::from_static",
     "alloc::string::ToString::to_string", "<T as alloc::string::ToString>::to_string",
     "alloc::str::{impl#4}::to_owned", "bytes::buf::buf_impl::Buf::copy_to_bytes")
def m_copy(ip, cs, st):
    a = cs.args[0]
    if cs.name.endswith("to_string"):
        v = M.rd(ip, st, a)
        return one(st, copy_view(ip, cs, st, v))
    return one(st, copy_view(ip, cs, st, a))


def copy_view(ip, cs, st, a):
    v = a
    while isinstance(v, (R, RS)):
        v = M.rd(ip, st, v)
    if isinstance(v, S):
        c = M.content(ip, st, v)
        if isinstance(c, O) and st.num.eq(M.length(ip, st, c), v.ln):
            return c
        if isinstance(c, C):
            return c
        lb = M.prov(ip, st, v)
        s = ip.sym(("copy", c, st.num.norm(v.ln)), None, lb)
        return A("bytes", None, {"content": c, "len": I(v.ln)}, s)
    return v


@reg("core::convert::Into::into", "core::convert::From::from", "<T as core::convert::Into<U>>::into",
     "<T as core::convert::From<T>>::from", "core::convert::identity", "core::hint::must_use",
     "<alloc::boxed::Box as core::convert::From<E>>::from")
def m_into(ip, cs, st):
    a = cs.args[0]
    # conversion implemented in the workspace?
    if cs.name.endswith("Into::into") and len(cs.targs) == 2 and cs.targs[0] is not None and cs.targs[1] is not None:
        src, dst = cs.targs
        f = workspace_from(ip, src, dst)
        if f is not None:
            return ip.inline(cs, st, f, [a])
    if cs.name.endswith("From::from") and cs.key is not None:
        return None
    if isinstance(a, (S, C)) or (isinstance(a, R) and is_bytes_ref(cs.atys[0])):
        return one(st, copy_view(ip, cs, st, a))
    dst = cs.dty
    if dst.adt == "alloc::boxed::Box":
        return one(st, a)
    return one(st, a)


def workspace_from(ip, src, dst):
    cache = getattr(ip, "_from_cache", None)
    if cache is None:
        cache = ip._from_cache = {}
        for c in ip.p.crates.values():
            for f in c.fns.values():
                if f.local and f.name.endswith("core::convert::From<" + "") is False and "core::convert::From" in f.name and f.name.endswith(">::from"):
                    cache.setdefault((f.locals[1].s, f.locals[0].s), f)
    f = cache.get((src.s, dst.s))
    if f is None:
        # compare without crate qualification differences
        for (a, b), g in cache.items():
            if a.split("::")[-1] == src.s.split("::")[-1] and b.split("::")[-1] == dst.s.split("::")[-1]:
                return g
    return f


# --------------------------------------------------------------- integers
@reg("<u64 as core::convert::From<u16>>::from", "<u64 as core::convert::From<u8>>::from", "<usize as core::convert::From<u8>>::from",
     "<u64 as core::convert::From<u32>>::from", "<u64 as core::clone::Clone>::clone", "<u16 as core::clone::Clone>::clone",
     "<usize as core::clone::Clone>::clone", "<bool as core::clone::Clone>::clone", "<u8 as core::clone::Clone>::clone",
     "<f64 as core::clone::Clone>::clone", "<f32 as core::clone::Clone>::clone", "<u32 as core::clone::Clone>::clone")
def m_id(ip, cs, st):
    return one(st, M.rd(ip, st, cs.args[0]))


@reg("u64::saturating_add", "usize::saturating_add", "u64::wrapping_add", "usize::wrapping_add")
def m_satadd(ip, cs, st):
    a, b = cs.args
    M.assumptions.add("sizes stay below 2^64 (additions of byte counts do not wrap or saturate)")
    if isinstance(a, I) and isinstance(b, I):
        return one(st, I(a.lin + b.lin))
    return None


@reg("u64::checked_add", "usize::checked_add")
def m_chkadd(ip, cs, st):
    a, b = cs.args
    if isinstance(a, I) and isinstance(b, I):
        s2 = st.copy()
        return [(st, some(I(a.lin + b.lin))), (s2, NONE)]
    return None


@reg("u64::checked_sub", "usize::checked_sub")
def m_chksub(ip, cs, st):
    a, b = cs.args
    if isinstance(a, I) and isinstance(b, I):
        s2 = st.copy()
        out = []
        if ip.assume(st, B("ge", a.lin - b.lin)):
            out.append((st, some(I(a.lin - b.lin))))
        if ip.assume(s2, B("ge", b.lin - a.lin - 1)):
            out.append((s2, NONE))
        return out
    return None


@reg("u64::saturating_sub", "usize::saturating_sub")
def m_satsub(ip, cs, st):
    a, b = cs.args
    if isinstance(a, I) and isinstance(b, I):
        s2 = st.copy()
        out = []
        if ip.assume(st, B("ge", a.lin - b.lin)):
            out.append((st, I(a.lin - b.lin)))
        if ip.assume(s2, B("ge", b.lin - a.lin - 1)):
            out.append((s2, I(0)))
        return out
    return None


@reg("usize::max_value", "u64::max_value")
def m_maxv(ip, cs, st):
    return one(st, I(2 ** 64 - 1))


@reg("core::cmp::min", "core::cmp::Ord::min")
def m_min(ip, cs, st):
    a, b = cs.args
    if isinstance(a, I) and isinstance(b, I):
        if st.num.entails_ge(b.lin - a.lin):
            return one(st, a)
        if st.num.entails_ge(a.lin - b.lin):
            return one(st, b)
        s = Lin.sym(ip.sym(("min", st.num.norm(a.lin), st.num.norm(b.lin)), None, (), True))
        st.num.add_ge(a.lin - s)
        st.num.add_ge(b.lin - s)
        if st.num.entails_ge(a.lin - 1) and st.num.entails_ge(b.lin - 1):
            st.num.add_ge(s - 1)
        return one(st, I(s))
    return None


@reg("core::cmp::max", "core::cmp::Ord::max")
def m_max(ip, cs, st):
    a, b = cs.args
    if isinstance(a, I) and isinstance(b, I):
        if st.num.entails_ge(b.lin - a.lin):
            return one(st, b)
        if st.num.entails_ge(a.lin - b.lin):
            return one(st, a)
        s = Lin.sym(ip.sym(("max", st.num.norm(a.lin), st.num.norm(b.lin)), None, (), True))
        st.num.add_ge(s - a.lin)
        st.num.add_ge(s - b.lin)
        return one(st, I(s))
    return None


@reg("core::ops::arith::AddAssign::add_assign")
def m_add_assign(ip, cs, st):
    r, b = cs.args
    if isinstance(r, R):
        v = ip.read(st, r.root, r.path, None)
        b = M.rd(ip, st, b)
        if isinstance(v, I) and isinstance(b, I):
            ip.write(st, r.root, r.path, I(v.lin + b.lin))
            return one(st, UNIT)
    return None


@reg("core::ops::bit::ShlAssign::shl_assign")
def m_shl_assign(ip, cs, st):
    r, b = cs.args
    if isinstance(r, R):
        v = ip.read(st, r.root, r.path, None)
        c = st.num.const(b.lin) if isinstance(b, I) else None
        if isinstance(v, I) and c is not None:
            ip.write(st, r.root, r.path, I(v.lin.scale(2 ** c)))
            return one(st, UNIT)
    return None


# ------------------------------------------------------------- comparison
def eq_values(ip, cs, st, a, b):
    """Boolean value for a == b."""
    while isinstance(a, R) and not isinstance(a, (S, C)):
        a = M.rd(ip, st, a)
    while isinstance(b, R) and not isinstance(b, (S, C)):
        b = M.rd(ip, st, b)
    a = ip.nv(st, a)
    b = ip.nv(st, b)
    if isinstance(a, I) and isinstance(b, I):
        return B("eq", a.lin - b.lin)
    if isinstance(a, (S, C)) or isinstance(b, (S, C)):
        ca, cb = M.content(ip, st, a), M.content(ip, st, b)
        if isinstance(ca, C) and isinstance(cb, C):
            return TRUE if ca == cb else FALSE
        if ca == cb:
            return TRUE
        if repr(ca) > repr(cb):
            ca, cb = cb, ca
        return B("eq", Lin.sym(ip.sym(("isb", "eq", ca, cb), None, (), True)) - 1)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, A) and x.variant is not None and not x.fields:
            ad = ip.p.adt(x.adt)
            if ad is not None and not ad["variants"][x.variant]["fields"]:
                dy = ip.discr(st, y)
                if isinstance(y, O) and ip.st.info[y.id].ty is None:
                    pass
                return B("eq", dy.lin - ip.discr_const(x.adt, x.variant))
    if a == b:
        return TRUE
    if repr(a) > repr(b):
        a, b = b, a
    return B("eq", Lin.sym(ip.sym(("isb", "eq", a, b), None, (), True)) - 1)


@reg("core::cmp::PartialEq::eq", "<&A as core::cmp::PartialEq<&B>>::eq", "<str as core::cmp::PartialEq<str>>::eq",
     "<alloc::string::String as core::cmp::PartialEq<&str>>::eq", "<mime::Name as core::cmp::PartialEq<&str>>::eq",
     "<core::io::error::ErrorKind as core::cmp::PartialEq<core::io::error::ErrorKind>>::eq")
def m_eq(ip, cs, st):
    if cs.key is not None:
        g = ip.p.lookup(cs.key, cs.fn.facts)
        if g is not None and g.local:
            return None
    return one(st, eq_values(ip, cs, st, cs.args[0], cs.args[1]))


@reg("core::cmp::PartialEq::ne", "<&A as core::cmp::PartialEq<&B>>::ne")
def m_ne(ip, cs, st):
    if cs.name.endswith("PartialEq::ne") and cs.targs and cs.targs[0] is not None:
        g = eq_impl(ip, cs)
        if g is not None:
            outs = ip.inline(cs, st, g, cs.args)
            if outs is not None:
                return [(s, v.neg() if isinstance(v, B) else v) for s, v in outs]
    return one(st, eq_values(ip, cs, st, cs.args[0], cs.args[1]).neg())


def eq_impl(ip, cs):
    t = cs.targs[0]
    if t is None or t.adt is None:
        return None
    for c in ip.p.crates.values():
        for f in c.fns.values():
            if f.local and f.name == "<%s as core::cmp::PartialEq<%s>>::eq" % (t.adt, t.adt):
                return f
    return None


@reg("core::intrinsics::discriminant_value", "core::mem::discriminant")
def m_discr(ip, cs, st):
    a = cs.args[0]
    v = M.rd(ip, st, a)
    return one(st, ip.discr(st, v))


# ------------------------------------------------------------------ memory
@reg("core::mem::replace")
def m_replace(ip, cs, st):
    d, v = cs.args
    root, path = M_place1(ip, st, d)
    old = ip.read(st, root, path, cs.dty)
    ip.write(st, root, path, v)
    return one(st, old)


def M_place1(ip, st, d):
    if isinstance(d, R):
        return d.root, d.path
    return ip.deref(st, d, None)


@reg("core::mem::swap")
def m_swap(ip, cs, st):
    a, b = cs.args
    ra, rb = M_place1(ip, st, a), M_place1(ip, st, b)
    x, y = ip.read(st, ra[0], ra[1], None), ip.read(st, rb[0], rb[1], None)
    ip.write(st, ra[0], ra[1], y)
    ip.write(st, rb[0], rb[1], x)
    return one(st, UNIT)


@reg("core::mem::take")
def m_take(ip, cs, st):
    d = cs.args[0]
    root, path = M_place1(ip, st, d)
    old = ip.read(st, root, path, cs.dty)
    nv = default_value(ip, cs, st, cs.dty)
    if nv is None:
        return None
    ip.write(st, root, path, nv)
    return one(st, old)


def default_value(ip, cs, st, ty):
    if ty.is_int():
        return I(0)
    if ty.k == "bool":
        return FALSE
    if ty.adt == OPT:
        return NONE
    if ty.adt in ("alloc::vec::Vec",):
        return new_vec(ip, cs, st, ty)
    if ty.adt in ("bytes::bytes::Bytes", "alloc::string::String"):
        return A("bytes", None, {"content": EMPTY, "len": I(0)})
    return None


@reg("core::mem::drop", "core::mem::forget")
def m_drop(ip, cs, st):
    return one(st, UNIT)


@reg("alloc::boxed::Box::new")
def m_box(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "heapbox", None)
    hs = ip.sym(("heap", Id(s)), cs.atys[0])
    root = ("H", Id(hs))
    st.mem[root] = cs.args[0]
    return one(st, A("alloc::boxed::Box", None, {"box": R(root, (), True)}))


@reg("alloc::boxed::Box::new_uninit")
def m_boxuninit(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "heapbox", None)
    root = ("H", Id(ip.sym(("heap", Id(s)), None)))
    st.mem[root] = A("?", None, {})
    return one(st, A("alloc::boxed::Box", None, {"box": R(root, (), True)}))


@reg("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_boxintovec(ip, cs, st):
    v = new_vec(ip, cs, st, cs.dty)
    b = cs.args[0]
    arr = None
    if isinstance(b, A) and "box" in b.fields:
        arr = st.mem.get(b.fields["box"].root)
        for _ in range(4):
            if isinstance(arr, A) and arr.adt == "?" and len(arr.fields) == 1:
                arr = list(arr.fields.values())[0]
    if isinstance(arr, C):
        v = M.setattrs(ip, st, v, content=arr, len=I(len(arr.b)))
        return one(st, v)
    if not (isinstance(arr, A) and arr.adt == "array" and "rep" not in arr.fields):
        return None
    seq, flat, n = VEMPTY, EMPTY, 0
    for k in sorted(x for x in arr.fields if isinstance(x, int)):
        c = M.content(ip, st, arr.fields[k])
        seq = T("vapp", seq, c)
        flat = M.append(ip, st, flat, c)
        n += 1
    ip.model_free(st, b) if hasattr(ip, "model_free") else None
    return one(st, M.setattrs(ip, st, v, seq=seq, flat=flat, len=I(n), content=O(ip.sym(("vecof", seq)))))


@reg("alloc::rcs::arc::Arc::new", "alloc::rcs::rc::Rc::new", "core::cell::RefCell::new", "core::cell::Cell::new",
     "std::sync::poison::mutex::Mutex::new", "olio::mem::handle::MemHandle::new")
def m_wrapnew(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "wrap", cs.dty)
    return one(st, A(cs.dty.adt or "wrap", None, {"inner": cs.args[0]}, s))


@reg("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def m_callonce(ip, cs, st):
    f, tup = cs.args
    av = []
    if isinstance(tup, A):
        av = [tup.fields[i] for i in sorted(k for k in tup.fields if isinstance(k, int))]
    return ip.call_closure(cs, st, f, av)


# --------------------------------------------------------------- Vec / iter
def new_vec(ip, cs, st, ty=None):
    s = ip.fresh(st, cs.frame, cs.block, "vec", ty)
    return A("alloc::vec::Vec", None, {"seq": VEMPTY, "len": I(0), "content": EMPTY, "flat": EMPTY}, s)


@reg("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new", "alloc::string::String::with_capacity",
     "bytes::bytes::Bytes::new")
def m_vecnew(ip, cs, st):
    return one(st, new_vec(ip, cs, st, cs.dty))


@reg("alloc::vec::from_elem")
def m_fromelem(ip, cs, st):
    """`vec![x; n]` of bytes."""
    t = cs.dty.args[0] if cs.dty.args else None
    if t is None or t.s != "u8" or not isinstance(cs.args[1], I):
        return None
    s = ip.fresh(st, cs.frame, cs.block, "vec", cs.dty)
    return one(st, A("alloc::vec::Vec", None, {"len": cs.args[1], "content": O(ip.sym(("repeat", Id(s))))}, s))


def elem_sym(ip, st, seq, idx, ty):
    return ip.sym(("elem", seq, st.num.norm(idx)), ty)


@reg("str::split")
def m_split(ip, cs, st):
    """The pieces, in order; at least one."""
    c = M.content(ip, st, view_of(ip, cs, st, cs.args[0]))
    sep = cs.args[1]
    if isinstance(sep, (S, R)):
        sep = M.content(ip, st, view_of(ip, cs, st, sep))
    seq = T("split", c, sep)
    n = Lin.sym(ip.sym(("pieces", c, sep), None, (), True))
    st.num.add_ge(n - 1)
    return one(st, A("iter", None, {"seq": seq, "idx": I(0), "len": I(n), "byref": K(False), "str": K(True)}))


@reg("str::trim", "str::trim_start", "str::trim_end")
def m_trim(ip, cs, st):
    v = view_of(ip, cs, st, cs.args[0])
    c = M.content(ip, st, v)
    if isinstance(c, C):
        return one(st, C({"trim_start": c.b.lstrip, "trim_end": c.b.rstrip}.get(cs.rname.split("::")[-1], c.b.strip)()))
    s = ip.sym(("trim", c, cs.rname.split("::")[-1]), None, tuple(M.prov(ip, st, v)))
    ln = M.length(ip, st, O(s))
    st.num.add_ge(M.length(ip, st, v) - ln)
    return one(st, S(O(s), ZERO, ln))


@reg("alloc::vec::Vec::push")
def m_vecpush(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    x = cs.args[1]
    c = M.content(ip, st, x)
    seq = M.attr(ip, st, v, "seq")
    n = M.lin(ip, st, v, "len")
    nv = M.setattrs(ip, st, v, seq=T("vapp", seq, c if isinstance(c, Val) else x), len=I(n + 1),
                    flat=M.append(ip, st, M.attr(ip, st, v, "flat"), c),
                    content=O(ip.sym(("vpushed", M.content(ip, st, v), c))))
    ip.write(st, root, path, nv)
    return one(st, UNIT)


@reg("alloc::vec::Vec::capacity")
def m_veccap(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    s = Lin.sym(ip.sym(("vcap", v), None, (), True))
    st.num.add_ge(s - M.lin(ip, st, v, "len"))
    return one(st, I(s))


@reg("alloc::vec::Vec::clear")
def m_vecclear(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    ip.write(st, root, path, M.setattrs(ip, st, v, seq=VEMPTY, len=I(0), content=EMPTY, flat=EMPTY))
    return one(st, UNIT)


def is_seq_ty(t):
    t = t.strip() if t is not None else None
    return t is not None and (t.adt == "alloc::vec::Vec" or t.k in ("slice", "array"))


@reg("core::iter::traits::collect::IntoIterator::into_iter", "<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
     "<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
     "<&[T] as core::iter::traits::collect::IntoIterator>::into_iter", "<I as core::iter::traits::collect::IntoIterator>::into_iter",
     "[T]::iter", "alloc::vec::Vec::drain", "[T]::iter_mut")
def m_into_iter(ip, cs, st):
    t = cs.atys[0]
    a = cs.args[0]
    if cs.rname.startswith("<I as "):
        return one(st, a)
    byref = t is not None and t.k == "ref"
    if is_seq_ty(t):
        v = M.rd(ip, st, a)
        if isinstance(v, (S, C)):
            c = M.content(ip, st, v)
            prov = M.prov(ip, st, v)
            s = ip.fresh(st, cs.frame, cs.block, "iter", cs.dty)
            return one(st, A("iter", None, {"seq": c, "idx": I(0), "len": I(M.length(ip, st, v)), "byref": K(byref), "bytes8": K(True),
                                            "prov": K(frozenset(prov))}, s))
        seq = M.attr(ip, st, v, "seq")
        n = M.length(ip, st, v, t.strip() if t.strip().k == "array" else None)
        s = ip.fresh(st, cs.frame, cs.block, "iter", cs.dty)
        if isinstance(v, A) and v.adt == "array" and "seq" not in v.fields:
            seq = v
        if cs.name.endswith("drain"):
            if len(cs.atys) < 2 or cs.atys[1] is None or cs.atys[1].adt != "core::ops::range::RangeFull":
                return None
            root, path = M.place(ip, st, a)
            ip.write(st, root, path, M.setattrs(ip, st, v, seq=VEMPTY, len=I(0), content=EMPTY, flat=EMPTY))
            byref = False
        return one(st, A("iter", None, {"seq": seq, "idx": I(0), "len": I(n), "byref": K(byref)}, s))
    return None


def iter_place(ip, st, a):
    root, path = M.place(ip, st, a)
    v = ip.read(st, root, path, None)
    return root, path, v


def iter_item(ip, cs, st, v, idx, ety):
    seq = v.fields["seq"]
    byref = v.fields["byref"].x
    if "pair" in v.fields:
        x = []
        for nm in v.fields["pair"].x:
            sid = ip.sym((nm, seq, st.num.norm(idx)), None, ip.vprov(seq))
            x.append(R(("H", Id(sid))))
        return A("tuple", None, dict(enumerate(x))) if len(x) > 1 else x[0]
    if isinstance(seq, A) and seq.adt == "array":
        c = st.num.const(idx)
        if c is not None and c in seq.fields:
            x = seq.fields[c]
            if byref:
                s = ip.sym(("elref", seq, c))
                st.mem[("H", Id(s))] = x
                return R(("H", Id(s)))
            return x
    if isinstance(seq, C):
        c = st.num.const(idx)
        if c is not None and 0 <= c < len(seq.b):
            x = I(seq.b[c])
            if byref:
                s = ip.sym(("elref", seq, c))
                st.mem[("H", Id(s))] = x
                return R(("H", Id(s)))
            return x
    t = ety
    if byref and t is not None and t.k == "ref":
        t = t.to
    sid = elem_sym(ip, st, seq, idx, t)
    if "prov" in v.fields:
        ip.st.info[sid].prov = v.fields["prov"].x
    if byref:
        return R(("H", Id(sid)))
    return ip.make(sid, t)


def unrolled(st, v, idx, n):
    """Iteration over a few known elements: states of different progress are kept apart."""
    seq, c, k = v.fields["seq"], st.num.const(idx), st.num.const(n)
    if isinstance(seq, A) and seq.adt == "array" and c is not None and k is not None and k <= 8 and c in seq.fields:
        return int(c) + 1
    return None


@reg("core::iter::traits::iterator::Iterator::next", "<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next",
     "<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::next")
def m_next(ip, cs, st):
    root, path, v = iter_place(ip, st, cs.args[0])
    if not (isinstance(v, A) and "seq" in v.fields and "idx" in v.fields):
        return None
    idx, n = v.fields["idx"].lin, v.fields["len"].lin
    ety = cs.dty.args[0] if cs.dty.args else None
    outs = []
    s2 = st.copy()
    if ip.assume(s2, B("ge", idx - n)):
        s2.num.add_eq(idx - n)
        if not s2.num.bot:
            M.renorm(ip, s2, v.fields["seq"])
            s2.mem.pop(("G", ("at", root, path)), None)
            outs.append((s2, NONE))
    if ip.assume(st, B("ge", n - idx - 1)):
        it = iter_item(ip, cs, st, v, idx, ety)
        at = unrolled(st, v, idx, n)
        if at is not None:
            st.setg(("at", root, path), K(at))
        ip.write(st, root, path, v.with_("idx", I(idx + 1)))
        outs.append((st, some(it)))
    return outs


@reg("core::iter::traits::double_ended::DoubleEndedIterator::next_back",
     "<alloc::vec::into_iter::IntoIter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
     "<core::slice::iter::Iter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def m_next_back(ip, cs, st):
    root, path, v = iter_place(ip, st, cs.args[0])
    if not (isinstance(v, A) and "seq" in v.fields and "idx" in v.fields):
        return None
    idx, n = v.fields["idx"].lin, v.fields["len"].lin
    ety = cs.dty.args[0] if cs.dty.args else None
    outs = []
    s2 = st.copy()
    if ip.assume(s2, B("ge", idx - n)):
        s2.num.add_eq(idx - n)
        if not s2.num.bot:
            M.renorm(ip, s2, v.fields["seq"])
            outs.append((s2, NONE))
    if ip.assume(st, B("ge", n - idx - 1)):
        it = iter_item(ip, cs, st, v, n - 1, ety)
        ip.write(st, root, path, v.with_("len", I(n - 1)))
        outs.append((st, some(it)))
    return outs


def range_bounds(ip, st, r, total):
    """(lo, hi) of a range value, or None."""
    r = M.rd(ip, st, r)
    if isinstance(r, A):
        n = r.adt if isinstance(r.adt, str) else ""
        f = r.fields
        g = lambda i: f[i].lin if i in f and isinstance(f[i], I) else None
        if n.endswith("::Range"):
            return g(0), g(1)
        if n.endswith("::RangeFrom"):
            return g(0), total
        if n.endswith("::RangeTo"):
            return ZERO, g(0)
        if n.endswith("::RangeFull"):
            return ZERO, total
        if n.endswith("::RangeInclusive"):
            h = g(1)
            return g(0), (h + 1 if h is not None else None)
        if n.endswith("::RangeToInclusive"):
            h = g(0)
            return ZERO, (h + 1 if h is not None else None)
    return None


@reg("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut", "<[T;N] as core::ops::index::Index<I>>::index",
     "<[T] as core::ops::index::Index<I>>::index", "<[T] as core::ops::index::IndexMut<I>>::index_mut",
     "<alloc::vec::Vec as core::ops::index::Index<I>>::index", "<str as core::ops::index::Index<I>>::index",
     "<[T;N] as core::ops::index::IndexMut<I>>::index_mut", "<alloc::vec::Vec as core::ops::index::IndexMut<I>>::index_mut")
def m_index(ip, cs, st):
    a, ix = cs.args
    ixv = M.rd(ip, st, ix)
    bv = view_of(ip, cs, st, a)
    if isinstance(bv, C):
        total = Lin(len(bv.b))
    else:
        total = bv.ln
        t = cs.atys[0].strip() if cs.atys[0] is not None else None
        if t is not None and t.k == "array" and t.n is not None and not isinstance(M.rd(ip, st, a), S):
            total = Lin(int(t.n))
            bv = S(bv.base, bv.lo, total)
    if isinstance(ixv, I):
        for rl in ip.rules:
            f = getattr(rl, "on_index", None)
            if f:
                f(ip, cs, st, ixv.lin, ixv.lin + 1, total)
        ip.assume(st, B("ge", total - ixv.lin - 1))
        if st.num.bot:
            return []
        if isinstance(bv, C):
            c = st.num.const(ixv.lin)
            if c is not None and 0 <= c < len(bv.b):
                s = ip.sym(("elref", bv, c))
                st.mem[("H", Id(s))] = I(bv.b[c])
                return one(st, R(("H", Id(s))))
        root, path = bv.base[1], bv.base[2]
        pv = ip.read(st, root, path, None)
        seq = M.attr(ip, st, pv, "seq")
        et = cs.dty.to
        if et is not None and et.is_int():
            ev = ip.elem_of(st, pv, st.num.norm(bv.lo + ixv.lin), et)
            s = ip.sym(("elref", seq, st.num.norm(bv.lo + ixv.lin)))
            st.mem[("H", Id(s))] = ev
            return one(st, R(("H", Id(s))))
        sid = elem_sym(ip, st, seq, bv.lo + ixv.lin, et)
        return one(st, R(("H", Id(sid))))
    rb = range_bounds(ip, st, ixv, total)
    if rb is None or rb[0] is None or rb[1] is None:
        return None
    lo, hi = rb
    for rl in ip.rules:
        f = getattr(rl, "on_index", None)
        if f:
            f(ip, cs, st, lo, hi, total)
    st.num.add_ge(hi - lo)
    st.num.add_ge(total - hi)
    if st.num.bot:
        return []
    if isinstance(bv, C):
        return one(st, S(bv, lo, hi - lo))
    return one(st, S(bv.base, bv.lo + lo, hi - lo))


@reg("[T]::last")
def m_last(ip, cs, st):
    a = cs.args[0]
    v = view_of(ip, cs, st, a)
    n = M.length(ip, st, v)
    s2 = st.copy()
    outs = []
    if ip.assume(s2, B("eq", n)):
        outs.append((s2, NONE))
    if ip.assume(st, B("ge", n - 1)):
        pv = M.rd(ip, st, a)
        seq = M.attr(ip, st, pv, "seq")
        et = cs.dty.args[0].to
        sid = elem_sym(ip, st, seq, n - 1, et)
        outs.append((st, some(R(("H", Id(sid))))))
    return outs


# --------------------------------------------------------------- BytesMut
@reg("bytes::bytes_mut::BytesMut::with_capacity", "bytes::bytes_mut::BytesMut::new")
def m_bm_new(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "bm", cs.dty)
    cap = I(Lin.sym(ip.sym(("attr", Id(s), "cap"), None, (), True)))
    if cs.args and isinstance(cs.args[0], I):
        st.num.add_ge(cap.lin - cs.args[0].lin)
    return one(st, A("bytes::bytes_mut::BytesMut", None, {"content": EMPTY, "len": I(0), "cap": cap, "valid": I(0)}, s))


@reg("bytes::buf::buf_mut::BufMut::chunk_mut", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::chunk_mut")
def m_chunk_mut(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    n = Lin.sym(ip.fresh(st, cs.frame, cs.block, "sparelen", None, (), True))
    st.num.add_ge(n - 1)
    v = ip.read(st, root, path, None)
    if isinstance(v, A) and isinstance(v.fields.get("cap"), I) and isinstance(v.fields.get("len"), I):
        # the spare capacity; only ever grown here
        st.num.add_ge(n - v.fields["cap"].lin + v.fields["len"].lin)
    return one(st, S(("P", root, tuple(path) + ((None, "spare"),)), ZERO, n))


@reg("bytes::buf::buf_mut::BufMut::remaining_mut", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::remaining_mut")
def m_remaining_mut(ip, cs, st):
    n = Lin.sym(ip.fresh(st, cs.frame, cs.block, "remmut", None, (), True))
    return one(st, I(n))


@reg("bytes::buf::buf_mut::BufMut::advance_mut", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::advance_mut")
def m_advance_mut(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    n = cs.args[1].lin if isinstance(cs.args[1], I) else Lin.sym(ip.fresh(st, cs.frame, cs.block, "adv", None, (), True))
    valid = M.lin(ip, st, v, "valid")
    sp = v.fields.get("spare") if isinstance(v, A) else None
    for rl in ip.rules:
        f = getattr(rl, "on_advance", None)
        if f:
            f(ip, cs, st, n, valid)
    if sp is None:
        x = O(ip.sym(("uninit", v, n)))
    else:
        sc = M.content(ip, st, sp)
        x = M.mkck(ip, st, sc, ZERO, n, valid)
    c = M.append(ip, st, M.content(ip, st, v), x)
    ln = M.lin(ip, st, v, "len")
    f = dict(v.fields) if isinstance(v, A) else {}
    f.pop("spare", None)
    f.update(content=c, len=I(st.num.norm(ln + n)), valid=I(0))
    ip.write(st, root, path, A("bytes::bytes_mut::BytesMut", None, f, v.base if isinstance(v, A) else (v.id if isinstance(v, O) else None)))
    return one(st, UNIT)


@reg("bytes::bytes_mut::BytesMut::freeze")
def m_freeze(ip, cs, st):
    v = cs.args[0]
    if isinstance(v, A):
        c = M.content(ip, st, v)
        n = M.length(ip, st, v)
        if isinstance(c, O) and st.num.eq(M.length(ip, st, c), n):
            return one(st, c)
        return one(st, A("bytes", None, {"content": c, "len": I(n)}, ip.sym(("copy", c, st.num.norm(n)))))
    return one(st, v)


@reg("bytes::bytes_mut::BytesMut::clear")
def m_bmclear(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    f = dict(v.fields) if isinstance(v, A) else {}
    f.pop("spare", None)
    f.update(content=EMPTY, len=I(0), valid=I(0))
    ip.write(st, root, path, A("bytes::bytes_mut::BytesMut", None, f, v.base if isinstance(v, A) else None))
    return one(st, UNIT)


@reg("bytes::buf::buf_mut::BufMut::put_slice", "<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put_slice",
     "bytes::bytes_mut::BytesMut::extend_from_slice", "alloc::string::String::push_str", "alloc::vec::Vec::extend_from_slice")
def m_put_slice(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    x = M.content(ip, st, view_of(ip, cs, st, cs.args[1]))
    c = M.append(ip, st, M.content(ip, st, v), x)
    ln = M.lin(ip, st, v, "len") + M.length(ip, st, view_of(ip, cs, st, cs.args[1]))
    ip.write(st, root, path, M.setattrs(ip, st, v, content=c, len=I(ln)))
    return one(st, UNIT)


@reg("bytes::bytes::Bytes::split_to", "bytes::bytes_mut::BytesMut::split_to")
def m_split_to(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    n = cs.args[1].lin
    ln = M.length(ip, st, v)
    for rl in ip.rules:
        f = getattr(rl, "on_index", None)
        if f:
            f(ip, cs, st, ZERO, n, ln)
    st.num.add_ge(ln - n)
    if st.num.bot:
        return []
    c = M.content(ip, st, v)
    a = M.mkck(ip, st, c, ZERO, n, ln)
    b = M.mkck(ip, st, c, n, ln - n, ln)
    ip.write(st, root, path, A("bytes", None, {"content": b, "len": I(st.num.norm(ln - n))}, ip.sym(("copy", b, st.num.norm(ln - n)))))
    return one(st, A("bytes", None, {"content": a, "len": I(n)}, ip.sym(("copy", a, st.num.norm(n)))))


@reg("bytes::bytes::Bytes::truncate", "bytes::bytes_mut::BytesMut::truncate", "alloc::string::String::truncate", "alloc::vec::Vec::truncate",
     "bytes::bytes_mut::BytesMut::set_len")
def m_truncate(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    t = cs.atys[0].to if cs.atys and cs.atys[0] is not None and cs.atys[0].is_ref() else None
    if t is not None and t.adt == "alloc::vec::Vec" and not (t.args and t.args[0].k == "uint" and t.args[0].show() == "u8"):
        return None
    n = cs.args[1].lin if isinstance(cs.args[1], I) else None
    ln = M.length(ip, st, v)
    if n is None or ln is None:
        return None
    outs = []
    grow = cs.rname.endswith("set_len")
    s2 = st.copy()
    if ip.assume(s2, B("ge", n - ln)):
        if grow:
            valid = M.lin(ip, s2, v, "valid")
            d = s2.num.norm(n - ln)
            sp = v.fields.get("spare") if isinstance(v, A) else None
            x = O(ip.sym(("uninit", v, d))) if sp is None else M.mkck(ip, s2, M.content(ip, s2, sp), ZERO, d, valid)
            f = dict(v.fields) if isinstance(v, A) else {}
            f.pop("spare", None)
            f.update(content=M.append(ip, s2, M.content(ip, s2, v), x), len=I(s2.num.norm(n)), valid=I(0))
            ip.write(s2, root, path, A("bytes::bytes_mut::BytesMut", None, f, v.base if isinstance(v, A) else (v.id if isinstance(v, O) else None)))
        outs.append((s2, UNIT))
    if ip.assume(st, B("ge", ln - n - 1)):
        c = M.mkck(ip, st, M.content(ip, st, v), ZERO, n, ln)
        f = dict(v.fields) if isinstance(v, A) else {}
        f.pop("spare", None)
        f.update(content=c, len=I(st.num.norm(n)))
        if "valid" in f:
            f["valid"] = I(0)
        ip.write(st, root, path, A(v.adt if isinstance(v, A) else "bytes", None, f, ip.sym(("copy", c, st.num.norm(n)))))
        outs.append((st, UNIT))
    return outs


@reg("bytes::bytes::Bytes::split_off", "bytes::bytes_mut::BytesMut::split_off")
def m_split_off(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    n = cs.args[1].lin
    ln = M.length(ip, st, v)
    for rl in ip.rules:
        f = getattr(rl, "on_index", None)
        if f:
            f(ip, cs, st, n, ln, ln)
    st.num.add_ge(ln - n)
    if st.num.bot:
        return []
    c = M.content(ip, st, v)
    a = M.mkck(ip, st, c, ZERO, n, ln)
    b = M.mkck(ip, st, c, n, ln - n, ln)
    ip.write(st, root, path, A("bytes", None, {"content": a, "len": I(st.num.norm(n))}, ip.sym(("copy", a, st.num.norm(n)))))
    return one(st, A("bytes", None, {"content": b, "len": I(st.num.norm(ln - n))}, ip.sym(("copy", b, st.num.norm(ln - n)))))


@reg("bytes::bytes_mut::BytesMut::split")
def m_split_all(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    c, ln = M.content(ip, st, v), M.length(ip, st, v)
    s = ip.fresh(st, cs.frame, cs.block, "bm", cs.dty)
    cap = I(Lin.sym(ip.sym(("attr", Id(s), "cap"), None, (), True)))
    ip.write(st, root, path, A("bytes::bytes_mut::BytesMut", None, {"content": EMPTY, "len": I(0), "cap": cap, "valid": I(0)}, s))
    return one(st, A("bytes", None, {"content": c, "len": I(ln)}, ip.sym(("copy", c, st.num.norm(ln)))))


@reg("bytes::bytes_mut::BytesMut::reserve")
def m_bmreserve(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    f = dict(v.fields) if isinstance(v, A) else {}
    f.setdefault("content", M.content(ip, st, v))
    f.setdefault("len", I(M.length(ip, st, v)))
    f.pop("spare", None)
    cap = Lin.sym(ip.fresh(st, cs.frame, cs.block, "cap", None, (), True))
    if isinstance(cs.args[1], I):
        st.num.add_ge(cap - f["len"].lin - cs.args[1].lin)
    f.update(cap=I(cap), valid=I(0))
    ip.write(st, root, path, A("bytes::bytes_mut::BytesMut", None, f, v.base if isinstance(v, A) else (v.id if isinstance(v, O) else None)))
    return one(st, UNIT)


@reg("bytes::bytes_mut::BytesMut::capacity")
def m_bmcap(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    if isinstance(v, A) and isinstance(v.fields.get("cap"), I):
        st.num.add_ge(v.fields["cap"].lin - M.length(ip, st, v))
        return one(st, v.fields["cap"])
    s = Lin.sym(ip.sym(("vcap", v), None, (), True))
    st.num.add_ge(s - M.length(ip, st, v))
    return one(st, I(s))


@reg("bytes::buf::buf_impl::Buf::advance", "<bytes::bytes::Bytes as bytes::buf::buf_impl::Buf>::advance")
def m_buf_advance(ip, cs, st):
    o = own_buf(ip, cs, st, "advance")
    if o is not None:
        return o
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    n = cs.args[1].lin
    ln = M.length(ip, st, v)
    st.num.add_ge(ln - n)
    if st.num.bot:
        return []
    b = M.mkck(ip, st, M.content(ip, st, v), n, ln - n, ln)
    ip.write(st, root, path, A("bytes", None, {"content": b, "len": I(st.num.norm(ln - n))}, ip.sym(("copy", b, st.num.norm(ln - n)))))
    return one(st, UNIT)


# --------------------------------------------------------------- io: write
def file_like(ty):
    t = ty.strip() if ty is not None else None
    return t is not None and t.adt == "std::fs::File"


def do_write(ip, st, root, path, x, n, isfile):
    """Successful write of content x (n bytes) to the writer at place."""
    v = ip.read(st, root, path, None)
    pos, end = M.lin(ip, st, v, "pos"), M.lin(ip, st, v, "end")
    c = M.content(ip, st, v)
    cnt = M.lin(ip, st, v, "n")
    if isfile:
        if st.num.eq(pos, end):
            nc = M.append(ip, st, c, x)
            nend = end + n
        elif st.num.entails_ge(end - pos - n):
            nc = T("over", c, I(st.num.norm(pos)), x)
            nend = end
        else:
            nc = O(ip.sym(("overw", c, st.num.norm(pos), x)))
            nend = Lin.sym(ip.sym(("maxend", st.num.norm(end), st.num.norm(pos + n)), None, (), True))
        nv = M.setattrs(ip, st, v, content=nc, pos=I(st.num.norm(pos + n)), end=I(st.num.norm(nend)), n=I(st.num.norm(cnt + n)))
    else:
        nv = M.setattrs(ip, st, v, content=M.append(ip, st, c, x), n=I(st.num.norm(cnt + n)))
    ip.write(st, root, path, nv)


def fail_write(ip, cs, st, root, path, isfile):
    v = ip.read(st, root, path, None)
    s = ip.fresh(st, cs.frame, cs.block, "partial", None, (), True)
    st.num.add_ge(Lin.sym(s))
    c = O(ip.sym(("partial", Id(s), M.content(ip, st, v))))
    kw = dict(n=I(M.lin(ip, st, v, "n") + Lin.sym(s)))
    if isfile:
        pos, end = M.lin(ip, st, v, "pos"), M.lin(ip, st, v, "end")
        atend = st.num.eq(pos, end)
        if atend:
            # an unknown part of the bytes has been added
            x = O(ip.sym(("partial", Id(s))))
            st.num.add_eq(M.length(ip, st, x) - Lin.sym(s))
            c = T("app", M.cnorm(ip, st, M.content(ip, st, v)), x)
        kw["pos"] = I(pos + Lin.sym(s))
        kw["end"] = I(end + Lin.sym(s)) if atend else I(Lin.sym(ip.sym(("endp", Id(s)), None, (), True)))
    ip.write(st, root, path, M.setattrs(ip, st, v, content=c, **kw))


@reg("core::io::write::Write::write_all")
def m_write_all(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    isf = file_like(cs.atys[0])
    sl = view_of(ip, cs, st, cs.args[1])
    n = M.length(ip, st, sl)
    x = M.content(ip, st, sl)
    g = write_impl(ip, cs.atys[0])
    if g is not None:
        # all of the buffer goes through the type's own write
        old = ip.fullwrite
        ip.fullwrite = True
        try:
            outs = ip.inline(cs, st, g, [R(root, path, True), cs.args[1]])
        finally:
            ip.fullwrite = old
        if outs is not None:
            return [(s, ok(UNIT) if isinstance(v, A) and v.variant == 0 else v) for s, v in outs]
    if is_encoder(ip.read(st, root, path, None)):
        return enc_write(ip, cs, st, root, path, x, n, UNIT)
    for rl in ip.rules:
        f = getattr(rl, "on_write", None)
        if f:
            f(ip, cs, st, root, path, x, n, isf)

    def good(s):
        do_write(ip, s, root, path, x, n, isf)

    def bad(s):
        fail_write(ip, cs, s, root, path, isf)
    return M.result(ip, cs, st, UNIT, good, bad)


def write_impl(ip, ty, what="write"):
    """Workspace implementation of Write for the (referenced) type."""
    t = ty.strip() if ty is not None else None
    if t is None or t.adt is None:
        return None
    return impl_fn(ip, "<%s as core::io::write::Write>::%s" % (t.adt, what))


def impl_fn(ip, name):
    c = getattr(ip, "_impl_cache", None)
    if c is None:
        c = ip._impl_cache = {}
        for cr in ip.p.crates.values():
            for f in cr.fns.values():
                if f.local and f.impl_trait:
                    c.setdefault(f.name, f)
    return c.get(name)


def is_encoder(v):
    return isinstance(v, A) and "enc" in v.fields


def enc_down(ip, cs, st, root, path, tag):
    """Some compressed bytes are passed on to the writer below an encoder.
    Returns [(state, error or None)]."""
    v = ip.read(st, root, path, None)
    w = v.fields["inner"]
    k = Lin.sym(ip.fresh(st, cs.frame, cs.block, "comp" + tag, None, (), True))
    x = O(ip.sym(("compressed", v.fields["enc"], k)))
    st.num.add_eq(M.length(ip, st, x) - k)
    if isinstance(w, R):
        fr, fp = M.place(ip, st, w)
        for rl in ip.rules:
            f = getattr(rl, "on_write", None)
            if f:
                f(ip, cs, st, fr, fp, x, k, True)
        se = st.copy()
        do_write(ip, st, fr, fp, x, k, True)
        fail_write(ip, cs, se, fr, fp, True)
        es = ip.fresh(se, cs.frame, cs.block, "ioerr" + tag, None)
        return [(st, None), (se, O(es))]
    if isinstance(w, A) and isinstance(w.adt, str):
        g = impl_fn(ip, "<%s as core::io::write::Write>::write" % w.adt)
        if g is not None:
            old = ip.fullwrite
            ip.fullwrite = True
            try:
                outs = ip.inline(cs, st, g, [R(root, tuple(path) + ((None, "inner"),), True), S(x, ZERO, k)])
            finally:
                ip.fullwrite = old
            if outs is not None:
                # interrupted writes are repeated by the encoders
                return [(s, None if isinstance(r, A) and r.variant == 0 else r.fields.get(0, UNIT)) for s, r in outs
                        if not (isinstance(r, A) and r.variant == 1 and interrupted(ip, s, r.fields.get(0)))]
    return [(st, None)]


def interrupted(ip, st, e):
    """The error is known to be an interruption on this path."""
    if e is None:
        return False
    k = ip.st.by_name.get(("kind", e))
    d = ip.st.by_name.get(("discr", Id(k))) if k is not None else None
    c = st.num.const(Lin.sym(d)) if d is not None else None
    if c is None:
        return False
    a = ip.p.adt("core::io::error::ErrorKind")
    return a is not None and a["variants"][int(c)]["name"] == "Interrupted"


def enc_write(ip, cs, st, root, path, x, n, okv):
    v = ip.read(st, root, path, None)
    for rl in ip.rules:
        f = getattr(rl, "on_write", None)
        if f:
            f(ip, cs, st, root, path, x, n, False)
    res = []
    for s, e in enc_down(ip, cs, st, root, path, "w"):
        if e is None:
            do_write(ip, s, root, path, x, n, False)
            res.append((s, ok(okv)))
        else:
            res.append((s, err(e)))
    return res


@reg("flate2::gz::write::GzEncoder::new", "flate2::deflate::write::DeflateEncoder::new", "flate2::zlib::write::ZlibEncoder::new",
     "brotli::enc::writer::CompressorWriter::new", "brotli::enc::writer::CompressorWriter::with_params")
def m_encnew(ip, cs, st):
    kind = cs.name.split("::")[-2]
    M.assumptions.add("flate2 and brotli produce a complete stream when finished successfully, and their decoders invert it")
    s = ip.fresh(st, cs.frame, cs.block, "enc", cs.dty)
    st.setg("enc", kind)
    st.setg("fin", False)
    return one(st, A(cs.dty.adt, None, {"enc": K(kind), "inner": cs.args[0], "content": EMPTY, "n": I(0)}, s))


@reg("flate2::gz::write::GzEncoder::finish", "flate2::gz::write::GzEncoder::try_finish")
def m_encfinish(ip, cs, st):
    v = cs.args[0]
    if isinstance(v, R):
        root, path = M.place(ip, st, v)
        v = ip.read(st, root, path, None)
    else:
        s = ip.sym(("heap", "encfin", cs.frame, cs.block))
        root, path = ("H", Id(s)), ()
        st.mem[root] = v
    if not is_encoder(v):
        return None
    outs = []
    for s, e in enc_down(ip, cs, st, root, path, "f"):
        if e is None:
            s.setg("fin", True)
            s.setg("payload", v.fields["content"])
            outs.append((s, ok(v.fields["inner"] if cs.name.endswith("::finish") else UNIT)))
        else:
            outs.append((s, err(e)))
    return outs


@reg("flate2::gz::write::GzEncoder::get_mut", "flate2::gz::write::GzEncoder::get_ref",
     "brotli::enc::writer::CompressorWriter::get_mut", "brotli::enc::writer::CompressorWriter::get_ref")
def m_encinner(ip, cs, st):
    """The writer below, past the encoder."""
    root, path = M.place(ip, st, cs.args[0])
    if not is_encoder(ip.read(st, root, path, None)):
        return None
    return one(st, R(root, tuple(path) + ((None, "inner"),), cs.name.endswith("_mut")))


@reg("brotli::enc::writer::CompressorWriter::into_inner")
def m_encinto(ip, cs, st):
    """Completes the stream, but drops any error of doing so."""
    v = cs.args[0]
    if not is_encoder(v):
        return None
    s0 = ip.sym(("heap", "encinto", cs.frame, cs.block))
    root = ("H", Id(s0))
    st.mem[root] = v
    outs = []
    for s, e in enc_down(ip, cs, st, root, (), "i"):
        w = ip.read(s, root, ((None, "inner"),), None)
        s.setg("fin", True if e is None else "lost")
        s.setg("payload", v.fields["content"])
        outs.append((s, w))
    return outs


@reg("core::io::write::Write::write", "<&std::fs::File as core::io::write::Write>::write",
     "<std::fs::File as core::io::write::Write>::write", "<alloc::boxed::Box as core::io::write::Write>::write")
def m_write(ip, cs, st):
    if cs.key is not None:
        g = ip.p.lookup(cs.key, cs.fn.facts)
        if g is not None and g.local:
            return None
    root, path = M.place(ip, st, cs.args[0])
    isf = file_like(cs.atys[0])
    sl = view_of(ip, cs, st, cs.args[1])
    n = M.length(ip, st, sl)
    if ip.fullwrite:
        w = n
    else:
        w = Lin.sym(ip.fresh(st, cs.frame, cs.block, "wrote", None, (), True))
        st.num.add_ge(n - w)
    if is_encoder(ip.read(st, root, path, None)):
        return enc_write(ip, cs, st, root, path, M.mkck(ip, st, M.content(ip, st, sl), ZERO, w, n), w, I(w))
    x = M.mkck(ip, st, M.content(ip, st, sl), ZERO, w, n)
    for rl in ip.rules:
        f = getattr(rl, "on_write", None)
        if f:
            f(ip, cs, st, root, path, x, w, isf)

    def good(s):
        do_write(ip, s, root, path, x, w, isf)
    return M.result(ip, cs, st, I(w), good, None)


@reg("core::io::write::Write::flush", "<std::fs::File as core::io::write::Write>::flush",
     "<&std::fs::File as core::io::write::Write>::flush", "<alloc::boxed::Box as core::io::write::Write>::flush")
def m_flush(ip, cs, st):
    if cs.args and isinstance(cs.args[0], (R, RS)):
        root, path = M.place(ip, st, cs.args[0])
        if is_encoder(ip.read(st, root, path, None)):
            return [(s, ok(UNIT) if e is None else err(e)) for s, e in enc_down(ip, cs, st, root, path, "fl")]
    return M.result(ip, cs, st, UNIT)


@reg("core::io::write::Write::write_fmt")
def m_write_fmt(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    isf = file_like(cs.atys[0])
    x = M.content(ip, st, cs.args[1])
    n = M.clen(ip, st, x)
    for rl in ip.rules:
        f = getattr(rl, "on_write", None)
        if f:
            f(ip, cs, st, root, path, x, n, isf)

    def good(s):
        do_write(ip, s, root, path, x, n, isf)

    def bad(s):
        fail_write(ip, cs, s, root, path, isf)
    return M.result(ip, cs, st, UNIT, good, bad)


# ---------------------------------------------------------------- io: read
def fill(ip, st, sl, content, n):
    """Bytes `content` (n of them) were stored at the start of slice sl."""
    if not isinstance(sl, S) or not isinstance(sl.base, tuple):
        return
    _, root, path = sl.base
    if path and path[-1] == (None, "spare"):
        par = path[:-1]
        v = ip.read(st, root, par, None)
        f = dict(v.fields) if isinstance(v, A) else {}
        valid = f.get("valid", I(0)).lin
        sp = f.get("spare")
        if st.num.eq(sl.lo, ZERO):
            f["spare"] = A("bytes", None, {"content": content, "len": I(n)}, ip.sym(("copy", content, st.num.norm(n))))
            f["valid"] = I(n)
        elif sp is not None and st.num.eq(sl.lo, valid):
            c = M.append(ip, st, M.content(ip, st, sp), content)
            f["spare"] = A("bytes", None, {"content": c, "len": I(valid + n)}, ip.sym(("copy", c, st.num.norm(valid + n))))
            f["valid"] = I(valid + n)
        else:
            f.pop("spare", None)
            f["valid"] = I(0)
        ip.write(st, root, par, A("bytes::bytes_mut::BytesMut", None, f, v.base if isinstance(v, A) else (v.id if isinstance(v, O) else None)))
        return
    v = ip.read(st, root, path, None)
    full = M.length(ip, st, v)
    f = {"len": I(full), "content": O(ip.sym(("filled", M.content(ip, st, v), sl.lo, content)))}
    fc = v.fields.get("fillc") if isinstance(v, A) else None
    fv = v.fields.get("valid") if isinstance(v, A) else None
    if st.num.eq(sl.lo, ZERO):
        f["fillc"], f["valid"] = content, I(n)
    elif fc is not None and isinstance(fv, I) and st.num.eq(sl.lo, fv.lin):
        f["fillc"], f["valid"] = M.append(ip, st, fc, content), I(st.num.norm(fv.lin + n))
    else:
        f["fillc"], f["valid"] = EMPTY, I(0)
    ip.write(st, root, path, A(v.adt if isinstance(v, A) and v.adt == "alloc::vec::Vec" else "array", None, f, v.base if isinstance(v, A) else (v.id if isinstance(v, O) else None)))


def reader_kind(ty):
    t = ty.strip() if ty is not None else None
    return t.adt if t is not None else None


def read_result(ip, cs, st, exact):
    root, path = M.place(ip, st, cs.args[0])
    sl = view_of(ip, cs, st, cs.args[1])
    ln = M.length(ip, st, sl)
    kind = reader_kind(cs.atys[0])
    v = ip.read(st, root, path, None)
    pos = M.lin(ip, st, v, "pos")
    src = M.attr(ip, st, v, "content")
    isslice = kind == "olio::fs::read::ReadSlice"
    for rl in ip.rules:
        f = getattr(rl, "on_read", None)
        if f:
            f(ip, cs, st, root, path, v, ln, exact, kind)
    se = st.copy()
    if exact:
        n = ln
        okv = UNIT if not ip.fullread else I(n)
    else:
        s = ip.fresh(st, cs.frame, cs.block, "nread", None, (), True)
        n = Lin.sym(s)
        st.num.add_ge(ln - n)
        okv = I(n)
        v = ip.read(st, root, path, None)
        pos = M.lin(ip, st, v, "pos")
    if isslice:
        st.num.add_ge(M.lin(ip, st, v, "stop") - pos - n)
        if st.num.bot:
            return []
    if kind in ("olio::fs::read::ReadSlice", "olio::fs::read::ReadPos"):
        # bytes that were delivered exist in the file
        fe = Lin.sym(ip.sym(("fileend", src), None, (), True))
        if exact:
            st.num.add_ge(fe - pos - n)
        # positioned reads beyond i64 fail
        st.num.add_ge(Lin((1 << 63) - 1) - fe)
        st.num.add_ge(Lin((1 << 63) - 1) - pos - n)
    content = M.mkck(ip, st, src, pos, n, Lin.sym(ip.sym(("infinite",), None, (), True)))
    if content == EMPTY:
        content = T("ck", src, I(st.num.norm(pos)), I(st.num.norm(n)))
    ip.write(st, root, path, M.setattrs(ip, st, v, pos=I(st.num.norm(pos + n)), lastn=I(n),
                                        rtotal=I(st.num.norm(M.lin(ip, st, v, "rtotal") + n))))
    if isinstance(v, A) and "any" in v.fields:
        ip.write(st, root, path, M.setattrs(ip, st, ip.read(st, root, path, None), any=K(True)))
    fill(ip, st, sl, content, n)
    outs = [(st, ok(okv))]
    ety = cs.dty.args[1] if cs.dty.args and len(cs.dty.args) > 1 else None
    es = ip.fresh(se, cs.frame, cs.block, "err", ety)
    if exact:
        v2 = ip.read(se, root, path, None)
        ps = ip.fresh(se, cs.frame, cs.block, "rpartial", None, (), True)
        ip.write(se, root, path, M.setattrs(ip, se, v2, pos=I(M.lin(ip, se, v2, "pos") + Lin.sym(ps))))
        M.slice_write(ip, se, sl)
    outs.append((se, err(ip.make(es, ety))))
    return outs


@reg("alloc::io::read::Read::read", "<olio::fs::read::ReadPos as alloc::io::read::Read>::read",
     "<olio::fs::read::ReadSlice as alloc::io::read::Read>::read", "<std::fs::File as alloc::io::read::Read>::read",
     "<&std::fs::File as alloc::io::read::Read>::read", "<alloc::boxed::Box as alloc::io::read::Read>::read",
     "<core::io::cursor::Cursor as alloc::io::read::Read>::read", "<olio::io::gather::GatheringReader as alloc::io::read::Read>::read")
def m_read(ip, cs, st):
    return read_result(ip, cs, st, ip.fullread)


def read_impl(ip, ty):
    t = ty.strip() if ty is not None else None
    if t is None or t.adt is None:
        return None
    return impl_fn(ip, "<%s as alloc::io::read::Read>::read" % t.adt)


@reg("alloc::io::read::Read::read_exact")
def m_read_exact(ip, cs, st):
    g = read_impl(ip, cs.atys[0])
    if g is not None:
        root, path = M.place(ip, st, cs.args[0])
        old = ip.fullread
        ip.fullread = True
        try:
            outs = ip.inline(cs, st, g, [R(root, path, True), cs.args[1]])
        finally:
            ip.fullread = old
        if outs is not None:
            return [(s, ok(UNIT) if isinstance(v, A) and v.variant == 0 else v) for s, v in outs]
    return read_result(ip, cs, st, True)


@reg("alloc::io::copy::copy", "std::io::copy::copy")
def m_copy_io(ip, cs, st):
    """io::copy: everything the reader delivers until its end."""
    rr, rp = M.place(ip, st, cs.args[0])
    wr, wp = M.place(ip, st, cs.args[1])
    rv = ip.read(st, rr, rp, None)
    kind = reader_kind(cs.atys[0])
    pos = M.lin(ip, st, rv, "pos")
    src = M.attr(ip, st, rv, "content")
    isf = file_like(cs.atys[1])
    for rl in ip.rules:
        f = getattr(rl, "on_copy", None)
        if f:
            f(ip, cs, st, rv, kind)

    def good(s):
        n = Lin.sym(ip.fresh(s, cs.frame, cs.block, "copied", None, (), True))
        v = ip.read(s, rr, rp, None)
        if kind == "olio::fs::read::ReadSlice":
            s.num.add_ge(M.lin(ip, s, v, "stop") - pos - n)
        x = M.mkck(ip, s, src, pos, n, Lin.sym(ip.sym(("infinite",), None, (), True)))
        for rl in ip.rules:
            f = getattr(rl, "on_write", None)
            if f:
                f(ip, cs, s, wr, wp, x, n, isf)
        ip.write(s, rr, rp, M.setattrs(ip, s, v, pos=I(pos + n)))
        do_write(ip, s, wr, wp, x, n, isf)
        return I(n)

    def bad(s):
        fail_write(ip, cs, s, wr, wp, isf)
    return M.result(ip, cs, st, UNIT, good, bad)


@reg("core::io::seek::Seek::seek", "<std::fs::File as core::io::seek::Seek>::seek", "<olio::fs::read::ReadPos as core::io::seek::Seek>::seek",
     "<&std::fs::File as core::io::seek::Seek>::seek")
def m_seek(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    sf = M.rd(ip, st, cs.args[1])
    v = ip.read(st, root, path, None)
    pos = M.lin(ip, st, v, "pos")
    end = M.lin(ip, st, v, "end")
    for rl in ip.rules:
        f = getattr(rl, "on_seek", None)
        if f:
            f(ip, cs, st, root, path, sf)

    def good(s):
        np = None
        if isinstance(sf, A) and sf.variant is not None:
            x = sf.fields.get(0)
            xl = x.lin if isinstance(x, I) else None
            ad = ip.p.adt(sf.adt)
            nm = ad["variants"][sf.variant]["name"] if ad else ["Start", "End", "Current"][sf.variant]
            if xl is not None:
                np = {"Start": xl, "End": end + xl, "Current": pos + xl}[nm]
                if nm == "End" and isinstance(v, A) and "extra" in v.fields:
                    np = None
        if np is None:
            np = Lin.sym(ip.fresh(s, cs.frame, cs.block, "seekpos", None, (), True))
        vv = ip.read(s, root, path, None)
        kw = {}
        c = M.content(ip, s, vv)
        if isinstance(c, T) and c.op == "app" and isinstance(c.args[1], O) and ip.st.info[c.args[1].id].name[0] == "partial" \
                and s.num.eq(M.clen(ip, s, c.args[0]), np):
            # back to where a failed append began: the leftover is beyond the
            # logical end and will be overwritten
            kw = dict(content=c.args[0], end=I(s.num.norm(np)), extra=K("leftover"))
        ip.write(s, root, path, M.setattrs(ip, s, vv, pos=I(s.num.norm(np)), **kw))
        return I(np)

    def bad(s):
        if reader_kind(cs.atys[0]) == "olio::fs::read::ReadPos":
            # no I/O: fails without moving
            return
        vv = ip.read(s, root, path, None)
        q = Lin.sym(ip.fresh(s, cs.frame, cs.block, "seekpos?", None, (), True))
        ip.write(s, root, path, M.setattrs(ip, s, vv, pos=I(q)))
    outs = M.result(ip, cs, st, UNIT, good, bad)
    if reader_kind(cs.atys[0]) == "olio::fs::read::ReadPos" and isinstance(sf, A) and sf.variant is not None:
        ad = ip.p.adt(sf.adt)
        if (ad["variants"][sf.variant]["name"] if ad else ["Start"][sf.variant]) == "Start":
            # only stores the position
            outs = [(s, v) for s, v in outs if isinstance(v, A) and v.variant == 0]
    return outs


@reg("core::io::seek::Seek::stream_position", "<std::fs::File as core::io::seek::Seek>::stream_position",
     "<&std::fs::File as core::io::seek::Seek>::stream_position", "core::io::seek::Seek::rewind")
def m_streampos(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    if cs.name.endswith("rewind"):
        ip.write(st, root, path, M.setattrs(ip, st, v, pos=I(0)))
        return M.result(ip, cs, st, UNIT)
    return M.result(ip, cs, st, I(M.lin(ip, st, v, "pos")))


# ------------------------------------------------------------- open options
OPEN_FLAGS = ("read", "write", "append", "truncate", "create", "create_new")
OO = "std::fs::OpenOptions"


@reg("std::fs::OpenOptions::new", "std::fs::File::options")
def m_oonew(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "oo", cs.dty)
    return one(st, A(OO, None, {f: K(False) for f in OPEN_FLAGS}, s))


@reg(*["std::fs::OpenOptions::" + f for f in OPEN_FLAGS])
def m_ooset(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    b = ip.decide(st, cs.args[1])
    ip.write(st, root, path, M.setattrs(ip, st, v, **{cs.name.split("::")[-1]: K(b)}))
    return one(st, R(root, path, True))


def opened(ip, cs, st, flags, patharg):
    for rl in ip.rules:
        f = getattr(rl, "on_open", None)
        if f:
            f(ip, cs, st, flags, patharg)
    fty = cs.dty.args[0] if cs.dty.args else None

    def good(s):
        i = ip.fresh(s, cs.frame, cs.block, "opened", fty, (("opened",),))
        end = ip.fresh(s, cs.frame, cs.block, "openend", None, (), True)
        return A(fty.adt if fty is not None and fty.adt else "std::fs::File", None, {"content": O(i), "pos": I(0), "end": I(Lin.sym(end))}, i)
    return M.result(ip, cs, st, UNIT, good)


@reg("std::fs::OpenOptions::open")
def m_ooopen(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    flags = {f: v.fields[f].x if isinstance(v, A) and isinstance(v.fields.get(f), K) else None for f in OPEN_FLAGS}
    return opened(ip, cs, st, flags, cs.args[1])


@reg("std::fs::File::open")
def m_fopen(ip, cs, st):
    return opened(ip, cs, st, dict.fromkeys(OPEN_FLAGS, False) | {"read": True}, cs.args[0])


@reg("std::fs::File::create", "std::fs::File::create_new")
def m_fcreate(ip, cs, st):
    return opened(ip, cs, st, dict.fromkeys(OPEN_FLAGS, False) | {"write": True, "create": True, "truncate": cs.name.endswith("create"),
                                                                "create_new": not cs.name.endswith("create")}, cs.args[0])


@reg("core::io::error::Error::kind")
def m_kind(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    s = ip.sym(("kind", v), cs.dty)
    return one(st, O(s))


# ---------------------------------------------------------------- tempfile
@reg("tempfile::file::tempfile_in", "tempfile::file::tempfile", "tempfile::tempfile_in")
def m_tempfile(ip, cs, st):
    fty = cs.dty.args[0] if cs.dty.args else None

    def good(s):
        i = ip.fresh(s, cs.frame, cs.block, "tmpf", fty)
        return A("std::fs::File", None, {"pos": I(0), "end": I(0), "content": EMPTY, "n": I(0)}, i)
    return M.result(ip, cs, st, UNIT, good, None)


# ------------------------------------------------------------------- olio
@reg("olio::fs::read::ReadPos::new")
def m_rp_new(ip, cs, st):
    f = cs.args[0]
    s = ip.fresh(st, cs.frame, cs.block, "rp", cs.dty)
    fv = inner_file(ip, st, f)
    return one(st, A("olio::fs::read::ReadPos", None, {"pos": I(0), "len": cs.args[1], "file": f, "content": fv}, s))


def inner_file(ip, st, f):
    """Content of the file behind an Arc<File>."""
    v = M.rd(ip, st, f)
    v = ip.get_elem(st, v, (None, "inner"), None) if isinstance(v, (A, O)) else v
    return M.content(ip, st, v)


@reg("olio::fs::read::ReadPos::tell")
def m_rp_tell(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    return one(st, I(M.lin(ip, st, v, "pos")))


@reg("olio::fs::read::ReadPos::len")
def m_rp_len(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    return one(st, I(M.lin(ip, st, v, "len")))


def mk_slice(ip, cs, st, file, content, a, b):
    s = ip.fresh(st, cs.frame, cs.block, "rs", cs.dty)
    return A("olio::fs::read::ReadSlice", None, {"pos": I(a), "start": I(a), "stop": I(b), "file": file, "content": content}, s)


@reg("olio::fs::read::ReadPos::subslice", "olio::fs::read::ReadSlice::subslice")
def m_rp_subslice(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    a, b = cs.args[1].lin, cs.args[2].lin
    if "ReadSlice" in cs.rname:
        # relative to the slice
        a, b = a + M.lin(ip, st, v, "start"), b + M.lin(ip, st, v, "start")
    for rl in ip.rules:
        f = getattr(rl, "on_subslice", None)
        if f:
            f(ip, cs, st, a, b, v)
    st.num.add_ge(b - a)
    if st.num.bot:
        return []
    return one(st, mk_slice(ip, cs, st, M.attr(ip, st, v, "file"), M.attr(ip, st, v, "content"), a, b))


@reg("olio::fs::read::ReadSlice::new")
def m_rs_new(ip, cs, st):
    f, a, b = cs.args
    for rl in ip.rules:
        h = getattr(rl, "on_subslice", None)
        if h:
            h(ip, cs, st, a.lin, b.lin, None)
    st.num.add_ge(b.lin - a.lin)
    if st.num.bot:
        return []
    return one(st, mk_slice(ip, cs, st, f, inner_file(ip, st, f), a.lin, b.lin))


@reg("olio::fs::read::ReadSlice::len")
def m_rs_len(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    st.num.add_ge(M.lin(ip, st, v, "stop") - M.lin(ip, st, v, "start"))
    return one(st, I(M.lin(ip, st, v, "stop") - M.lin(ip, st, v, "start")))


@reg("olio::fs::read::ReadSlice::tell")
def m_rs_tell(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    st.num.add_ge(M.lin(ip, st, v, "pos") - M.lin(ip, st, v, "start"))
    return one(st, I(M.lin(ip, st, v, "pos") - M.lin(ip, st, v, "start")))


@reg("olio::fs::read::ReadPos::is_empty")
def m_rp_empty(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    return one(st, B("eq", M.lin(ip, st, v, "len")))


@reg("olio::fs::read::ReadSlice::is_empty")
def m_rs_empty(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    return one(st, B("eq", M.lin(ip, st, v, "stop") - M.lin(ip, st, v, "start")))


@reg("<olio::fs::read::ReadSlice as core::clone::Clone>::clone")
def m_rs_clone(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    return one(st, M.setattrs(ip, st, v, pos=I(M.lin(ip, st, v, "start"))))


@reg("<olio::fs::read::ReadPos as core::clone::Clone>::clone")
def m_rp_clone(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    return one(st, M.setattrs(ip, st, v, pos=I(0)))


@reg("olio::fs::read::ReadSlice::mem_map")
def m_rs_map(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    a, b = M.lin(ip, st, v, "start"), M.lin(ip, st, v, "stop")
    src = M.attr(ip, st, v, "content")
    for rl in ip.rules:
        f = getattr(rl, "on_panic_cond", None)
        if f:
            f(ip, cs, st, B("ge", b - a - 1), "mapping of an empty range")
    st.num.add_ge(b - a - 1)
    if st.num.bot:
        return []

    def good(s):
        c = T("ck", src, I(s.num.norm(a)), I(s.num.norm(b - a)))
        return A("memmap::Mmap", None, {"content": c, "len": I(b - a)}, ip.sym(("copy", c, s.num.norm(b - a))))
    return M.result(ip, cs, st, UNIT, good, None)


@reg("memmap::Mmap::map")
def m_mmap(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    end = M.lin(ip, st, v, "end")
    src = M.content(ip, st, v)

    def good(s):
        c = T("ck", src, I(0), I(s.num.norm(end)))
        return A("memmap::Mmap", None, {"content": c, "len": I(end)}, ip.sym(("copy", c, s.num.norm(end))))
    return M.result(ip, cs, st, UNIT, good, None)


@reg("memmap::MmapOptions::new")
def m_mo_new(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "mo", cs.dty)
    return one(st, A("memmap::MmapOptions", None, {"hi": K(None), "lo": I(0)}, s))


@reg("memmap::MmapOptions::len")
def m_mo_len(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    ip.write(st, root, path, M.setattrs(ip, st, v, hi=cs.args[1]))
    return one(st, cs.args[0])


@reg("memmap::MmapOptions::offset")
def m_mo_off(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    ip.write(st, root, path, M.setattrs(ip, st, v, lo=cs.args[1]))
    return one(st, cs.args[0])


@reg("memmap::MmapOptions::map")
def m_mo_map(ip, cs, st):
    o = M.rd(ip, st, cs.args[0])
    v = M.rd(ip, st, cs.args[1])
    end = M.lin(ip, st, v, "end")
    src = M.content(ip, st, v)
    lo = M.attr(ip, st, o, "lo").lin
    hi = M.attr(ip, st, o, "hi")
    n = hi.lin if isinstance(hi, I) else end - lo

    def good(s):
        c = T("ck", src, I(s.num.norm(lo)), I(s.num.norm(n)))
        return A("memmap::Mmap", None, {"content": c, "len": I(n)}, ip.sym(("copy", c, s.num.norm(n))))
    return M.result(ip, cs, st, UNIT, good, None)


@reg("core::io::cursor::Cursor::new")
def m_cursor(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "cur", cs.dty)
    v = cs.args[0]
    c = M.content(ip, st, v)
    return one(st, A("core::io::cursor::Cursor", None, {"pos": I(0), "content": c, "len": I(M.length(ip, st, v)), "src": v}, s))


@reg("olio::io::gather::GatheringReader::new")
def m_gather(ip, cs, st):
    v = M.rd(ip, st, cs.args[0])
    s = ip.fresh(st, cs.frame, cs.block, "gather", cs.dty)
    seq = M.attr(ip, st, v, "seq")
    c = M.cnorm(ip, st, T("flat", seq))
    return one(st, A("olio::io::gather::GatheringReader", None, {"pos": I(0), "content": c, "len": I(M.clen(ip, st, c)), "seq": seq}, s))


# --------------------------------------------------------------------- log
@reg("<log::Level as core::cmp::PartialOrd<log::LevelFilter>>::le", "<log::Level as core::cmp::PartialOrd<log::LevelFilter>>::ge",
     "log::__private_api::enabled")
def m_log(ip, cs, st):
    M.assumptions.add("log statements have no effect on the analysed state")
    return one(st, FALSE)


@reg("log::max_level", "log::__private_api_log", "log::__private_api::log")
def m_log2(ip, cs, st):
    return one(st, ip.make(ip.sym(("log",), cs.dty), cs.dty))


# ------------------------------------------------------------------- panics
@reg("core::panicking::panic", "core::panicking::assert_failed", "core::panicking::panic_fmt", "std::panicking::begin_panic",
     "core::panicking::unreachable_display", "core::option::unwrap_failed", "core::option::expect_failed",
     "core::result::unwrap_failed", "core::panicking::panic_display", "std::process::exit")
def m_panic(ip, cs, st):
    for rl in ip.rules:
        f = getattr(rl, "on_panic", None)
        if f:
            f(ip, cs, st)
    return []


# ------------------------------------------------------------------ format
@reg("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
     "core::fmt::rt::Argument::new_upper_hex")
def m_fmtarg(ip, cs, st):
    kind = cs.name.split("new_")[-1]
    v = M.rd(ip, st, cs.args[0])
    t = cs.atys[0].strip() if cs.atys and cs.atys[0] is not None else None
    return one(st, A("fmtarg", None, {"v": v, "kind": K(kind), "ty": K((t.k, t.adt) if t is not None else ("?", None))}))


# types whose Display is their own text
TEXT_TYPES = ("alloc::string::String", "http::header::name::HeaderName", "http::method::Method")


def fmt_template(b):
    """Decode a format template: ("lit", bytes) / ("arg", index, flags, width, precision)."""
    out, i, nxt = [], 0, 0
    while i < len(b) and b[i]:
        c = b[i]
        if c < 0x80:
            out.append(("lit", bytes(b[i + 1:i + 1 + c])))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(("lit", bytes(b[i + 3:i + 3 + n])))
            i += 3 + n
        else:
            i += 1
            flags = width = prec = None
            if c & 1:
                flags = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if c & 2:
                width = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 4:
                prec = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 8:
                nxt = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 0x30:
                return None
            out.append(("arg", nxt, flags or 0, width, prec))
            nxt += 1
    return out


def fmt_content(ip, st, tpl, items):
    """Content term of formatted text."""
    d = fmt_template(tpl.b) if isinstance(tpl, C) else None
    if d is None:
        return T("fmt", tpl, *items)
    c = EMPTY
    for e in d:
        if e[0] == "lit":
            c = M.append(ip, st, c, C(e[1]))
            continue
        _, ix, flags, width, prec = e
        a = items[ix] if ix < len(items) else None
        if a is None or not isinstance(a, A) or "v" not in a.fields:
            return T("fmt", tpl, *items)
        c = M.append(ip, st, c, fmt_arg(ip, st, a, flags, width, prec))
    return c


def fmt_arg(ip, st, a, flags, width, prec):
    v, kind, (ty, adt) = a.fields["v"], a.fields["kind"].x, a.fields["ty"].x
    plain = width is None and prec is None
    if isinstance(v, I):
        k = st.num.const(v.lin)
        if k is not None and ty == "char" and kind == "display" and plain and k < 0x110000:
            return C(chr(k).encode())
        if k is not None and k >= 0 and ty in ("uint", "int") and prec is None:
            t = {"display": "%d", "debug": "%d", "lower_hex": "%x", "upper_hex": "%X"}.get(kind)
            if t is not None and not flags & (7 << 21) and not flags & (3 << 25):
                t = t % k
                w = width or 0
                if flags & (1 << 24):
                    t = t.rjust(w, "0")
                elif len(t) < w:
                    t = None
                if t is not None:
                    return C(t.encode())
    if kind == "display" and plain and not isinstance(v, (I, B, F, K)) and ty in ("str", "struct", "adt", "ref"):
        c = M.content(ip, st, v)
        if isinstance(c, C) or ty == "str" or (isinstance(v, A) and v.adt == "bytes") or adt in TEXT_TYPES:
            return c
    return T("farg", v, K(kind), K(width), K(bool(flags & (1 << 24))), K(ty))


def farg_len(ip, st, c):
    v, kind, width, zero, ty = c.args
    if isinstance(v, I):
        if ty.x == "char" and kind.x == "display" and width.x is None and st.num.entails_ge(Lin(127) - v.lin):
            return ONE
        base = {"lower_hex": 16, "upper_hex": 16, "display": 10}.get(kind.x)
        if base and width.x and ty.x == "uint" and st.num.entails_ge(Lin(base ** width.x - 1) - v.lin):
            return Lin(width.x)
    return None


@reg("core::fmt::Arguments::new")
def m_fmtargs(ip, cs, st):
    tpl = cs.args[0]
    while isinstance(tpl, R):
        tpl = M.rd(ip, st, tpl)
    arr = M.rd(ip, st, cs.args[1]) if len(cs.args) > 1 else UNIT
    items = []
    if isinstance(arr, A):
        items = [arr.fields[i] for i in sorted(k for k in arr.fields if isinstance(k, int))]
    if isinstance(arr, S) and isinstance(arr.base, tuple):
        a2 = ip.read(st, arr.base[1], arr.base[2], None)
        if isinstance(a2, A):
            items = [a2.fields[i] for i in sorted(k for k in a2.fields if isinstance(k, int))]
    return one(st, fmt_content(ip, st, tpl, items))


@reg("core::fmt::Arguments::from_str")
def m_fmtstr(ip, cs, st):
    return one(st, M.rd(ip, st, cs.args[0]))


@reg("alloc::fmt::format")
def m_format(ip, cs, st):
    x = cs.args[0]
    c = M.content(ip, st, x)
    return one(st, A("bytes", None, {"content": c, "len": I(M.clen(ip, st, c))}, ip.sym(("copy", c, ZERO))))


@reg("core::fmt::Formatter::write_str", "core::fmt::Formatter::write_fmt")
def m_fmt_write(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    x = M.content(ip, st, cs.args[1])
    for rl in ip.rules:
        f = getattr(rl, "on_fmt", None)
        if f:
            f(ip, cs, st, x)

    def good(s):
        v = ip.read(s, root, path, None)
        ip.write(s, root, path, M.setattrs(ip, s, v, content=M.append(ip, s, M.content(ip, s, v), x)))
    return M.result(ip, cs, st, UNIT, good, None)


# ------------------------------------------------------ internal iteration
def is_iter(v):
    return isinstance(v, A) and "seq" in v.fields and "idx" in v.fields


def iter_at(ip, cs, st):
    """Reference to a modelled iterator passed by value or by reference."""
    a = cs.args[0]
    if isinstance(a, (R, RS)):
        root, path, v = iter_place(ip, st, a)
        return R(root, path, True) if is_iter(v) else None
    if not is_iter(a):
        return None
    s = ip.sym(("heap", "it", cs.frame, cs.block))
    st.mem[("H", Id(s))] = a
    return R(("H", Id(s)), (), True)


def iter_step(ip, cs, st, it, ety, back=False):
    root, path, v = iter_place(ip, st, it)
    idx, n = v.fields["idx"].lin, v.fields["len"].lin
    outs = []
    s2 = st.copy()
    if ip.assume(s2, B("ge", idx - n)):
        s2.num.add_eq(idx - n)
        if not s2.num.bot:
            M.renorm(ip, s2, v.fields["seq"])
            outs.append((s2, None))
    if ip.assume(st, B("ge", n - idx - 1)):
        x = iter_item(ip, cs, st, v, n - 1 if back else idx, ety)
        ip.write(st, root, path, v.with_("len", I(n - 1)) if back else v.with_("idx", I(idx + 1)))
        outs.append((st, x))
    return outs


def clo_ref(ip, cs, st, clo, tag="f"):
    if isinstance(clo, (R, RS, F)):
        return clo
    s = ip.sym(("heap", "itclo", tag, cs.frame, cs.block))
    st.mem[("H", Id(s))] = clo
    return R(("H", Id(s)), (), True)


def split_try(ip, cs, st, v):
    """[(state, continues?, payload or residual)] of a Try value."""
    outs = []
    if isinstance(v, A) and v.variant is not None:
        if v.adt == OPT:
            return [(st, v.variant == 1, v.fields.get(0, UNIT) if v.variant == 1 else v)]
        return [(st, v.variant == 0, v.fields.get(0, UNIT) if v.variant == 0 else v)]
    return None


def item_ty(ip, cs):
    """Element type of the iterator argument of a consumer call."""
    t = cs.atys[0].strip() if cs.atys and cs.atys[0] is not None else None
    if t is None or not t.args:
        return None, None
    return t, t.args[0]


def it_item_ty(cs):
    t, e = item_ty(None, cs)
    return e


def _consume(ip, cs, st, body, fin, back=False):
    """body(s, item) -> [(state, done?, value)], fin(s) -> value at exhaustion."""
    it = iter_at(ip, cs, st)
    if it is None:
        return None
    ety = it_item_ty(cs)
    bad = []

    def stp(s):
        res = []
        for s2, x in iter_step(ip, cs, s, it, ety, back):
            if x is None:
                res.append((s2, True, fin(s2)))
                continue
            o = body(s2, x)
            if o is None:
                bad.append(1)
                return []
            res.extend(o)
        return res
    outs = ip.iterate(cs, st, stp)
    return None if bad else outs


def _acc(ip, cs, st, v):
    s = ip.sym(("heap", "itacc", cs.frame, cs.block))
    root = ("H", Id(s))
    st.mem[root] = v
    return root


def acc_take(root, s):
    return s.mem.pop(root)


@reg("core::iter::traits::iterator::Iterator::fold", "core::iter::traits::double_ended::DoubleEndedIterator::rfold")
def m_fold(ip, cs, st):
    if iter_at(ip, cs, st) is None:
        return None
    f = clo_ref(ip, cs, st, cs.args[2])
    acc = _acc(ip, cs, st, cs.args[1])

    def body(s, x):
        o = ip.call_closure(cs, s, f, [s.mem[acc], x])
        if o is None:
            return None
        res = []
        for s2, v in o:
            s2.mem[acc] = v
            res.append((s2, False, None))
        return res
    return _consume(ip, cs, st, body, lambda s: acc_take(acc, s), cs.name.endswith("rfold"))


@reg("core::iter::traits::iterator::Iterator::try_fold", "core::iter::traits::double_ended::DoubleEndedIterator::try_rfold")
def m_try_fold(ip, cs, st):
    if iter_at(ip, cs, st) is None:
        return None
    f = clo_ref(ip, cs, st, cs.args[2])
    acc = _acc(ip, cs, st, cs.args[1])
    adt = cs.dty.adt

    def body(s, x):
        o = ip.call_closure(cs, s, f, [s.mem[acc], x])
        if o is None:
            return None
        res = []
        for s2, v in o:
            sp = split_try(ip, cs, s2, v)
            if sp is None:
                return None
            for s3, go, y in sp:
                if go:
                    s3.mem[acc] = y
                    res.append((s3, False, None))
                else:
                    s3.mem.pop(acc, None)
                    res.append((s3, True, y))
        return res

    def fin(s):
        return A(adt, 1 if adt == OPT else 0, {0: acc_take(acc, s)})
    return _consume(ip, cs, st, body, fin, cs.name.endswith("try_rfold"))


@reg("core::iter::traits::iterator::Iterator::for_each")
def m_for_each(ip, cs, st):
    if iter_at(ip, cs, st) is None:
        return None
    f = clo_ref(ip, cs, st, cs.args[1])

    def body(s, x):
        o = ip.call_closure(cs, s, f, [x])
        return None if o is None else [(s2, False, None) for s2, v in o]
    return _consume(ip, cs, st, body, lambda s: UNIT)


@reg("core::iter::traits::iterator::Iterator::try_for_each")
def m_try_for_each(ip, cs, st):
    if iter_at(ip, cs, st) is None:
        return None
    f = clo_ref(ip, cs, st, cs.args[1])
    adt = cs.dty.adt

    def body(s, x):
        o = ip.call_closure(cs, s, f, [x])
        if o is None:
            return None
        res = []
        for s2, v in o:
            sp = split_try(ip, cs, s2, v)
            if sp is None:
                return None
            res.extend((s3, not go, None if go else y) for s3, go, y in sp)
        return res
    return _consume(ip, cs, st, body, lambda s: A(adt, 1 if adt == OPT else 0, {0: UNIT}))


def _test(ip, s, v):
    """[(state, truth)] of a boolean value."""
    if isinstance(v, K) and isinstance(v.x, bool):
        return [(s, v.x)]
    outs = []
    s2 = s.copy()
    if isinstance(v, B):
        if ip.assume(s2, v, True):
            outs.append((s2, True))
        if ip.assume(s, v, False):
            outs.append((s, False))
        return outs
    return [(s2, True), (s, False)]


def _search(kind):
    def m(ip, cs, st):
        if iter_at(ip, cs, st) is None:
            return None
        f = clo_ref(ip, cs, st, cs.args[1])
        start = None
        if kind == "position":
            start = M.rd(ip, st, iter_at(ip, cs, st)).fields["idx"].lin

        def body(s, x):
            arg = x
            if kind == "find":
                h = ip.sym(("heap", "itx", cs.frame, cs.block))
                s.mem[("H", Id(h))] = x
                arg = R(("H", Id(h)))
            o = ip.call_closure(cs, s, f, [arg])
            if o is None:
                return None
            res = []
            for s2, v in o:
                if kind == "find_map":
                    if isinstance(v, A) and v.variant is not None:
                        res.append((s2, v.variant == 1, v))
                        continue
                    return None
                for s3, tr in _test(ip, s2, v):
                    if kind == "all":
                        res.append((s3, not tr, FALSE))
                    elif kind == "any":
                        res.append((s3, tr, TRUE))
                    elif kind == "find":
                        res.append((s3, tr, some(x)))
                    elif kind == "position":
                        i = M.rd(ip, s3, iter_at(ip, cs, s3)).fields["idx"].lin - 1 - start
                        res.append((s3, tr, some(I(i))))
            return res
        end = {"all": TRUE, "any": FALSE}.get(kind, NONE)
        return _consume(ip, cs, st, body, lambda s: end)
    return m


for _k in ("all", "any", "find", "position", "find_map"):
    reg("core::iter::traits::iterator::Iterator::" + _k)(_search(_k))


@reg("core::iter::traits::iterator::Iterator::count", "core::iter::traits::exact_size::ExactSizeIterator::len")
def m_itcount(ip, cs, st):
    it = iter_at(ip, cs, st)
    if it is None:
        return None
    v = M.rd(ip, st, it)
    return one(st, I(v.fields["len"].lin - v.fields["idx"].lin))


@reg("core::iter::traits::iterator::Iterator::size_hint")
def m_sizehint(ip, cs, st):
    it = iter_at(ip, cs, st)
    if it is None:
        return None
    v = M.rd(ip, st, it)
    n = I(v.fields["len"].lin - v.fields["idx"].lin)
    return one(st, A("tuple", None, {0: n, 1: some(n)}))


@reg("core::iter::traits::iterator::Iterator::rev", "core::iter::traits::iterator::Iterator::by_ref")
def m_none(ip, cs, st):
    return None


# ----------------------------------------------------------- integer steps
def _int_cmp(op):
    def m(ip, cs, st):
        a, b = M.rd(ip, st, cs.args[0]), M.rd(ip, st, cs.args[1])
        if not (isinstance(a, I) and isinstance(b, I)):
            return None
        d = {"lt": b.lin - a.lin - 1, "le": b.lin - a.lin, "gt": a.lin - b.lin - 1, "ge": a.lin - b.lin}[op]
        return one(st, B("ge", d))
    return m


for _o in ("lt", "le", "gt", "ge"):
    reg("core::cmp::PartialOrd::" + _o)(_int_cmp(_o))


@reg("core::iter::range::Step::forward_unchecked", "core::iter::range::Step::forward")
def m_stepf(ip, cs, st):
    a, n = M.rd(ip, st, cs.args[0]), cs.args[1]
    if isinstance(a, I) and isinstance(n, I):
        return one(st, I(a.lin + n.lin))
    return None


@reg("core::iter::range::Step::backward_unchecked", "core::iter::range::Step::backward")
def m_stepb(ip, cs, st):
    a, n = M.rd(ip, st, cs.args[0]), cs.args[1]
    if isinstance(a, I) and isinstance(n, I):
        return one(st, I(a.lin - n.lin))
    return None
