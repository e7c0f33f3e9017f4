"""http, httparse and decoder models."""
from num import Lin, Id, ZERO, ONE
from values import *
from models import M, reg, ok, err, some, NONE, RES, OPT
from models_std import one, view_of, farg_len

M.farg_len = farg_len

HMAP = "http::header::map::HeaderMap"


def hl(ip, st, v):
    """The lines of a header map as a sequence."""
    v = M.rd(ip, st, v)
    return T("hl", O(v.id) if isinstance(v, O) else v)


def hlen(ip, st, v):
    return M.seqcount(ip, st, hl(ip, st, v))


@reg("http::header::map::HeaderMap::iter", "<&http::header::map::HeaderMap as core::iter::traits::collect::IntoIterator>::into_iter")
def m_hiter(ip, cs, st):
    seq = hl(ip, st, cs.args[0])
    s = ip.fresh(st, cs.frame, cs.block, "iter", cs.dty)
    return one(st, A("iter", None, {"seq": seq, "idx": I(0), "len": I(M.seqcount(ip, st, seq)), "byref": K(True),
                                    "pair": K(("hkey", "hval"))}, s))


@reg("http::header::map::HeaderMap::keys_len", "http::header::map::HeaderMap::len")
def m_hlen(ip, cs, st):
    n = hlen(ip, st, cs.args[0])
    if cs.name.endswith("keys_len"):
        k = Lin.sym(ip.sym(("keyslen", M.rd(ip, st, cs.args[0])), None, (), True))
        st.num.add_ge(n - k)
        return one(st, I(k))
    return one(st, I(n))


@reg("http::header::map::HeaderMap::is_empty")
def m_hempty(ip, cs, st):
    return one(st, B("eq", hlen(ip, st, cs.args[0])))


@reg("http::header::value::HeaderValue::len", "http::header::value::HeaderValue::is_empty")
def m_hvlen(ip, cs, st):
    n = M.length(ip, st, view_of(ip, cs, st, cs.args[0]))
    if cs.name.endswith("is_empty"):
        return one(st, B("eq", n))
    return one(st, I(n))


@reg("<http::header::map::Iter as core::iter::traits::iterator::Iterator>::next")
def m_hnext(ip, cs, st):
    from models_std import m_next
    return m_next(ip, cs, st)


def fold_line(ip, st, c):
    """key ": " value CRLF  ->  one more line of the map."""
    if not (isinstance(c, T) and c.op == "app" and isinstance(c.args[1], C) and c.args[1].b == b"\r\n"):
        return c
    t = []
    x = c
    for _ in range(4):
        if isinstance(x, T) and x.op == "app":
            t.append(x.args[1])
            x = x.args[0]
        elif len(t) == 3:
            t.append(x)
            x = None
        else:
            return c
    _, val, sep, key = t
    if not (isinstance(sep, C) and sep.b == b": " and isinstance(val, O) and isinstance(key, O)):
        return c
    nk, nv = ip.st.info[key.id].name, ip.st.info[val.id].name
    if nk[0] != "hkey" or nv[0] != "hval" or nk[1] != nv[1] or not st.num.eq(nk[2], nv[2]):
        return c
    seq, idx = nk[1], nk[2]
    last, pre = x, None
    if isinstance(x, T) and x.op == "app":
        pre, last = x.args
    m = T("pre", seq, I(st.num.norm(idx + 1)))
    if isinstance(last, T) and last.op == "pre" and last.args[0] == seq and st.num.eq(last.args[1].lin, idx):
        return m if pre is None else T("app", pre, m)
    if st.num.eq(idx, ZERO):
        return m if x is None or x == EMPTY else T("app", x, m)
    return c


M.fold_line = fold_line


# ------------------------------------------------------------- reading side
@reg("httparse::parse_headers")
def m_parse_headers(ip, cs, st):
    sl = view_of(ip, cs, st, cs.args[0])
    c = M.content(ip, st, sl)
    seq = T("heads", c)
    M.assumptions.add("httparse yields the header lines of its input in order")
    for rl in ip.rules:
        f = getattr(rl, "on_parse_headers", None)
        if f:
            f(ip, cs, st, sl, c)
    st_p, st_e = st.copy(), st.copy()
    n = Lin.sym(ip.fresh(st, cs.frame, cs.block, "psize", None, (), True))
    st.num.add_ge(M.length(ip, st, sl) - n)
    s = ip.sym(("headsobj", c))
    st.mem[("H", Id(s))] = A("alloc::vec::Vec", None, {"seq": seq, "len": I(M.seqcount(ip, st, seq)), "content": seq, "flat": T("flat", seq)}, s)
    sty = cs.dty.args[0] if cs.dty.args else None
    adt = sty.adt if sty is not None else "httparse::Status"
    full = A(adt, 0, {0: A("tuple", None, {0: I(n), 1: R(("H", Id(s)))})})
    ety = cs.dty.args[1] if cs.dty.args and len(cs.dty.args) > 1 else None
    ev = ip.make(ip.fresh(st_e, cs.frame, cs.block, "perr", ety), ety)
    return [(st, ok(full)), (st_p, ok(A(adt, 1, {}))), (st_e, err(ev))]


def typed_parse(ip, cs, st, content):
    t = cs.dty.args[0] if cs.dty.args else None

    def good(s):
        i = ip.fresh(s, cs.frame, cs.block, "parsed", t)
        if t is not None and t.is_int():
            return I(Lin.sym(i))
        return A(t.adt if t is not None and t.adt else "?", None, {"from": content, "content": content}, i)
    return M.result(ip, cs, st, UNIT, good, None, M.argprov(ip, st, cs))


@reg("http::header::value::HeaderValue::from_bytes", "http::header::value::HeaderValue::from_str",
     "http::header::name::HeaderName::from_bytes")
def m_hv_from(ip, cs, st):
    return typed_parse(ip, cs, st, M.content(ip, st, view_of(ip, cs, st, cs.args[0])))


@reg("str::parse", "core::str::traits::FromStr::from_str")
def m_parse(ip, cs, st):
    if cs.key is not None:
        g = ip.p.lookup(cs.key, cs.fn.facts)
        if g is not None and g.local:
            return None
    t = cs.dty.args[0] if cs.dty.args else None
    if t is not None and t.adt and t.adt.startswith("http::"):
        return typed_parse(ip, cs, st, M.content(ip, st, view_of(ip, cs, st, cs.args[0])))
    return None


@reg("<http::uri::Uri as core::convert::TryFrom<&[u8]>>::try_from", "<http::uri::Uri as core::convert::TryFrom<&str>>::try_from",
     "http::method::Method::from_bytes", "http::status::StatusCode::from_bytes",
     "<http::method::Method as core::convert::TryFrom<&[u8]>>::try_from", "<http::status::StatusCode as core::convert::TryFrom<&[u8]>>::try_from")
def m_http_from(ip, cs, st):
    return typed_parse(ip, cs, st, M.content(ip, st, view_of(ip, cs, st, cs.args[0])))


@reg("http::header::name::HeaderName::from_static", "http::header::value::HeaderValue::from_static")
def m_from_static(ip, cs, st):
    c = M.content(ip, st, view_of(ip, cs, st, cs.args[0]))
    return one(st, A(cs.dty.adt, None, {"from": c, "content": c}, ip.sym(("static", cs.dty.adt, c))))


@reg("http::header::value::HeaderValue::as_bytes")
def m_hv_bytes(ip, cs, st):
    return one(st, view_of(ip, cs, st, cs.args[0]))


@reg("http::header::value::HeaderValue::to_str")
def m_hv_str(ip, cs, st):
    v = view_of(ip, cs, st, cs.args[0])
    return M.result(ip, cs, st, v, None, None, M.argprov(ip, st, cs))


@reg("http::header::map::HeaderMap::with_capacity", "http::header::map::HeaderMap::new",
     "<http::header::map::HeaderMap as core::default::Default>::default")
def m_hmnew(ip, cs, st):
    s = ip.fresh(st, cs.frame, cs.block, "hmap", cs.dty)
    return one(st, A(HMAP, None, {"lines": EMPTY}, s))


def origin_elem(ip, v, idx):
    """Symbol of the parsed header whose field idx the value was made from."""
    c = v.fields.get("from") if isinstance(v, A) else None
    if isinstance(c, O):
        nm = ip.st.info[c.id].name
        if nm[0] == "deref":
            nm = ip.st.info[int(nm[1])].name
        if nm[0] == "fld" and nm[3] == idx:
            return int(nm[1])
    return None


@reg("http::header::map::HeaderMap::append", "http::header::map::HeaderMap::insert", "http::header::map::HeaderMap::try_append")
def m_happend(ip, cs, st):
    root, path = M.place(ip, st, cs.args[0])
    v = ip.read(st, root, path, None)
    for rl in ip.rules:
        f = getattr(rl, "on_header_add", None)
        if f:
            f(ip, cs, st, root, path, cs.args[1], cs.args[2], cs.name.endswith("insert"))
    lines = v.fields.get("lines", O(v.base) if v.base is not None else v) if isinstance(v, A) else v
    a, b = origin_elem(ip, cs.args[1], 0), origin_elem(ip, cs.args[2], 1)
    if a is not None and a == b and cs.name.endswith("append"):
        nl = M.append(ip, st, lines, O(a))
    else:
        nl = O(ip.sym(("hadd", cs.name.split("::")[-1], lines, cs.args[1], cs.args[2])))
    ip.write(st, root, path, M.setattrs(ip, st, v, lines=nl))
    return M.fresh_result(ip, cs, st)


# ----------------------------------------------------------------- decoders
DECODERS = ("flate2::gz::read::GzDecoder::new", "flate2::gz::read::MultiGzDecoder::new", "flate2::deflate::read::DeflateDecoder::new",
            "flate2::zlib::read::ZlibDecoder::new", "brotli_decompressor::reader::Decompressor::new", "brotli::Decompressor::new",
            "flate2::gz::bufread::GzDecoder::new", "flate2::deflate::bufread::DeflateDecoder::new")


def reader_range(ip, st, r):
    """(content, lo, length or None) a reader value will deliver."""
    v = M.rd(ip, st, r)
    pos = M.lin(ip, st, v, "pos")
    c = M.attr(ip, st, v, "content")
    t = v.adt if isinstance(v, A) else (ip.st.info[v.id].ty.adt if isinstance(v, O) and ip.st.info[v.id].ty else None)
    if t == "olio::fs::read::ReadSlice":
        return c, pos, M.lin(ip, st, v, "stop") - pos
    return c, pos, None


@reg(*DECODERS)
def m_decnew(ip, cs, st):
    kind = cs.rname.split("::")[-2]
    M.assumptions.add("flate2 and brotli decoders report a truncated stream as an error")
    c, lo, n = reader_range(ip, st, cs.args[0])
    s = ip.fresh(st, cs.frame, cs.block, "dec", cs.dty)
    src = T("decoded", K(kind), c, I(st.num.norm(lo)), I(st.num.norm(n)) if n is not None else K(None))
    return one(st, A(cs.dty.adt, None, {"dec": K(kind), "inner": cs.args[0], "pos": I(0), "content": src}, s))


def find_reader(ip, st, a, d=0):
    """The stream a (possibly wrapped) reader delivers: (root, path, value)."""
    root, path = M.place(ip, st, a)
    v = ip.nv(st, ip.read(st, root, path, None))
    if isinstance(v, A) and ("dec" in v.fields or "pos" in v.fields):
        return root, path, v
    if isinstance(v, A) and d < 4:
        for k, x in v.fields.items():
            if isinstance(x, (A, R)):
                if isinstance(x, R):
                    r = find_reader(ip, st, x, d + 1)
                else:
                    r = find_reader(ip, st, R(root, tuple(path) + ((v.variant, k),), True), d + 1)
                if r is not None:
                    return r
    return None
