"""Decoding of response bodies: C31 (body-image-futio)."""
from common import *
from interp import Rule, reached

CRATE = "body_image_futio"
ENC = "body_image::Encoding"
DECODERS = {"GzDecoder": "Gzip", "MultiGzDecoder": "Gzip", "DeflateDecoder": "Deflate", "Decompressor": "Brotli"}
OPT, RES = "core::option::Option", "core::result::Result"


def some(v):
    return A(OPT, 1, {0: v})


NONE = A(OPT, 0, {})


def public(ctx, name):
    r = [f for f in ctx.local_fns((CRATE,)) if f.name.split("::")[-1] == name and f.pub]
    if len(r) != 1:
        raise CheckError("function %s not found" % name)
    return r[0]


def enc_names(ctx):
    return [v["name"] for v in ctx.adt(ENC)["variants"]]


class Lists(Rule):
    """Lists of encodings with known items, iterators over them, and decoders
    with known kind. Operations on them that are not known set "lost"."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.names = enc_names(ctx)

    def mk(self, ip, items):
        return A("alloc::vec::Vec", None, {"list": K(tuple(items))}, ip.sym(("encodings", tuple(items))))

    def trace(self, ip, st, v):
        place = None
        while isinstance(v, R):
            place = v
            v = ip.read(st, v.root, v.path, None)
        return place, v

    def name(self, ip, st, v):
        v = ip.nv(st, self.trace(ip, st, v)[1])
        if isinstance(v, A) and v.adt == ENC and v.variant is not None:
            return self.names[v.variant]
        return None

    def item(self, ip, st, n):
        root = ("H", Id(ip.sym(("encoding", n))))
        st.mem[root] = A(ENC, self.names.index(n), {})
        return R(root, (), False)

    def on_call(self, ip, cs, st):
        o = self.known(ip, cs, st)
        if o is None and "fmt" not in (cs.rname or "") and not self.own(ip, cs):
            for a in cs.args:
                v = self.trace(ip, st, a)[1]
                if isinstance(v, A) and ("list" in v.fields or v.adt in ("listiter", "hylist", "hytext", "rawheader")):
                    st.setg("lost", K(cs.rname))
        return o

    def on_default(self, ip, cs, st):
        if "fmt" not in (cs.rname or ""):
            for a in cs.args:
                for v in reached(ip, st, a):
                    if "list" in v.fields or v.adt in ("listiter", "hylist", "hytext", "rawheader"):
                        st.setg("lost", K(cs.rname))

    def own(self, ip, cs):
        g = ip.p.lookup(cs.key, cs.fn.facts) if cs.key else None
        return g is not None and g.name.lstrip("<&").split("::")[0] in ip.p.crates

    def known(self, ip, cs, st):
        r = cs.rname or ""
        m = (cs.name or "").split("::")[-1]
        if "log::LevelFilter" in r:
            return [(st, FALSE)]
        if cs.args:
            place, v = self.trace(ip, st, cs.args[0])
            if isinstance(v, A) and "list" in v.fields:
                return self.list_op(ip, cs, st, place, v, r.split("::")[-1])
            if isinstance(v, A) and v.adt == "listiter":
                return self.iter_op(ip, cs, st, place, v, m)
        if r == "body_image::BodyImage::reader":
            a = cs.args[0]
            return [(st, A("bodyreader", None, {"of": K((a.root, a.path) if isinstance(a, R) else None)}))]
        if r.startswith(("flate2::", "brotli")) and r.endswith("::new") and r.split("::")[-2] in DECODERS:
            rd = cs.args[0]
            return [(st, A("decoder", None, {"kind": K(DECODERS[r.split("::")[-2]]), "of": rd.fields["of"] if isinstance(rd, A) and "of" in rd.fields else K(None)}))]
        if r == "body_image::BodyImage::read_from":
            d = self.trace(ip, st, cs.args[0])[1]
            se = st.copy()
            e = ip.fresh(se, cs.frame, cs.block, "undecodable", cs.dty.args[1])
            k, of = (d.fields["kind"], d.fields["of"]) if isinstance(d, A) and "kind" in d.fields else (K(None), d.fields["of"] if isinstance(d, A) and "of" in d.fields else K(None))
            return [(st, A(RES, 0, {0: A("decoded", None, {"kind": k, "of": of}, ip.sym(("decoded", k, of)))})), (se, A(RES, 1, {0: O(e)}))]
        return None

    def iter_over(self, st, cs, kind, items):
        g = ("pos", cs.frame, cs.block)
        st.setg(g, K((0, len(items))))
        return A("listiter", None, {"kind": K(kind), "items": K(tuple(items)), "pos": K(g), "rev": K(False), "by": K(())})

    def list_op(self, ip, cs, st, place, v, m):
        l = v.fields["list"].x

        def put(items, ret=UNIT):
            if len(items) > 6:
                raise CheckError("analysis limit: list of encodings grows")
            ip.write(st, place.root, place.path, self.mk(ip, items))
            return [(st, ret)]

        def const(a):
            return st.num.const(a.lin) if isinstance(a, I) else None
        if m in ("last", "first"):
            return [(st, some(self.item(ip, st, l[-1 if m == "last" else 0])) if l else NONE)]
        if m in ("deref", "deref_mut", "as_slice", "as_ref", "as_mut_slice", "borrow") and place is not None:
            return [(st, place)]
        if m in ("iter", "into_iter"):
            it = self.iter_over(st, cs, "enc", l)
            return [(st, it if cs.atys[0].k == "ref" else it.with_("by", K((("copied", None),))))]
        if m == "push":
            x = self.name(ip, st, cs.args[1])
            return put(l + (x,)) if x else None
        if m == "pop":
            if not l:
                return [(st, NONE)]
            return put(l[:-1], some(A(ENC, self.names.index(l[-1]), {})))
        if m == "insert":
            i, x = const(cs.args[1]), self.name(ip, st, cs.args[2])
            return put(l[:i] + (x,) + l[i:]) if i is not None and x else None
        if m == "remove":
            i = const(cs.args[1])
            return put(l[:i] + l[i + 1:], A(ENC, self.names.index(l[i]), {})) if i is not None and i < len(l) else None
        if m == "truncate":
            i = const(cs.args[1])
            return put(l[:i]) if i is not None else None
        if m == "clear":
            return put(())
        if m == "reverse":
            return put(l[::-1])
        if m == "get":
            i = const(cs.args[1])
            return [(st, some(self.item(ip, st, l[i])) if i < len(l) else NONE)] if i is not None else None
        if m == "index":
            i = const(cs.args[1])
            return [(st, self.item(ip, st, l[i]))] if i is not None and i < len(l) else None
        if m in ("append", "extend_from_slice"):
            pl, w = self.trace(ip, st, cs.args[1])
            x = self.items_of(st, w)
            if x is None:
                return None
            if m == "append":
                ip.write(st, pl.root, pl.path, self.mk(ip, ()))
            return put(l + x)
        if m == "extend":
            w = self.trace(ip, st, cs.args[1])[1]
            x = self.items_of(st, w)
            if x is not None:
                return put(l + x)
            if isinstance(w, A) and w.adt == "listiter":
                outs = []
                for s, r in self.drain(ip, cs, st, w, "collect") or ():
                    ip.write(s, place.root, place.path, self.mk(ip, l + r.fields["list"].x))
                    outs.append((s, UNIT))
                return outs or None
            return None
        if m in ("clone", "to_vec", "to_owned"):
            return [(st, self.mk(ip, l))]
        if m == "len":
            return [(st, I(len(l)))]
        if m == "is_empty":
            return [(st, B("eq", Lin(len(l))))]
        if m == "contains":
            x = self.name(ip, st, cs.args[1])
            return [(st, B("eq", Lin(0 if x in l else 1)))] if x else None
        return None

    def items_of(self, st, w):
        return w.fields["list"].x if isinstance(w, A) and "list" in w.fields else None

    def yielded(self, ip, st, kind, x):
        return self.item(ip, st, x)

    def iter_op(self, ip, cs, st, place, v, m):
        if m in ("into_iter", "by_ref"):
            return [(st, cs.args[0])]
        if m == "rev":
            return [(st, v.with_("rev", K(not v.fields["rev"].x)))]
        if m in ("map", "filter_map", "filter", "inspect", "cloned", "copied"):
            c = cs.args[1] if len(cs.args) > 1 else None
            return [(st, v.with_("by", K(v.fields["by"].x + ((m, c),))))]
        if m in ("next", "next_back"):
            return [(s, some(x) if x is not None else NONE) for s, x in self.pull(ip, cs, st, v, m == "next_back")]
        if m in ("for_each", "any", "all", "fold", "collect", "last", "count", "find"):
            return self.drain(ip, cs, st, v, m)
        return None

    def pull(self, ip, cs, st, v, back=False):
        """Next item, in each outcome; None at the end."""
        g = v.fields["pos"].x
        l = v.fields["items"].x
        lo, hi = st.g(g)
        if lo >= hi:
            return [(st, None)]
        if v.fields["rev"].x != back:
            x, hi = l[hi - 1], hi - 1
        else:
            x, lo = l[lo], lo + 1
        st.setg(g, K((lo, hi)))
        cur = [(st, self.yielded(ip, st, v.fields["kind"].x, x))]
        outs = []
        for m, c in v.fields["by"].x:
            nxt = []
            for s, y in cur:
                if c is None:
                    nxt.append((s, ip.read(s, y.root, y.path, None) if isinstance(y, R) else y))
                    continue
                for s2, o in ip.call_closure(cs, s, c, [self.ref(ip, s, y, x) if m in ("filter", "inspect") else y]):
                    if m in ("map", "inspect"):
                        nxt.append((s2, o if m == "map" else y))
                        continue
                    for s3, b, w in self.split(ip, s2, o, m == "filter"):
                        if b:
                            nxt.append((s3, y if m == "filter" else w))
                        else:
                            outs += self.pull(ip, cs, s3, v, back)
            cur = nxt
        return outs + cur

    def ref(self, ip, st, y, x):
        rt = ("H", Id(ip.sym(("itemref", x))))
        st.mem[rt] = y
        return R(rt, (), False)

    def split(self, ip, st, o, isbool):
        """Outcomes of a condition or an option."""
        o = ip.nv(st, o)
        if not isbool:
            if not isinstance(o, A) or o.variant is None:
                raise CheckError("analysis limit: unknown choice of items")
            return [(st, o.variant == 1, o.fields.get(0))]
        outs = []
        for b in (True, False):
            s = st.copy()
            if ip.assume(s, o, b):
                outs.append((s, b, None))
        return outs

    def drain(self, ip, cs, st, v, m):
        first = {"fold": cs.args[1] if len(cs.args) > 1 else None, "last": NONE, "count": 0, "collect": ()}.get(m)
        work, done = [(st, first)], []
        while work:
            s, acc = work.pop()
            for s2, x in self.pull(ip, cs, s, v):
                if x is None:
                    end = {"fold": acc, "last": acc, "for_each": UNIT, "any": FALSE, "all": TRUE, "find": NONE}.get(m)
                    done.append((s2, I(acc) if m == "count" else self.mk(ip, acc) if m == "collect" else end))
                elif m == "count":
                    work.append((s2, acc + 1))
                elif m == "last":
                    work.append((s2, some(x)))
                elif m == "collect":
                    n = self.name(ip, s2, x)
                    if n is None:
                        return None
                    work.append((s2, acc + (n,)))
                else:
                    for s3, o in ip.call_closure(cs, s2, cs.args[-1], [acc, x] if m == "fold" else [self.ref(ip, s2, x, "found")] if m == "find" else [x]):
                        if m in ("any", "all", "find"):
                            for s4, b, _ in self.split(ip, s3, o, True):
                                if b == (m != "all"):
                                    done.append((s4, TRUE if m == "any" else FALSE if m == "all" else some(x)))
                                else:
                                    work.append((s4, acc))
                        else:
                            work.append((s3, o if m == "fold" else None))
        return done


def c31(ctx):
    undo(ctx)
    whole(ctx)
    found(ctx)
    ctx.floor("decoders", 3)
    if not ctx.counts.get("headers"):
        ctx.notes.append("undecided: values of the encoding headers")


def undo(ctx):
    """decompress: each encoding by its own decoder, others refused."""
    f = public(ctx, "decompress")
    names = enc_names(ctx)
    for i, n in enumerate(names):
        rule = Lists(ctx)
        ip = ctx.ip([rule], max_disj=100)

        def setup(ip, st, args):
            for j, t in enumerate(f.locals[1:f.argc + 1]):
                if t.adt == ENC:
                    args[j] = A(ENC, i, {})
        ex, args = ctx.entry(ip, f, setup)
        body = [a for a, t in zip(args, f.locals[1:]) if t.k == "ref" and t.to.adt == "body_image::BodyImage"][0]
        for e in ex:
            r = ip.nv(e.state, e.ret)
            k = "%s / %s" % (f.name, n)
            if not isinstance(r, A) or r.variant is None:
                ctx.notes.append("undecided: %s" % k)
                continue
            if r.variant == 1:
                ctx.ob(k, True)
                continue
            d = ip.nv(e.state, r.fields[0])
            ctx.count("decoders")
            ctx.ob(k, n in DECODERS.values(), "passes off a body of unsupported encoding %s as decoded" % n, f.span)
            if n in DECODERS.values():
                got = d.fields["kind"].x if isinstance(d, A) and d.adt == "decoded" else None
                ctx.ob(k, got == n, "%s is undone with the decoder of %s" % (n, got), f.span)
                ctx.ob(k, got is None or d.fields["of"].x == (body.root, body.path), "the body decoded is not the one given", f.span)


def field(ctx, path, name):
    return [i for i, x in enumerate(ctx.adt(path)["variants"][0]["fields"]) if x[0] == name][0]


def whole(ctx):
    """decode_res_body: all or nothing."""
    f = public(ctx, "decode_res_body")
    fe = public(ctx, "find_encodings")
    di = ctx.adt("body_image::Dialog")["variants"][0]["fields"]
    epi = [i for i, x in enumerate(di) if x[1].split("::")[-1] == "Epilog"]
    if len(epi) != 1:
        ctx.notes.append("undecided: parts of a dialog")
        return
    epi = epi[0]
    fb, fd = field(ctx, "body_image::Epilog", "res_body"), field(ctx, "body_image::Epilog", "res_decoded")
    names = enc_names(ctx)
    comps = [None] + [n for n in names if n not in ("Chunked", "Identity")]
    for chunked in (False, True):
        for comp in comps:
            items = (("Chunked",) if chunked else ()) + ((comp,) if comp else ())

            class Rl(Lists):
                def on_call(self, ip, cs, st):
                    if cs.key and ip.p.lookup(cs.key, cs.fn.facts) is fe:
                        ctx.count("lists")
                        return [(st, self.mk(ip, items))]
                    return Lists.on_call(self, ip, cs, st)
            ip = ctx.ip([Rl(ctx)], max_disj=100)
            pre = {}

            def setup(ip, st, args):
                root = args[0].root
                b, d, e = O(ip.sym(("body0",))), O(ip.sym(("decoded0",))), ip.sym(("epilog0",))
                st.mem[root] = A("body_image::Dialog", None, {epi: A("body_image::Epilog", None, {fb: b, fd: d}, e)}, ip.sym(("dialog0",)))
                st.setg("lost", K(None))
                pre.update(root=root, v=st.mem[root], b=b, d=d)
            ex, _ = ctx.entry(ip, f, setup)
            for e in ex:
                st = e.state
                r = ip.nv(st, e.ret)
                v = ip.read(st, pre["root"], (), None)
                k = "%s / %s" % (f.name, " ".join(items) or "not encoded")
                ep = ip.nv(st, ip.get_elem(st, v, (None, epi), None))
                b, d = ip.nv(st, ip.get_elem(st, ep, (None, fb), None)), ip.nv(st, ip.get_elem(st, ep, (None, fd), None))
                if not isinstance(r, A) or r.variant is None or st.g("lost"):
                    ctx.notes.append("undecided: %s (%s)" % (k, st.g("lost")))
                    continue
                ctx.count("outcomes")
                if r.variant == 1:
                    ctx.ob(k, b == pre["b"] and d == pre["d"], "fails, but has changed the dialog", f.span)
                    continue
                done = ip.decide(st, r.fields[0])
                got = d.fields["list"].x if isinstance(d, A) and "list" in d.fields else None
                ctx.ob(k, got is not None and set(items) <= set(got), "the encodings removed are not recorded: %s" % (got,), f.span)
                ctx.ob(k, got is None or set(got) <= set(items) | {"Identity"}, "records encodings not removed: %s" % (got,), f.span)
                if comp is None:
                    ctx.ob(k, b == pre["b"] and done is False, "a body without compression is changed, or said to be decoded", f.span)
                else:
                    ctx.ob(k, done is True and b != pre["b"], "a compressed body is left as it is, with success", f.span)
                    kd = b.fields["kind"].x if isinstance(b, A) and b.adt == "decoded" else None
                    ctx.ob(k, b == pre["b"] or kd == comp, "the body of the response is not the decoded one (%s)" % kd, f.span)
                    if kd:
                        ctx.ob(k, b.fields["of"].x == (pre["root"], ((None, epi), (None, fb))), "the body decoded is not that of the response", f.span)


# header values looked at: hyperx variant, text of an extension, and what it stands for
VALUES = {"gzip": ("Gzip", None, "Gzip"), "x-gzip": ("EncodingExt", b"x-gzip", "Gzip"), "deflate": ("Deflate", None, "Deflate"),
          "br": ("Brotli", None, "Brotli"), "compress": ("Compress", None, "Compress"), "identity": ("Identity", None, None),
          "chunked": ("Chunked", None, "Chunked"), "unknown": ("EncodingExt", b"unknown", "?"),
          "x-zip": ("EncodingExt", b"x-zip", "?"), "gzip-2": ("EncodingExt", b"gzip-2", "?")}


class Headers(Lists):
    """The two encoding headers, each with known values."""

    def yielded(self, ip, st, kind, x):
        if kind == "enc":
            return self.item(ip, st, x)
        root = ("H", Id(ip.sym(("hyitem", x))))
        var, ext, _ = VALUES[x]
        st.mem[root] = A(self.hy, self.hn.index(var), {0: A("hytext", None, {"t": K(ext)})} if ext else {})
        return R(root, (), False)

    def known(self, ip, cs, st):
        n, r = cs.name or "", cs.rname or ""
        m = n.split("::")[-1]
        if r.startswith("http::header::map::HeaderMap::") and m == "get_all":
            k = header_name(ip, st, self.trace(ip, st, cs.args[1])[1])
            return [(st, A("rawheader", None, {"of": K(k)}))] if k else None
        if r in ("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity") and cs.dty.args and cs.dty.args[0].adt == ENC:
            g = ("list", cs.frame, cs.block)
            st.setg(g, K(()))
            return [(st, A("alloc::vec::Vec", None, {"list": K(g)}))]
        place, v = self.trace(ip, st, cs.args[0]) if cs.args else (None, None)
        adt = v.adt if isinstance(v, A) else None
        if adt == "rawheader":
            l = st.g(v.fields["of"].x)
            if m == "parse_header" and l == "unparsable":
                return [(st, A(RES, 1, {0: O(ip.fresh(st, cs.frame, cs.block, "unparsable", cs.dty.args[1]))}))]
            if m == "parse_header":
                return [(st, A(RES, 0, {0: A("hylist", None, {"of": v.fields["of"]})}))]
            return None
        if adt == "hylist":
            l = st.g(v.fields["of"].x)
            if m in ("deref", "as_ref", "as_slice"):
                return [(st, place if place is not None else v)]
            if m in ("iter", "into_iter"):
                return [(st, self.iter_over(st, cs, "hy", l))]
            if m in ("len", "is_empty"):
                return [(st, I(len(l)) if m == "len" else B("eq", Lin(len(l))))]
            if m in ("index", "get"):
                i = st.num.const(cs.args[1].lin) if isinstance(cs.args[1], I) else None
                if i is None or i >= len(l) and m == "index":
                    return None
                return [(st, self.yielded(ip, st, "hy", l[i]) if m == "index" else some(self.yielded(ip, st, "hy", l[i])) if i < len(l) else NONE)]
            return None
        if adt == "hytext":
            if m in ("deref", "as_str", "as_ref", "borrow"):
                return [(st, place if place is not None else v)]
            if m in ("eq", "ne", "eq_ignore_ascii_case"):
                o = self.trace(ip, st, cs.args[1])[1]
                if isinstance(o, C):
                    a, b = o.b, v.fields["t"].x
                    same = a.lower() == b.lower() if m == "eq_ignore_ascii_case" else a == b
                    return [(st, B("eq", Lin(0 if same == (m != "ne") else 1)))]
            if m in ("starts_with", "ends_with", "contains"):
                o = self.trace(ip, st, cs.args[1])[1]
                if isinstance(o, I) and st.num.const(o.lin) is not None:
                    o = C(chr(int(st.num.const(o.lin))).encode())
                if isinstance(o, C):
                    t = v.fields["t"].x
                    return [(st, B("c", {"starts_with": t.startswith, "ends_with": t.endswith, "contains": t.__contains__}[m](o.b)))]
            if m in ("to_lowercase", "to_ascii_lowercase", "trim", "to_string", "to_owned", "clone"):
                t = v.fields["t"].x
                w = A("hytext", None, {"t": K(t.lower() if "lower" in m else t.strip() if m == "trim" else t)})
                if m == "trim":
                    root = ("H", Id(ip.sym(("trimmed", cs.frame, cs.block))))
                    st.mem[root] = w
                    w = R(root, (), False)
                return [(st, w)]
            return None
        return Lists.known(self, ip, cs, st)

    def items_of(self, st, w):
        x = Lists.items_of(self, st, w)
        return st.g(x) if x and x[0] == "list" else x

    def list_op(self, ip, cs, st, place, v, m):
        # contents in a ghost, so that states with different ones are kept apart
        g = v.fields["list"].x
        if not g or g[0] != "list":
            return Lists.list_op(self, ip, cs, st, place, v, m)
        o = Lists.list_op(self, ip, cs, st, place, v.with_("list", K(st.g(g))), m)
        for s, _ in o or ():
            w = ip.read(s, place.root, place.path, None) if isinstance(place, R) else None
            if isinstance(w, A) and "list" in w.fields and w.fields["list"].x != g:
                s.setg(g, w.fields["list"])
                ip.write(s, place.root, place.path, A("alloc::vec::Vec", None, {"list": K(g)}))
        return o


def header_name(ip, st, v):
    """The standard header meant by a constant (http 0.2 numbers them)."""
    while isinstance(v, A) and v.fields.get(0) is not None:
        v = v.fields[0]
    return {67: "te", 20: "ce"}.get(v.variant) if isinstance(v, A) else None


def found(ctx):
    """find_encodings: what each value of the headers stands for."""
    f = public(ctx, "find_encodings")
    hy = [a for a in ctx.p.adts if a.startswith("hyperx::") and a.endswith("::Encoding")]
    if len(hy) != 1:
        raise CheckError("header encodings not found")
    rule = Headers(ctx)
    rule.hy = hy[0]
    rule.hn = [v["name"] for v in ctx.p.adts[hy[0]]["variants"]]
    vs = sorted(VALUES)
    ces = [()] + [(a,) for a in vs if a != "chunked"] + ["unparsable"]
    vs = [a for a in vs if a not in ("chunked", "x-zip", "gzip-2")]
    ces += [(a, b) for a in vs for b in vs]
    tes = [(), ("chunked",), ("gzip", "chunked"), ("unknown", "chunked"), "unparsable"]
    for te in tes:
        ip = ctx.ip([rule], max_disj=4000, max_parts=4000)

        def setup(ip, st, args):
            outs = []
            for ce in ces:
                s = st.copy()
                for g, v in (("te", te), ("ce", ce), ("lost", None)):
                    s.setg(g, K(v))
                outs.append(s)
            return outs
        try:
            ex, _ = ctx.entry(ip, f, setup)
        except CheckError as x:
            ctx.notes.append("undecided: %s / %s (%s)" % (f.name, te, x))
            continue
        for e in ex:
            ce = e.state.g("ce")
            v = ip.nv(e.state, e.ret)
            got = rule.items_of(e.state, v)
            if got is None or e.state.g("lost"):
                ctx.notes.append("undecided: %s / %s, %s (%s)" % (f.name, te, ce, e.state.g("lost")))
                continue
            ctx.count("headers")
            bad = "unparsable" in (te, ce)
            # in order of application: content encodings first
            app = [VALUES[x][2] for l in (ce, te) if l != "unparsable" for x in l]
            app = [x for x in app if x]
            extra = [x for x in dict.fromkeys(got) if x != "?" and got.count(x) > app.count(x)]
            ctx.ob("%s / encodings found" % f.name, not extra, "%s is found where the headers say %s" % (", ".join(extra), list(ce) + list(te)), f.span)
            if bad or "?" in app:
                # neither the list nor the caller says so
                ctx.ob("%s / %s" % (f.name, "unparsable header" if bad else "unknown encoding"), got and got[-1] == "?",
                       "is left out, so that the body counts as decoded", f.span)
                continue
            comp = [x for x in app if x != "Chunked"]
            k = "%s / %s" % (f.name, ", ".join(list(ce) + list(te)) or "none")
            ctx.ob(k, ("Chunked" in got) == ("Chunked" in app), "chunked is found: %s, present: %s" % ("Chunked" in got, "Chunked" in app), f.span)
            gc = [x for x in got if x != "Chunked"]
            ctx.ob(k, (gc[-1:] or [None])[0] == (comp[-1:] or [None])[0], "the compression applied last is %s, but %s is to be undone" % ((comp[-1:] or ["none"])[0], (gc[-1:] or ["none"])[0]), f.span)
            if len(comp) > 1:
                ctx.ob("%s / further compressions" % f.name, gc == comp, "are left out, so that the body counts as decoded", f.span)
            else:
                ctx.ob(k, gc == comp, "encodings %s are found as %s" % (comp, gc), f.span)
            if comp and got:
                ctx.ob(k, got[-1] != "Chunked", "chunked hides the compression", f.span)
