"""Recording of requests: C32 (body-image-futio)."""
from common import *
from interp import Rule

RES = "core::result::Result"
REC = "body_image_futio::RequestRecord"
P = "body_image_futio::"
PROLOG = "body_image::Prolog"
TRAIT = "body_image_futio::wrappers::RequestRecorder"
WAYS = {"record": "empty", "record_body": "given bytes", "record_body_image": "given image"}
PARTS = {"method": "method", "uri": "url", "headers": "req_headers"}


class Req(Rule):
    """Requests with their parts, streams with their body, and body images by
    what they hold."""

    def trace(self, ip, st, v):
        place = None
        while isinstance(v, R):
            place = v
            v = ip.read(st, v.root, v.path, None)
        return place, v

    def part(self, ip, st, kind, who):
        root = ("H", Id(ip.sym(("request part", kind, who))))
        st.mem[root] = A("reqpart", None, {"kind": K(kind)}, ip.sym(("part", kind)))
        return R(root, (), False)

    def image(self, ip, of):
        return A("image", None, {"of": K(of)}, ip.sym(("image", of)))

    def on_call(self, ip, cs, st):
        n, r = cs.name or "", cs.rname or ""
        m = n.split("::")[-1]
        a = cs.args
        if n == "core::convert::Into::into" and a and a[0] == self.given and cs.dty.adt == "bytes::bytes::Bytes":
            return [(st, A("bytes0", None, {}, ip.sym(("given bytes",))))]
        if r == "body_image::BodyImage::empty":
            return [(st, self.image(ip, "empty"))]
        if n == "core::default::Default::default" and cs.dty.adt == "body_image::BodyImage":
            return [(st, self.image(ip, "empty"))]
        if r == "hyper::body::body::Body::empty":
            return [(st, A("stream", None, {"body": self.image(ip, "empty")}, ip.sym(("stream", "empty"))))]
        if n.endswith("::StreamWrapper::new") and a or r.startswith(P + "stream::") and m == "new" and len(a) == 2 and cs.atys[0].adt == "body_image::BodyImage":
            return [(st, A("stream", None, {"body": a[0]}, ip.sym(("stream", a[0]))))]
        if r == "http::request::Builder::body":
            self.ctx.count("requests")
            se = st.copy()
            e = ip.fresh(se, cs.frame, cs.block, "invalid", cs.dty.args[1])
            return [(st, A(RES, 0, {0: A("request", None, {"body": a[1]}, ip.sym(("request", a[1])))})), (se, A(RES, 1, {0: O(e)}))]
        if not a:
            return None
        place, v = self.trace(ip, st, a[0])
        adt = v.adt if isinstance(v, A) else None
        if adt == "stream" and r.startswith("hyper::body::body::Body::") and m == "wrap_stream":
            return [(st, v)]
        if adt == "bytes0" and m in ("into", "from") and cs.dty.adt == "hyper::body::body::Body":
            return [(st, A("stream", None, {"body": self.image(ip, "given bytes")}, ip.sym(("stream", "bytes"))))]
        if adt == "request":
            if m in PARTS and r.startswith("http::request::Request::"):
                return [(st, self.part(ip, st, PARTS[m], "request"))]
            if m == "body":
                root = ("H", Id(ip.sym(("request body",))))
                st.mem[root] = v.fields["body"]
                return [(st, R(root, (), False))]
            st.setg("lost", K(r))
        if adt in ("reqpart", "image", "bytes0"):
            if m in ("clone", "to_owned"):
                return [(st, v)]
            if m in ("into", "from") and adt == "bytes0" and cs.dty.adt == "bytes::bytes::Bytes":
                return [(st, v)]
        if adt == "bytes0":
            if m in ("is_empty", "len"):
                s2 = st.copy()
                st.setg("none", K(True))
                s2.setg("none", K(False))
                if m == "is_empty":
                    return [(st, TRUE), (s2, FALSE)]
                k = Lin.sym(ip.fresh(s2, cs.frame, cs.block, "length", cs.dty, nonneg=True))
                ip.assume(s2, B("ge", k - 1))
                return [(st, I(0)), (s2, I(k))]
            if r.startswith("body_image::BodyImage::") and m == "from_slice":
                return [(st, self.image(ip, "given bytes"))]
            if m in ("slice", "split_to", "split_off", "truncate", "advance"):
                return [(st, A("bytespart", None, {}, ip.sym(("other bytes", m))))]
        if adt == "bytespart" and m == "from_slice":
            return [(st, self.image(ip, "part of the given bytes"))]
        if adt == "image":
            of = v.fields["of"].x
            if m in ("is_empty", "len") and of == "empty":
                return [(st, TRUE if m == "is_empty" else I(0))]
            if m in ("is_empty",):
                s2 = st.copy()
                st.setg("none", K(True))
                s2.setg("none", K(False))
                return [(st, TRUE), (s2, FALSE)]
            if m not in ("len", "is_ram", "is_mem_map", "drop", "fmt"):
                st.setg("lost", K(r))
        return None


def field(ctx, path, what):
    """Index of the field of a type, or of a name."""
    fs = ctx.adt(path)["variants"][0]["fields"]
    r = [i for i, x in enumerate(fs) if what(x)]
    if len(r) != 1:
        raise CheckError("fields of %s not found" % path)
    return r[0]


def c32(ctx):
    default_build(ctx)
    fs = [f for f in ctx.local_fns(("body_image_futio",)) if f.impl_trait == TRAIT]
    req = field(ctx, REC, lambda x: x[1].startswith("http::Request<"))
    pro = field(ctx, REC, lambda x: x[1].split("::")[-1] == "Prolog")
    names = {n: field(ctx, PROLOG, lambda x, n=n: x[0] == n) for n in ("method", "url", "req_headers", "req_body")}
    for f in fs:
        way = f.name.split("::")[-1]
        if way not in WAYS:
            continue
        ctx.count("ways")
        rule = Req()
        rule.ctx = ctx
        rule.given = None
        ip = ctx.ip([rule], max_disj=200)

        def setup(ip, st, args):
            st.setg("lost", K(None))
            st.setg("none", K(None))
            if way == "record_body":
                rule.given = args[1]
            if way == "record_body_image":
                args[1] = rule.image(ip, "given image")
        ex, _ = ctx.entry(ip, f, setup)
        for e in ex:
            st = e.state
            r = ip.nv(st, e.ret)
            k = f.name
            if st.g("lost") or not isinstance(r, A) or r.variant is None:
                ctx.notes.append("undecided: %s (%s)" % (k, st.g("lost")))
                ctx.ob(k, True)
                continue
            if r.variant == 1:
                ctx.ob(k, True)
                continue
            ctx.count("records")
            v = ip.nv(st, r.fields[0])
            q = ip.nv(st, ip.get_elem(st, v, (None, req), None))
            p = ip.nv(st, ip.get_elem(st, v, (None, pro), None))
            good = isinstance(q, A) and q.adt == "request"
            ctx.ob(k + " / request", good, "the request recorded is not the one built", f.span)
            if not good:
                continue
            for n in ("method", "url", "req_headers"):
                x = ip.nv(st, ip.get_elem(st, p, (None, names[n]), None))
                ctx.ob("%s / %s" % (k, n), isinstance(x, A) and x.adt == "reqpart" and x.fields["kind"].x == n,
                       "the %s recorded is not that of the request" % n, f.span)
            x = ip.nv(st, ip.get_elem(st, p, (None, names["req_body"]), None))
            s = ip.nv(st, q.fields["body"])
            sb = ip.nv(st, s.fields["body"]) if isinstance(s, A) and s.adt == "stream" else None
            ctx.ob(k + " / stream", sb is not None, "the body of the request does not come from a body image", f.span)
            if sb is None:
                continue
            h = [y.fields["of"].x if isinstance(y, A) and y.adt == "image" else None for y in (x, sb)]
            if None in h:
                ctx.notes.append("undecided: bodies of %s" % k)
                continue
            if st.g("none"):
                # nothing given: an empty image is the same
                h = ["empty" if y == WAYS[way] else y for y in h]
            want = "empty" if st.g("none") else WAYS[way]
            ctx.ob(k + " / body", h[0] == h[1], "the body recorded (%s) is not the one sent (%s)" % tuple(h), f.span)
            ctx.ob(k + " / body given", h[1] == want, "the body sent is %s instead of %s" % (h[1], want), f.span)
    shown(ctx, req, pro, names)
    ctx.floor("ways", 3)


def shown(ctx, req, pro, names):
    """Accessors of a record show the parts of that name."""
    want = {"method": "method", "url": "url", "req_headers": "req_headers", "req_body": "req_body", "request": None}
    for f in ctx.local_fns(("body_image_futio",)):
        n = f.name.split("::")[-1]
        if f.impl_self != REC or n not in want or f.argc != 1:
            continue
        rule = Req()
        rule.ctx, rule.given = ctx, None
        ip = ctx.ip([rule], max_disj=50)
        ctx.count("accessors")

        def mk(ip, x):
            # as recorded: the same as the request has
            return A("reqpart", None, {"kind": K(x)}, ip.sym(("part", x)))

        def setup(ip, st, args):
            st.mem[args[0].root] = A(REC, None, {
                req: A("request", None, {"body": O(ip.sym(("its body",)))}, ip.sym(("the request",))),
                pro: A(PROLOG, None, {i: mk(ip, x) for x, i in names.items()}, ip.sym(("the prolog",)))}, ip.sym(("the record",)))
            st.setg("lost", K(None))
        ex, args = ctx.entry(ip, f, setup)
        for e in ex:
            v = e.ret
            while isinstance(v, R):
                v = ip.read(e.state, v.root, v.path, None)
            ok = v == mk(ip, want[n]) if want[n] else isinstance(v, A) and v.adt == "request"
            ctx.ob(f.name, ok, "does not show the %s recorded" % n, f.span)
