"""Body storage: C01, C02, C03, C04, C05, C06 (body-image crate)."""
from common import *
import models_std as MS

APPEND = {"push": 1, "save": 1, "write_all": 1}


def self_ty(f):
    if f.argc == 0:
        return None
    t = f.locals[1]
    return t


def self_mode(f, path):
    """'mut' | 'ref' | 'own' | None: how the first parameter takes the struct."""
    if f.argc == 0:
        return None
    t = f.locals[1]
    if t.adt == path:
        return "own"
    if t.k == "ref" and t.to is not None and t.to.adt == path:
        return "mut" if t.mut else "ref"
    return None


def methods(ctx, path):
    out = []
    for f in ctx.local_fns(("body_image",)):
        if f.impl_self == path and f.kind == "AssocFn" and f.pub:
            if f.impl_trait in ("core::fmt::Debug", "core::fmt::Display"):
                continue
            out.append(f)
    return out


def mname(f):
    return f.name.split("::")[-1]


def run_method(ctx, f, roles, variant, rules=(), more=None):
    """Analyse a method with its receiver in the given storage variant.
    Returns (ip, exits, args, pre) ; pre has len0, content0, root."""
    ip = ctx.ip(rules)
    pre = {}

    def setup(ip, st, args):
        mode = self_mode(f, roles.path)
        if mode is not None:
            sid = ip.sym(("self", f.key))
            v = mk_body(ctx, ip, st, roles, sid, variant)
            if mode == "own":
                args[0] = v
            else:
                st.mem[args[0].root] = v
                pre["ref"] = args[0]
            pre["len0"] = v.fields[roles.len].lin
            pre["content0"] = body_content(ip, st, roles, v)
            pre["v0"] = v
        if more:
            more(ip, st, args)
    ex, args = ctx.entry(ip, f, setup)
    return ip, ex, args, pre


def key_of(f, *t):
    return " / ".join([f.name] + [str(x) for x in t])


def kind_name(roles, v):
    return roles.kinds[v]


def bool_is(ip, st, ret, lin_zero):
    """ret is true exactly when lin_zero == 0"""
    if not isinstance(ret, B):
        return False
    s1, s2 = st.copy(), st.copy()
    ok = True
    if ip.assume(s1, ret, True) and not s1.num.bot:
        ok = ok and s1.num.eq(lin_zero, ZERO)
    if ip.assume(s2, ret, False) and not s2.num.bot:
        ok = ok and s2.num.entails_ne(lin_zero)
    return ok


def found_bodies(ip, st, roles, v, d=0):
    """Body values inside a returned value."""
    out = []
    if isinstance(v, A):
        if v.adt == roles.path:
            return [v]
        if d < 3:
            for x in v.fields.values():
                out += found_bodies(ip, st, roles, x, d + 1)
    return out


class SeekFail(IP.Rule):
    """Marks the paths on which moving back after a failed write itself failed."""

    def after_call(self, ip, cs, st, ret):
        if cs.name == "core::io::seek::Seek::seek" and is_err(ret):
            st.setg("seekfail", True)


def c01(ctx):
    sr, ir = sink_roles(ctx), image_roles(ctx)
    for roles in (sr, ir):
        for f in methods(ctx, roles.path):
            mode = self_mode(f, roles.path)
            vs = sorted(roles.kinds) if mode else [None]
            for v in vs:
                if v is not None:
                    ip, ex, args, pre = run_method(ctx, f, roles, v, [SeekFail()])
                else:
                    ip, ex, args, pre = run_method(ctx, f, roles, None, more=reader_setup(ctx, f))
                ctx.count("methods")
                c01_exits(ctx, f, roles, sr, ir, v, ip, ex, args, pre, mode)
    ctx.floor("methods", 30)
    for need in ("push", "save", "write_all", "write_back", "prepare", "len", "is_empty"):
        ctx.fn("body_image::BodySink::" + need)
    for need in ("len", "is_empty", "mem_map", "gather", "read_from", "from_slice", "from_file", "from_read_slice"):
        ctx.fn("body_image::BodyImage::" + need)


def reader_setup(ctx, f):
    if mname(f) == "read_from":
        return lambda ip, st, args: assume_tunables(ctx, ip, st, args)
    if mname(f) == "from_read_slice":
        # a ReadSlice's start never exceeds its end (checked by its constructors)
        return lambda ip, st, args: st.num.add_ge(M.lin(ip, st, args[0], "stop") - M.lin(ip, st, args[0], "start"))
    return None


def c01_exits(ctx, f, roles, sr, ir, v, ip, ex, args, pre, mode):
    n = mname(f)
    kn = kind_name(roles, v) if v is not None else ""
    sp = f.span
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        if mode in ("mut", "ref"):
            b = st.mem.get(pre["ref"].root, pre["v0"])
            p = body_parts(ip, st, roles, b)
            key = key_of(f, kn, "length")
            if p is None:
                ctx.ob(key, False, "storage is not determined at a return", sp)
                continue
            k, sv, ln = p
            size = body_size(ip, st, roles, b)
            if is_err(ret) and n in APPEND and roles is sr:
                ctx.ob(key_of(f, kn, "failed append"), st.num.eq(ln, pre["len0"]),
                       "a failed append changes the reported length", sp)
                if k == "ram":
                    ctx.ob(key_of(f, kn, "failed append"), st.num.eq(size, ln), "a failed append changes stored bytes only", sp)
                elif not st.g("seekfail"):
                    ctx.ob(key_of(f, kn, "failed append"), st.num.eq(size, ln) and st.num.eq(M.lin(ip, st, sv, "pos"), ln)
                           and M.ceq(ip, st, M.content(ip, st, sv), pre["content0"]),
                           "after a failed append part of the buffer stays ahead of later appends", sp)
            else:
                ctx.ob(key, st.num.eq(size, ln),
                       "reported length %s differs from stored bytes %s" % (st.num.norm(ln).show(ip.st), st.num.norm(size).show(ip.st)), sp)
            if n in APPEND and roles is sr and not is_err(ret):
                al = M.length(ip, st, args[APPEND[n]])
                ctx.ob(key_of(f, kn, "appended length"), st.num.eq(ln, pre["len0"] + al),
                       "length grows by something other than the appended length", sp)
            if roles is ir and n not in ("clone",):
                ctx.ob(key_of(f, kn, "image length"), st.num.eq(ln, pre["len0"]), "an image's length changed", sp)
            if mode == "ref":
                ctx.ob(key_of(f, kn, "unchanged"), st.num.eq(ln, pre["len0"]), "a read-only operation changes the length", sp)
        if n == "len":
            ctx.ob(key_of(f, kn, "reports"), isinstance(ret, I) and st.num.eq(ret.lin, pre["len0"]), "len() is not the body length", sp)
        if n == "is_empty":
            ctx.ob(key_of(f, kn, "reports"), bool_is(ip, st, ret, pre["len0"]), "is_empty() is not length == 0", sp)
        for r2 in (sr, ir):
            for b in found_bodies(ip, st, r2, ret):
                p = body_parts(ip, st, r2, b)
                key = key_of(f, kn, "result")
                if p is None:
                    ctx.ob(key, False, "storage of the result is not determined", sp)
                    continue
                size = body_size(ip, st, r2, b)
                ctx.ob(key, st.num.eq(size, p[2]), "result reports length %s but holds %s" % (
                    st.num.norm(p[2]).show(ip.st), st.num.norm(size).show(ip.st)), sp)
                if mode == "own" or n == "clone":
                    ctx.ob(key, st.num.eq(p[2], pre["len0"]), "result length differs from the source body", sp)


def getter_index(ctx, name):
    """Field index a getter of Tunables returns."""
    f = ctx.fn(name)
    ip = ctx.ip()
    ex, args = ctx.entry(ip, f)
    for e in ex:
        v = e.ret
        ids = list(v.sym_ids())
        if len(ids) == 1:
            nm = ip.st.info[ids[0]].name
            if nm[0] == "fld":
                return nm[3]
    raise CheckError("getter %s not understood" % name)


def tun_fields(ctx):
    if not hasattr(ctx, "_tf"):
        ctx._tf = {n: getter_index(ctx, "body_image::Tunables::" + n)
                   for n in ("max_body_ram", "max_body", "buffer_size_ram", "buffer_size_fs")}
    return ctx._tf


def tun_lin(ctx, ip, st, v, name):
    v = M.rd(ip, st, v)
    x = ip.get_elem(st, v, (None, tun_fields(ctx)[name]), None)
    return x.lin if isinstance(x, I) else Lin.sym(list(x.sym_ids())[0])


def assume_tunables(ctx, ip, st, args):
    tf = tun_fields(ctx)
    for a in args:
        if isinstance(a, R):
            ty = ip.st.info[int(a.root[1])].ty if a.root[0] == "H" else None
            if ty is not None and ty.adt == "body_image::Tunables":
                v = M.rd(ip, st, a)
                u64 = None
                f = {}
                for n in ("max_body_ram", "max_body", "buffer_size_ram", "buffer_size_fs"):
                    f[tf[n]] = I(Lin.sym(ip.sym(("fld", Id(v.id), None, tf[n]), None, (), True)))
                st.mem[a.root] = A("body_image::Tunables", None, f, v.id)
                st.num.add_ge(f[tf["max_body"]].lin - f[tf["max_body_ram"]].lin)
                for n in ("buffer_size_ram", "buffer_size_fs"):
                    st.num.add_ge(f[tf[n]].lin - 1)


def eqc(ip, st, a, b):
    return a is not None and b is not None and M.ceq(ip, st, a, b)


def show(ip, st, c):
    return c.show(ip.st) if c is not None else "?"


class Inner(IP.Rule):
    """Reads the reader of a body makes from the one it wraps."""
    def on_read(self, ip, cs, st, root, path, v, ln, exact, kind):
        st.setg("reads", (st.g("reads") or 0) + 1)
        if not ip.decide(st, B("ge", ln - 1)):
            st.setg("starved", True)


def delegates(ctx):
    """Each read of a body's reader delivers the next bytes of what it wraps."""
    f = ctx.fn("<body_image::BodyReader as alloc::io::read::Read>::read")
    for v, var in enumerate(ctx.adt("body_image::BodyReader")["variants"]):
        ip = ctx.ip([Inner()])
        inner = {}

        def setup(ip, st, args):
            inner["v"] = O(ip.sym(("wrapped",)))
            st.mem[args[0].root] = A("body_image::BodyReader", v, {0: inner["v"]})
            inner["n"] = M.length(ip, st, MS.view_of(ip, None, st, args[1]))
            st.num.add_ge(inner["n"] - 1)
            st.setg("reads", 0)
        ex, args = ctx.entry(ip, f, setup)
        for e in ex:
            st, ret = e.state, ip.nv(e.state, e.ret)
            if not is_ok(ret):
                continue
            key = key_of(f, var["name"])
            n = ip.nv(st, ret.fields[0])
            now = ip.get_elem(st, M.rd(ip, st, args[0]), (v, 0), None)
            pos0, pos = M.lin(ip, st, inner["v"], "pos"), M.lin(ip, st, now, "pos")
            end = ip.decide(st, B("ge", pos0 - M.lin(ip, st, inner["v"], "stop"))) and isinstance(n, I) and st.num.eq(n.lin, ZERO)
            ctx.ob(key, end or st.g("reads") == 1 and not st.g("starved"), "the end is reported without asking the stored body for more", f.span)
            if not isinstance(n, I):
                ctx.ob(key, False, "the number of bytes delivered is not determined: %s" % n.show(ip.st), f.span)
                continue
            ctx.ob(key, st.num.eq(pos - pos0, n.lin), "delivers %s bytes but takes %s" % (n.show(ip.st), st.num.norm(pos - pos0).show(ip.st)), f.span)
            sl = MS.view_of(ip, None, st, args[1])
            got = M.content(ip, st, S(sl.base, sl.lo, n.lin)) if isinstance(sl, S) else None
            want = M.mkck(ip, st, M.attr(ip, st, inner["v"], "content"), pos0, n.lin, Lin.sym(ip.sym(("infinite",), None, (), True)))
            ctx.ob(key_of(f, var["name"], "bytes"), got is not None and eqc(ip, st, got, want),
                   "delivers %s" % (got.show(ip.st) if got is not None else "nothing"), f.span)


def c02(ctx):
    sr, ir = sink_roles(ctx), image_roles(ctx)
    for n in ("push", "save", "write_all", "write_back", "prepare"):
        f = ctx.fn("body_image::BodySink::" + n)
        for v in sorted(sr.kinds):
            ip, ex, args, pre = run_method(ctx, f, sr, v)
            ctx.count("methods")
            for e in ex:
                st, ret = e.state, ip.nv(e.state, e.ret)
                if is_err(ret):
                    if n in APPEND and sr.kinds[v] == "ram":
                        b = st.mem.get(pre["ref"].root, pre["v0"])
                        ctx.ob(key_of(f, sr.kinds[v], "failed append"), eqc(ip, st, body_content(ip, st, sr, b), pre["content0"]),
                               "a failed append alters stored bytes", f.span)
                    continue
                want = pre["content0"]
                if n in APPEND:
                    want = M.append(ip, st, want, M.content(ip, st, args[APPEND[n]]))
                if n == "prepare":
                    got = None
                    for b in found_bodies(ip, st, ir, ret):
                        got = body_content(ip, st, ir, b)
                        if got is not None and body_parts(ip, st, ir, b)[0] == "file":
                            # first `len` bytes of the file just written
                            got = got.args[0]
                else:
                    got = body_content(ip, st, sr, st.mem.get(pre["ref"].root, pre["v0"]))
                ctx.ob(key_of(f, sr.kinds[v], "content"), eqc(ip, st, got, want),
                       "stored bytes are %s, expected %s" % (show(ip, st, got), show(ip, st, want)), f.span)
    # image operations keep the content
    for n in ("mem_map", "gather"):
        f = ctx.fn("body_image::BodyImage::" + n)
        for v in sorted(ir.kinds):
            ip, ex, args, pre = run_method(ctx, f, ir, v, more=lambda ip, st, a: assume_file(ctx, ip, st, ir, a))
            ctx.count("methods")
            for e in ex:
                st = e.state
                b = st.mem.get(pre["ref"].root, pre["v0"])
                got = body_content(ip, st, ir, b)
                ctx.ob(key_of(f, ir.kinds[v], "content"), eqc(ip, st, got, pre["content0"]),
                       "image bytes become %s" % show(ip, st, got), f.span)
    for n in ("explode", "reader", "write_to"):
        views(ctx, ir, n, order_only=True)
    # reading a stream into a body
    f = ctx.fn("body_image::BodyImage::read_from")
    ip, ex, args, pre = run_method(ctx, f, ir, None, more=lambda ip, st, a: assume_tunables(ctx, ip, st, a))
    pos0 = Lin.sym(ip.sym(("attr", Id(int(args[0].root[1])), "pos"), None, (), True))
    src = O(int(args[0].root[1]))
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        if not is_ok(ret):
            continue
        ctx.count("read_from exits")
        rv = M.rd(ip, st, args[0])
        for b in found_bodies(ip, st, ir, ret):
            p = body_parts(ip, st, ir, b)
            if p is None:
                ctx.ob(key_of(f, "content"), False, "storage of the result is not determined", f.span)
                continue
            got = body_content(ip, st, ir, b)
            if p[0] == "file":
                got = M.cnorm(ip, st, got.args[0])
            pos = M.lin(ip, st, rv, "pos")
            want = T("ck", src, I(pos0), I(pos - pos0))
            ctx.ob(key_of(f, "content"), eqc(ip, st, got, want),
                   "collected bytes are %s, the stream delivered %s" % (show(ip, st, got), show(ip, st, want)), f.span)
            last = M.attr(ip, st, rv, "lastn")
            ctx.ob(key_of(f, "reads to the end"), isinstance(last, I) and st.num.eq(last.lin, ZERO),
                   "success is returned although the last read was not the end of input", f.span)
    ctx.floor("read_from exits", 2)
    delegates(ctx)


def assume_file(ctx, ip, st, ir, args):
    """The file behind a file image holds at least the image's bytes."""
    v = M.rd(ip, st, args[0])
    p = body_parts(ip, st, ir, v)
    if p is not None and p[0] == "file":
        fv = ip.get_elem(st, p[1], (None, "inner"), None)
        st.num.add_ge(M.lin(ip, st, fv, "end") - p[2])


def reader_view(ip, st, v):
    """(content delivered by a reader-like value) or None."""
    v = ip.nv(st, v)
    if not isinstance(v, (A, O)):
        return None
    ty = v.adt if isinstance(v, A) else None
    if isinstance(v, O):
        t = ip.st.info[v.id].ty
        ty = t.adt if t is not None else None
    if ty is None and isinstance(v, A) and v.base is not None and ip.st.info[v.base].ty is not None:
        ty = ip.st.info[v.base].ty.adt
    if ty in ("?", None) and isinstance(v, A) and v.base is not None:
        t = ip.st.info[v.base].ty
        ty = t.adt if t is not None else None
    if ty == "olio::fs::read::ReadSlice":
        a, b, p = (M.lin(ip, st, v, x) for x in ("start", "stop", "pos"))
        if not st.num.eq(a, p):
            return None
        return T("ck", M.attr(ip, st, v, "content"), I(st.num.norm(a)), I(st.num.norm(b - a)))
    if ty in ("core::io::cursor::Cursor", "olio::io::gather::GatheringReader"):
        if not st.num.eq(M.lin(ip, st, v, "pos"), ZERO):
            return None
        return M.cnorm(ip, st, M.attr(ip, st, v, "content"))
    if ty == "alloc::vec::Vec":
        return M.cnorm(ip, st, M.attr(ip, st, v, "flat"))
    if ty == "olio::mem::handle::MemHandle":
        mm = ip.get_elem(st, v, (None, "inner"), None)
        return M.content(ip, st, mm)
    return None


def views(ctx, ir, n, order_only=False):
    f = ctx.fn("body_image::BodyImage::" + n)
    for v in sorted(ir.kinds):
        ip, ex, args, pre = run_method(ctx, f, ir, v, more=lambda ip, st, a: assume_file(ctx, ip, st, ir, a))
        ctx.count("views")
        for e in ex:
            st, ret = e.state, ip.nv(e.state, e.ret)
            if n in ("reader", "explode"):
                if not isinstance(ret, A) or 0 not in ret.fields:
                    ctx.ob(key_of(f, ir.kinds[v], "view"), False, "view is not determined", f.span)
                    continue
                got = reader_view(ip, st, ret.fields[0])
                ctx.ob(key_of(f, ir.kinds[v], "view"), eqc(ip, st, got, pre["content0"]),
                       "view covers %s, the image holds %s" % (show(ip, st, got), show(ip, st, pre["content0"])), f.span)
            elif n == "write_to" and is_ok(ret):
                w = M.rd(ip, st, args[1])
                c0 = O(int(args[1].root[1]))
                got = M.content(ip, st, w)
                want = M.append(ip, st, c0, pre["content0"])
                if order_only:
                    # the bytes delivered are a prefix of the image's bytes, in order
                    okp = eqc(ip, st, got, want)
                    if not okp and isinstance(got, T) and got.op == "app" and isinstance(got.args[1], T) and got.args[1].op == "ck":
                        ck = got.args[1]
                        wc = pre["content0"]
                        if isinstance(wc, T) and wc.op == "ck":
                            okp = M._ceq(ip, st, ck.args[0], wc.args[0]) and st.num.eq(ck.args[1].lin, wc.args[1].lin)
                    ctx.ob(key_of(f, ir.kinds[v], "copied bytes"), okp,
                           "bytes copied out are %s, expected %s" % (show(ip, st, got), show(ip, st, want)), f.span)
                else:
                    ctx.ob(key_of(f, ir.kinds[v], "copied bytes"), eqc(ip, st, got, want),
                           "bytes copied out are %s, expected %s" % (show(ip, st, got), show(ip, st, want)), f.span)
                    r = ret.fields.get(0)
                    ctx.ob(key_of(f, ir.kinds[v], "copied count"), isinstance(r, I) and st.num.eq(r.lin, pre["len0"]),
                           "returned count is not the image length", f.span)


def c05(ctx):
    sr = sink_roles(ctx)
    f = ctx.fn("body_image::BodySink::write_back")
    for v in sorted(sr.kinds):
        ip, ex, args, pre = run_method(ctx, f, sr, v)
        kn = sr.kinds[v]
        for e in ex:
            st, ret = e.state, ip.nv(e.state, e.ret)
            b = st.mem.get(pre["ref"].root, pre["v0"])
            p = body_parts(ip, st, sr, b)
            if p is None:
                ctx.ob(key_of(f, kn, "state"), False, "storage is not determined at a return", f.span)
                continue
            k, sv, ln = p
            c = body_content(ip, st, sr, b)
            if kn == "file":
                ctx.ob(key_of(f, kn, "untouched"), k == "file" and st.num.eq(ln, pre["len0"]) and c == pre["content0"]
                       and st.num.eq(M.lin(ip, st, sv, "pos"), M.lin(ip, st, sv, "end")) and not is_err(ret),
                       "a body already on disk is disturbed", f.span)
            elif is_err(ret):
                ctx.count("error exits")
                ctx.ob(key_of(f, kn, "failure"), k == "ram" and st.num.eq(ln, ZERO) and eqc(ip, st, c, EMPTY),
                       "after a failure: storage %s, length %s, content %s" % (k, st.num.norm(ln).show(ip.st), show(ip, st, c)), f.span)
            else:
                ctx.ob(key_of(f, kn, "success"), k == "file" and st.num.eq(ln, pre["len0"]) and eqc(ip, st, c, pre["content0"])
                       and st.num.eq(M.lin(ip, st, sv, "pos"), M.lin(ip, st, sv, "end")),
                       "after success: storage %s, length %s, content %s" % (k, st.num.norm(ln).show(ip.st), show(ip, st, c)), f.span)
                r = M.rd(ip, st, ret.fields[0])
                ctx.ob(key_of(f, kn, "returns self"), isinstance(ret.fields[0], R) and ret.fields[0].root == pre["ref"].root,
                       "does not return the body itself", f.span)
    ctx.floor("error exits", 2)


class StoreLimit(IP.Rule):
    """Bytes stored never exceed the limits (C03, C04)."""

    def __init__(self, ctx, which):
        self.ctx, self.which = ctx, which
        self.tun = None
        self.est = None

    def limit(self, ip, st, name):
        return tun_lin(self.ctx, ip, st, self.tun, name)

    def on_write(self, ip, cs, st, root, path, x, n, isf):
        if not isf or self.tun is None:
            return
        v = ip.read(st, root, path, None)
        c = M.cnorm(ip, st, M.content(ip, st, v))
        total = M.clen(ip, st, c) + n
        c2 = M.append(ip, st, c, x)
        if isinstance(c2, T) and c2.op == "pre":
            # a prefix is no longer than the whole sequence
            total = M.clen(ip, st, M.cnorm(ip, st, T("flat", c2.args[0])))
        if self.which == "max":
            self.ctx.count("storing sites")
            self.ctx.ob(key_of(cs.fn, "file write within maximum"), st.num.entails_ge(self.limit(ip, st, "max_body") - total),
                        "bytes are written to the body file although the total may exceed the maximum body length", cs.where())

    def on_call(self, ip, cs, st):
        if self.tun is None:
            return
        if cs.rname == "alloc::vec::Vec::push" and cs.atys[1] is not None and cs.atys[1].adt == "bytes::bytes::Bytes":
            v = M.rd(ip, st, cs.args[0])
            total = M.clen(ip, st, M.cnorm(ip, st, M.attr(ip, st, v, "flat"))) + M.length(ip, st, cs.args[1])
            self.ctx.count("storing sites")
            if self.which == "max":
                self.ctx.ob(key_of(cs.fn, "buffer kept within maximum"), st.num.entails_ge(self.limit(ip, st, "max_body") - total),
                            "a buffer is stored although the total may exceed the maximum body length", cs.where())
            else:
                lim = self.limit(ip, st, "max_body_ram")
                self.ctx.ob(key_of(cs.fn, "buffer kept in RAM"), st.num.entails_ge(lim - total),
                            "a buffer is kept in memory although the total may exceed the RAM maximum", cs.where())
                if self.est is not None:
                    self.ctx.ob(key_of(cs.fn, "estimate"), st.num.entails_ge(lim - self.est),
                                "a body whose estimate exceeds the RAM maximum is collected in memory", cs.where())


def limits_read_from(ctx, which):
    ir = image_roles(ctx)
    f = ctx.fn("body_image::BodyImage::read_from")
    rule = StoreLimit(ctx, which)

    def more(ip, st, args):
        assume_tunables(ctx, ip, st, args)
        rule.tun = args[2]
        rule.est = args[1].lin
    ip, ex, args, pre = run_method(ctx, f, ir, None, rules=(rule,), more=more)
    pos0 = Lin.sym(ip.sym(("attr", Id(int(args[0].root[1])), "pos"), None, (), True))
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        if is_ok(ret):
            for b in found_bodies(ip, st, ir, ret):
                p = body_parts(ip, st, ir, b)
                if p is None:
                    ctx.ob(key_of(f, "result"), False, "storage of the result is not determined", f.span)
                    continue
                ctx.count("results")
                if which == "max":
                    ctx.ob(key_of(f, "result length"), st.num.entails_ge(rule.limit(ip, st, "max_body") - p[2]),
                           "a body longer than the maximum is returned", f.span)
                elif p[0] == "ram":
                    ctx.ob(key_of(f, "result in RAM"), st.num.entails_ge(rule.limit(ip, st, "max_body_ram") - p[2]),
                           "a body longer than the RAM maximum is returned in memory", f.span)
        elif which == "max" and is_err(ret):
            ev = ret.fields[0]
            if isinstance(ev, A) and ev.adt == "body_image::BodyError" and ev.variant is not None:
                nm = ctx.adt("body_image::BodyError")["variants"][ev.variant]["name"]
                x = ev.fields.get(0)
                if nm == "BodyTooLong":
                    ctx.count("too long errors")
                    rv = M.rd(ip, st, args[0])
                    tot = M.lin(ip, st, rv, "pos") - pos0
                    ctx.ob(key_of(f, "reported total"), isinstance(x, I) and st.num.eq(x.lin, tot),
                           "the too-long error reports %s, %s bytes were received" % (
                               x.show(ip.st) if x is not None else "?", st.num.norm(tot).show(ip.st)), f.span)
                    ctx.ob(key_of(f, "refused only when longer"),
                           st.num.entails_ge(tot - rule.limit(ip, st, "max_body") - 1),
                           "a body within the maximum is refused as too long", f.span)
    ctx.floor("results", 2)
    ctx.floor("storing sites", 1)


def c03_body(ctx):
    limits_read_from(ctx, "max")
    ctx.floor("too long errors", 1)


def c04_body(ctx):
    limits_read_from(ctx, "ram")


def c06(ctx):
    sr, ir = sink_roles(ctx), image_roles(ctx)
    for n in ("reader", "explode", "write_to"):
        views(ctx, ir, n)
    f = ctx.fn("body_image::BodyImage::mem_map")
    for v in sorted(ir.kinds):
        ip, ex, args, pre = run_method(ctx, f, ir, v, more=lambda ip, st, a: assume_file(ctx, ip, st, ir, a))
        for e in ex:
            st = e.state
            b = st.mem.get(pre["ref"].root, pre["v0"])
            p = body_parts(ip, st, ir, b)
            if p is None:
                ctx.ob(key_of(f, ir.kinds[v], "map"), False, "storage is not determined", f.span)
                continue
            ctx.ob(key_of(f, ir.kinds[v], "map"), eqc(ip, st, body_content(ip, st, ir, b), pre["content0"])
                   and st.num.eq(body_size(ip, st, ir, b), pre["len0"]),
                   "after mapping the image covers %s instead of %s" % (
                       show(ip, st, body_content(ip, st, ir, b)), show(ip, st, pre["content0"])), f.span)
            if is_ok(ip.nv(st, e.ret)) and ir.kinds[v] in ("file", "slice"):
                ctx.ob(key_of(f, ir.kinds[v], "is mapped"), p[0] == "map", "mapping succeeded but the image is not mapped", f.span)
    # zero length images are memory based
    prod = 0
    for roles, mod in ((sr, None), (ir, None)):
        for f in methods(ctx, roles.path):
            if not any(ir.path.split("::")[-1] in f.locals[i].s for i in (0,)):
                continue
            mode = self_mode(f, roles.path)
            if f.impl_trait == "core::clone::Clone" or (mode in ("mut", "ref")):
                continue
            for v in (sorted(roles.kinds) if mode else [None]):
                ip, ex, args, pre = run_method(ctx, f, roles, v, more=reader_setup(ctx, f))
                for e in ex:
                    st, ret = e.state, ip.nv(e.state, e.ret)
                    for b in found_bodies(ip, st, ir, ret):
                        p = body_parts(ip, st, ir, b)
                        if p is None:
                            ctx.ob(key_of(f, "zero length"), False, "storage of the result is not determined", f.span)
                            continue
                        prod += 1
                        if p[0] == "slice":
                            ctx.ob(key_of(f, "first byte"), st.num.eq(M.lin(ip, st, p[1], "pos"), M.lin(ip, st, p[1], "start")),
                                   "an image over a slice already read from would not start at its first byte", f.span)
                        if p[0] != "ram":
                            ctx.ob(key_of(f, "zero length"), st.num.entails_ge(p[2] - 1),
                                   "an image of zero length may be %s backed" % p[0], f.span)
                        else:
                            ctx.ob(key_of(f, "zero length"), True)
    ctx.counts["images produced"] = prod
    ctx.floor("images produced", 6)
    for n, k in (("is_ram", "ram"), ("is_mem_map", "map")):
        f = ctx.fn("body_image::BodyImage::" + n)
        for v in sorted(ir.kinds):
            ip, ex, args, pre = run_method(ctx, f, ir, v)
            for e in ex:
                ctx.ob(key_of(f, ir.kinds[v], "reports"), e.ret == (TRUE if ir.kinds[v] == k else FALSE),
                       "%s() is wrong for a %s image" % (n, ir.kinds[v]), f.span)
