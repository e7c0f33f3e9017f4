"""Archive reader: C20, C21, C22 and the reader's side of C17 and C18."""
from common import *
import models_std as MS
import models_http as MH
from p_body import key_of, assume_tunables, tun_lin
import p_barc
from p_barc import FIELDS, HEAD, PARTS

READ = "barc::BarcReader::read"
INTS = {"u64": 64, "usize": 64, "u32": 32, "u128": 128}
DECODER_FLAG = {"GzDecoder": "Z", "Decompressor": "B"}


def is_field_parser(f):
    """A workspace function turning one byte slice into Result<integer>."""
    if f is None or not f.local or f.argc != 1 or "{closure" in f.name:
        return False
    a, r = f.locals[1], f.locals[0]
    if a.k != "ref" or a.to.k not in ("slice", "str") or r.adt != "core::result::Result":
        return False
    t = r.args[0]
    return t.is_int() or t.k == "param"


def hexval(ip, st, c, n):
    """The number written in n hex digits c."""
    s = ip.sym(("hex", c), None, (), True)
    st.num.add_ge(Lin((1 << (4 * n)) - 1) - Lin.sym(s))
    return Lin.sym(s)


class Reader(IP.Rule):
    def __init__(self, ctx, prop):
        self.ctx = ctx
        self.prop = prop

    def ob(self, prop, cs, what, okv, msg):
        if self.prop == prop:
            self.ctx.ob("%s / %s" % (READ, what), okv, msg, cs.where())

    def on_call(self, ip, cs, st):
        if cs.key is not None:
            g = ip.p.lookup(cs.key, cs.fn.facts)
            if is_field_parser(g):
                return self.field(ip, cs, st, cs.args[0], g)
        if cs.rname in ("u64::from_str_radix", "usize::from_str_radix", "core::num::from_str_radix") and \
                isinstance(cs.args[1], I) and st.num.eq(cs.args[1].lin, Lin(16)):
            return self.field(ip, cs, st, cs.args[0], None)
        if cs.rname == "body_image::BodyImage::read_from":
            return self.read_from(ip, cs, st)
        return None

    def field(self, ip, cs, st, a, g):
        sl = MS.view_of(ip, cs, st, a)
        c = M.content(ip, st, sl)
        n = st.num.const(M.length(ip, st, sl))
        self.ctx.count("number fields")
        if n is None or n > 16:
            self.ob("C17", cs, "field width", False, "the width of a parsed field is not determined")
            return None
        if self.prop == "C17":
            # relative to the head's first byte
            off = None
            if isinstance(c, T) and c.op == "ck" and isinstance(c.args[1], I):
                off = st.num.const(c.args[1].lin - Lin.sym(ip.sym(("pos0",), None, (), True)))
            self.ob("C17", cs, "field at byte %s" % (int(off) if off is not None else "?"),
                    off is not None and FIELDS.get(int(off), (0, ""))[0] == n,
                    "a number is parsed from bytes %s..+%d, which is not a field of the head as written" % (off, n))
        t = cs.dty.args[0] if cs.dty.args else None
        if t is not None and t.bits:
            k = t.bits - (t.k == "int")
            self.ob("C17", cs, "range of a field", k >= 4 * n, "%d hex digits are parsed into %d bits" % (n, k))
        v = hexval(ip, st, c, int(n))
        return M.result(ip, cs, st, UNIT, lambda s: I(v))

    def read_from(self, ip, cs, st):
        """Contract (C02, C03): everything up to end of input, or an error."""
        r = MH.find_reader(ip, st, cs.args[0])
        if r is None:
            return None
        root, path, v = r
        src, pos = M.attr(ip, st, v, "content"), M.lin(ip, st, v, "pos")
        self.ctx.count("bodies read to the end")

        def good(s):
            s_ = ip.sym(("rest", src, I(s.num.norm(pos))), cs.dty.args[0])
            return O(s_)
        return M.result(ip, cs, st, UNIT, good)


def getters(ctx):
    """Field index in Record per role, from the public getters."""
    out = {}
    for n, tr in (("meta", "barc::MetaRecorded"), ("rec_type", "barc::MetaRecorded"),
                  ("req_headers", "body_image::RequestRecorded"), ("req_body", "body_image::RequestRecorded"),
                  ("res_headers", "body_image::Recorded"), ("res_body", "body_image::Recorded")):
        f = ctx.fn("<barc::Record as %s>::%s" % (tr, n))
        ip = ctx.ip([])
        ex, args = ctx.entry(ip, f)
        for e in ex:
            v = ip.nv(e.state, e.ret)
            if isinstance(v, R) and v.path:
                out[n] = v.path[-1][1]
            else:
                for s in v.sym_ids():
                    nm = ip.st.info[s].name
                    while nm[0] in ("discr",):
                        nm = ip.st.info[int(nm[1])].name
                    if nm[0] == "fld":
                        out[n] = nm[3]
    return out


FORMS = {ord("P"): None, ord("Z"): "GzDecoder", ord("B"): "Decompressor"}


class Expect:
    """What a record at the reader's position must consist of."""

    def __init__(self, ctx, ip, st, ref, rd):
        self.ip, self.st = ip, st
        self.src, self.pos0 = rd
        self.hex = {}
        for off, (w, role) in FIELDS.items():
            if w > 1:
                c = T("ck", self.src, I(st.num.norm(self.pos0 + off)), I(w))
                self.hex[role] = Lin.sym(ip.sym(("hex", c), None, (), True))
        self.flag = {}
        for off, role in ((19, "type"), (20, "compression")):
            i = ip.sym(("elem", self.src, st.num.norm(self.pos0 + off)))
            c = st.num.const(Lin.sym(i))
            self.flag[role] = int(c) if c is not None else None

    def parts(self):
        """{role: (source, offset, stated length)}; None length: to the end."""
        fl = self.flag["compression"]
        if fl not in FORMS:
            return None
        d = FORMS[fl]
        st = self.st
        h = self.hex
        if d is None:
            src, off = self.src, self.pos0 + HEAD
        else:
            src = T("decoded", K(d), self.src, I(st.num.norm(self.pos0 + HEAD)), I(st.num.norm(h["total"])))
            off = ZERO
        out = {}
        for r in PARTS[:4]:
            out[r] = (src, off, h[r])
            off = off + h[r]
        out["res_body"] = (src, off, self.pos0 + HEAD + h["total"] - off if d is None else None)
        return out


def reader_of(ip, st, ref):
    """(content, position) of the archive file inside a reader."""
    r = MH.find_reader(ip, st, ref)
    if r is None:
        v = ip.nv(st, M.rd(ip, st, ref))
        return M.attr(ip, st, v, "content"), M.lin(ip, st, v, "pos")
    return M.attr(ip, st, r[2], "content"), M.lin(ip, st, r[2], "pos")


def check_part(ctx, ip, st, ir, role, v, exp, plain):
    """(ok, message) for one part of a returned record."""
    src, off, n = exp
    if role.endswith("body"):
        v = ip.nv(st, M.rd(ip, st, v))
        if n is None:
            want = ip.sym(("rest", src, I(st.num.norm(off))))
            good = isinstance(v, O) and v.id == want
            return good, "the response body is not the rest of the decompressed payload"
        got = body_content(ip, st, ir, v)
        if got is None:
            return False, "the body is not determined"
        if st.num.eq(n, ZERO):
            want = EMPTY
        else:
            want = T("ck", src, I(st.num.norm(off)), I(st.num.norm(n - 2 if plain else n)))
        return M.ceq(ip, st, got, want), "the body is %s instead of %s" % (got.show(ip.st), want.show(ip.st))
    got = v.fields.get("lines") if isinstance(v, A) else None
    if got is None:
        return False, "the headers are not determined"
    if st.num.eq(n, ZERO):
        want = EMPTY
    else:
        want = T("ck", src, I(st.num.norm(off)), I(st.num.norm(n)))
        if not plain:
            want = T("app", want, C(b"\r\n"))
        want = T("flat", T("heads", want))
    return M.ceq(ip, st, M.cnorm(ip, st, got), want) or got == want, "the headers are parsed from %s instead of %s" % (got.show(ip.st), want.show(ip.st))


def run(ctx, prop, rule=None):
    f = ctx.fn(READ)
    rule = rule or Reader(ctx, prop)
    ip = ctx.ip([rule], max_disj=200, max_parts=4000)
    pre = {}

    def setup(ip, st, args):
        assume_tunables(ctx, ip, st, args)
        v = ip.nv(st, M.rd(ip, st, args[0]))
        fs = ctx.adt("barc::BarcReader")["variants"][0]["fields"]
        ix = [i for i, (n, ty, pub) in enumerate(fs) if ty.startswith("olio::fs::read::ReadPos")]
        if len(ix) != 1:
            raise CheckError("reader position of BarcReader not found")
        s = ip.sym(("archive",))
        ty = None
        for c in ctx.p.crates.values():
            for t in c.types:
                if t is not None and t.s == fs[ix[0]][1]:
                    ty = t
        i = ip.sym(("fld", Id(v.id), None, ix[0]), ty)
        pos0 = Lin.sym(ip.sym(("pos0",), None, (), True))
        rf = {"content": O(s), "pos": I(pos0), "rtotal": I(0)}
        if prop == "C21":
            # "a read succeeded, so the position is within the range of files" is no convex fact
            rf["any"] = K(False)
        st.mem[args[0].root] = A("barc::BarcReader", None, {ix[0]: A("olio::fs::read::ReadPos", None, rf, i)}, v.id)
        pre["rd"] = (O(s), pos0)
        if prop == "C21":
            t = [a for a in args if isinstance(a, R) and isinstance(st.mem.get(a.root), A) and st.mem[a.root].adt == "body_image::Tunables"]
            for n in ("max_body_ram", "buffer_size_ram", "buffer_size_fs"):
                rule.limits.append(tun_lin(ctx, ip, st, t[0], n))
        pre["ix"] = ix[0]
    ex, args = ctx.entry(ip, f, setup)
    pre["args"] = args
    return ip, ex, pre


def verdicts(ctx, prop, rule=None):
    f = ctx.fn(READ)
    ir = image_roles(ctx)
    gt = getters(ctx)
    ip, ex, pre = run(ctx, prop, rule)
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        rd = ip.get_elem(st, st.mem[pre["args"][0].root], (None, pre["ix"]), None)
        pos = M.lin(ip, st, rd, "pos")
        pos0 = pre["rd"][1]
        if is_err(ret):
            ctx.count("failed reads")
            if prop == "C20":
                ctx.ob(key_of(f, "failure"), st.num.eq(pos, pos0), "a failed read leaves the reader elsewhere than at the start of the record", f.span)
            continue
        o = ip.nv(st, ret.fields.get(0)) if is_ok(ret) else None
        if not isinstance(o, A) or o.variant is None:
            ctx.ob(key_of(f, "result"), False, "the result of a read is not determined", f.span)
            continue
        x = Expect(ctx, ip, st, None, pre["rd"])
        if o.variant == 0:
            ctx.count("reads yielding nothing")
            if prop == "C20":
                ctx.ob(key_of(f, "nothing"), st.num.eq(pos, pos0), "a read that yields nothing moves the reader", f.span)
            nothing = st.num.eq(M.lin(ip, st, rd, "rtotal"), ZERO)
            if prop in ("C20", "C22"):
                ctx.ob(key_of(f, "when nothing"), nothing or x.flag["type"] == ord("R"),
                       "nothing is yielded although bytes of a head other than a placeholder were read", f.span)
            continue
        ctx.count("records")
        rec = ip.nv(st, M.rd(ip, st, o.fields[0]))
        if prop == "C20":
            ctx.ob(key_of(f, "record"), st.num.eq(pos, pos0 + HEAD + x.hex["total"]),
                   "after a record the reader is at %s, not at the record's end" % st.num.norm(pos).show(ip.st), f.span)
            ctx.ob(key_of(f, "record", "complete"), x.flag["type"] is not None and x.flag["type"] != ord("R"),
                   "a record still being written may be returned", f.span)
            continue
        ps = x.parts()
        fl = x.flag["compression"]
        form = {None: "plain", "GzDecoder": "gzip", "Decompressor": "brotli"}.get(FORMS.get(fl, 0), "?")
        ctx.count("records " + form)
        if prop in ("C17", "C18"):
            ctx.ob(key_of(f, "form"), ps is not None, "a record is returned without its compression flag having been determined", f.span)
        if prop == "C17":
            rt = ip.nv(st, rec.fields.get(gt["rec_type"])) if isinstance(rec, A) and "rec_type" in gt else None
            names = [v["name"] for v in ctx.adt("barc::RecordType")["variants"]]
            d = rt.variant if isinstance(rt, A) else None
            want = {"Reserved": "R", "Dialog": "D"}.get(names[d]) if d is not None else None
            ctx.ob(key_of(f, "type"), want is not None and x.flag["type"] == ord(want), "the record's type is not the one in its head", f.span)
        if ps is None or not isinstance(rec, A):
            continue
        for r in PARTS:
            v = rec.fields.get(gt[r])
            if prop in ("C17", "C18"):
                okv, msg = check_part(ctx, ip, st, ir, r, v, ps[r], form == "plain")
                ctx.ob(key_of(f, form, r), okv, msg, f.span)
            if prop == "C22":
                src, off, n = ps[r]
                if form == "plain":
                    fe = Lin.sym(ip.sym(("fileend", pre["rd"][0]), None, (), True))
                    ctx.ob(key_of(f, form, r, "present"), st.num.eq(n, ZERO) or st.num.entails_ge(fe - off - n),
                           "%s may extend beyond the end of the file" % r, f.span)
                if r.endswith("body") and n is not None:
                    okv, msg = check_part(ctx, ip, st, ir, r, v, ps[r], form == "plain")
                    p = body_parts(ip, st, ir, v)
                    want = ZERO if st.num.eq(n, ZERO) else (n - 2 if form == "plain" else n)
                    ctx.ob(key_of(f, form, r, "length"), p is not None and st.num.eq(p[2], want),
                           "a body may be delivered with a length other than the stated one", f.span)
                else:
                    okv, msg = check_part(ctx, ip, st, ir, r, v, ps[r], form == "plain")
                ctx.ob(key_of(f, form, r, "whole"), okv, msg, f.span)
    for m in ("plain", "gzip", "brotli"):
        if prop in ("C17", "C18", "C22"):
            ctx.ob(key_of(f, "a %s record can be read" % m), ctx.counts.get("records " + m, 0) > 0,
                   "no path of the reader returns a %s record" % m, f.span)
    ctx.floor("records", 1)
    ctx.floor("reads yielding nothing", 1)


def c20(ctx):
    verdicts(ctx, "C20")


def c22(ctx):
    verdicts(ctx, "C22")


def c18(ctx):
    p_barc.c_blocks(ctx, "C18")
    p_barc.writer(ctx, "C18")
    verdicts(ctx, "C18")


def c17(ctx):
    p_barc.writer(ctx, "C17")
    verdicts(ctx, "C17")
    field_notation(ctx)


def field_notation(ctx):
    """The field parsers read lower-case hex, most significant digit first."""
    ps = [f for f in ctx.p.crates["barc"].fns.values() if f.local and is_field_parser(f) and f.locals[0].args[0].is_int()]
    for f in ps:
        for cls in ("00", "0a", "a0", "aa"):
            ip = ctx.ip([])
            ip.unroll = True
            dig = []

            def setup(ip, st, args):
                s = ip.sym(("digits",))
                fs = {"len": I(2), "content": O(s)}
                for i, c in enumerate(cls):
                    b = Lin.sym(ip.sym(("elem", O(s), Lin(i)), None, (), True))
                    lo, hi = (48, 57) if c == "0" else (97, 102)
                    st.num.add_ge(b - lo)
                    st.num.add_ge(Lin(hi) - b)
                    dig.append(b - (48 if c == "0" else 87))
                st.mem[("H", Id(s))] = A("array", None, fs, s)
                args[0] = S(("P", ("H", Id(s)), ()), ZERO, Lin(2))
            ex, args = ctx.entry(ip, f, setup)
            want = dig[0].scale(16) + dig[1]
            for e in ex:
                st, ret = e.state, ip.nv(e.state, e.ret)
                r = ret.fields.get(0) if is_ok(ret) else None
                ctx.ob(key_of(f, "notation", cls), isinstance(r, I) and st.num.eq(r.lin, want),
                       "two hex digits are read as %s instead of %s" % (r.show(ip.st) if r is not None else "an error", want.show(ip.st)), f.span)
    ctx.counts["field parsers"] = len(ps)


class Safe(Reader, NoPanic):
    def __init__(self, ctx):
        Reader.__init__(self, ctx, "C21")
        NoPanic.__init__(self, ctx, READ, alloc=self.may_alloc)

    def may_alloc(self, ip, st, n):
        for lim in self.limits:
            if st.num.entails_ge(lim - n):
                return True
        return False

    def on_call(self, ip, cs, st):
        NoPanic.on_call(self, ip, cs, st)
        return Reader.on_call(self, ip, cs, st)


def c21(ctx):
    rule = Safe(ctx)
    rule.limits = [Lin((1 << 20) + 2)]
    ctx.safe = rule
    verdicts(ctx, "C21", rule)
    ctx.floor("panic sites", 1)
    # the field parsers, on any bytes
    for f in ctx.p.crates["barc"].fns.values():
        if f.local and is_field_parser(f) and f.locals[0].args[0].is_int():
            ip = ctx.ip([ParserSafe(ctx, READ)])
            ctx.entry(ip, f)


class ParserSafe(NoPanic):
    def on_assert(self, ip, fn, frame, b, st, t, c):
        if isinstance(c, B) and c.k[0] == "eq" and len(c.k[1].t) == 1:
            nm = ip.st.info[c.k[1].t[0][0]].name
            if nm[0] == "ovf" and nm[4] == 64:
                # at most 16 hex digits: the widths are checked where it is called
                return
        NoPanic.on_assert(self, ip, fn, frame, b, st, t, c)
