"""Archive writer: C14, C15, C16, and the writer's side of C17 and C18."""
from common import *
import models_std as MS
import models_http as MH
from p_body import key_of

HEAD = 54
PARTS = ("meta", "req_headers", "req_body", "res_headers", "res_body")
GETTERS = {
    "barc::MetaRecorded::meta": "meta",
    "barc::MetaRecorded::rec_type": "rec_type",
    "body_image::RequestRecorded::req_headers": "req_headers",
    "body_image::RequestRecorded::req_body": "req_body",
    "body_image::Recorded::res_headers": "res_headers",
    "body_image::Recorded::res_body": "res_body",
}
# head fields: first byte -> (width, role)
FIELDS = {6: (12, "total"), 19: (1, "type"), 20: (1, "compression"), 22: (5, "meta"), 28: (5, "req_headers"),
          34: (10, "req_body"), 45: (5, "res_headers")}
FLAGS = {None: "P", "GzEncoder": "Z", "CompressorWriter": "B"}


def flatten(c):
    """Pieces of an appended content term, in order."""
    out = []
    while isinstance(c, T) and c.op == "app":
        out.append(c.args[1])
        c = c.args[0]
    if c != EMPTY:
        out.append(c)
    out.reverse()
    return out


def head_fields(ip, st, x):
    """{offset: (width, piece)} of the non-literal and literal parts of a head,
    and its total length (None if a width is not determined)."""
    f = {}
    off = 0
    lit = {}
    for p in flatten(x):
        n = st.num.const(M.clen(ip, st, p))
        if n is None:
            return f, lit, None
        if isinstance(p, C):
            for i, b in enumerate(p.b):
                lit[off + i] = b
        else:
            f[off] = (int(n), p)
        off += int(n)
    return f, lit, off


class Env(IP.Rule):
    """The record handed to the writer and the compression strategies."""

    def __init__(self, ctx):
        self.ctx = ctx

    def role_of(self, ip, st, a):
        v = M.rd(ip, st, a)
        i = v.id if isinstance(v, O) else (v.base if isinstance(v, A) else None)
        if i is not None:
            nm = ip.st.info[i].name
            if nm[0] == "role":
                return nm[1]
        return None

    def on_call(self, ip, cs, st):
        r = GETTERS.get(cs.name)
        if r is not None and cs.kind == "virtual":
            t = cs.dty
            if t.k == "ref":
                s = ip.sym(("role", r), t.to, (("role", r),))
                return [(st, R(("H", Id(s))))]
            s = ip.sym(("role", r), t, (("role", r),))
            return [(st, ip.make(s, t))]
        if cs.name == "barc::compress::CompressStrategy::wrap_encoder" and cs.kind == "virtual":
            outs = []
            n = 0
            for f in self.ctx.local_fns(("barc",)):
                if f.name.endswith("as barc::compress::CompressStrategy>::wrap_encoder"):
                    n += 1
                    s = ip.sym(("strategy", f.name), f.locals[1].to)
                    o = ip.inline(cs, st.copy(), f, [R(("H", Id(s)))] + list(cs.args[1:]))
                    outs.extend(o or [])
            self.ctx.count("strategies", n)
            return outs
        if cs.name == "barc::compress::CompressStrategy::is_compressible":
            return [(st, ip.make(ip.fresh(st, cs.frame, cs.block, "cmp", cs.dty), cs.dty))]
        if cs.rname in ("body_image::BodyImage::len", "body_image::BodyImage::is_empty"):
            r = self.role_of(ip, st, cs.args[0])
            if r is not None:
                n = M.clen(ip, st, O(ip.sym(("role", r))))
                return [(st, I(n) if cs.rname.endswith("len") else B("eq", n))]
        if cs.rname == "body_image::BodyImage::write_to":
            # contract checked by C06: writes the whole content, returns its length
            r = self.role_of(ip, st, cs.args[0])
            if r is not None:
                c = O(ip.sym(("role", r)))
                return self.put(ip, cs, st, cs.args[1], cs.atys[1], c)
        return None

    def put(self, ip, cs, st, out, oty, x):
        """Write content x to the writer; Ok carries its length."""
        n = M.clen(ip, st, x)
        sa, so = cs.args, cs.atys
        cs.args = [out, S(x, ZERO, n)]
        cs.atys = [oty, None]
        try:
            o = MS.m_write_all(ip, cs, st)
        finally:
            cs.args, cs.atys = sa, so
        return [(s, MS.ok(I(n)) if is_ok(v) else v) for s, v in o]


class Summaries(Env):
    """Env + the public block writers by their (separately checked) contract."""

    def on_call(self, ip, cs, st):
        if cs.rname in ("barc::write_headers", "barc::write_body"):
            r = self.role_of(ip, st, cs.args[2])
            pad = ip.decide(st, cs.args[1])
            if r is not None and pad is not None:
                x = T("block", O(ip.sym(("role", r))), K(bool(pad)))
                return self.put(ip, cs, st, cs.args[0], cs.atys[0], x)
        return Env.on_call(self, ip, cs, st)


def c_blocks(ctx, prop):
    """Contract of the public block writers."""
    for fname, hdr in (("barc::write_headers", True), ("barc::write_body", False)):
        f = ctx.fn(fname)
        for pad in (True, False):
            ip = ctx.ip([Env(ctx)])
            pre = {}

            def setup(ip, st, args):
                t = f.locals[3].to
                r = "meta" if hdr else "req_body"
                s = ip.sym(("role", r), t, (("role", r),))
                args[2] = R(("H", Id(s)))
                args[1] = TRUE if pad else FALSE
                pre["x"] = O(s)
            ex, args = ctx.entry(ip, f, setup)
            n_ok = 0
            for e in ex:
                st, ret = e.state, ip.nv(e.state, e.ret)
                if not is_ok(ret):
                    continue
                n_ok += 1
                w = M.rd(ip, st, args[0])
                c0 = O(int(args[0].root[1]))
                n0 = Lin.sym(ip.sym(("attr", Id(c0.id), "n"), None, (), True))
                n = M.lin(ip, st, w, "n") - n0
                got = M.cnorm(ip, st, M.content(ip, st, w))
                body = M.cnorm(ip, st, T("flat", T("hl", pre["x"]))) if hdr else pre["x"]
                plain = M.append(ip, st, c0, body)
                padded = M.append(ip, st, plain, C(b"\r\n"))
                r = ret.fields.get(0)
                size = M.clen(ip, st, body)
                cnt = MH.hlen(ip, st, pre["x"]) if hdr else size
                is_pad = M.ceq(ip, st, got, padded)
                is_plain = M.ceq(ip, st, got, plain)
                k = "padding" if pad else "no padding"
                if prop == "C16":
                    ctx.ob(key_of(f, k, "returned length"), isinstance(r, I) and st.num.eq(r.lin, n),
                           "the returned length %s is not the number of bytes written %s" % (
                               r.show(ip.st) if r is not None else "?", st.num.norm(n).show(ip.st)), f.span)
                if prop == "C18":
                    ctx.ob(key_of(f, k, "written"), is_pad or is_plain,
                           "writes %s" % got.show(ip.st), f.span)
                    if pad:
                        empty = st.num.eq(cnt, ZERO) or (isinstance(r, I) and st.num.eq(r.lin, ZERO))
                        nonempty = st.num.entails_ge(cnt - 1) or (isinstance(r, I) and st.num.entails_ge(r.lin - 3)) or st.num.entails_ge(n - 3)
                        ctx.ob(key_of(f, k, "padded iff not empty"), (empty and is_plain) or (nonempty and is_pad),
                               "end-of-part padding is not written exactly for non-empty parts", f.span)
                    else:
                        ctx.ob(key_of(f, k, "not padded"), is_plain, "padding is written although not requested", f.span)
            if n_ok == 0:
                raise CheckError("no successful return of %s" % fname)


class Writer(Summaries):
    """Typestate of the archive file during one record write."""

    def __init__(self, ctx, prop):
        Summaries.__init__(self, ctx)
        self.prop = prop

    def ob(self, prop, cs, what, okv, msg):
        if self.prop == prop:
            self.ctx.ob("%s / %s" % ("barc::BarcWriter::write", what), okv, msg, cs.where())

    def on_write(self, ip, cs, st, root, path, x, n, isf):
        if not isf:
            return
        v = ip.read(st, root, path, None)
        pos, end = M.lin(ip, st, v, "pos"), M.lin(ip, st, v, "end")
        ph = st.g("ph")
        start = st.g("start")
        start = start.lin if isinstance(start, I) else None
        if ph is None or ph == "reserving":
            # the placeholder, possibly in several pieces
            if ph is None:
                self.ctx.count("placeholder writes")
                st.setg("start", I(pos))
                st.setg("head", EMPTY)
            self.ob("C15", cs, "appends at the end", st.num.eq(pos, end), "the first write of a record may not be at the end of the archive")
            h = M.append(ip, st, st.g("head"), x)
            f, lit, ln = head_fields(ip, st, h)
            if ln is not None and ln < HEAD:
                st.setg("ph", "reserving")
                st.setg("head", h)
                return
            self.ob("C14", cs, "placeholder first", ln == HEAD and lit.get(19) == ord("R"),
                    "the first thing written is not a placeholder head (type R)")
            self.ob("C17", cs, "placeholder size", ln == HEAD, "the placeholder head is not %d bytes" % HEAD)
            st.setg("ph", "reserved")
            st.setg("head", EMPTY)
            return
        if ph == "final":
            self.ob("C14", cs, "nothing after the final head", False, "the archive is written to after the record was made visible")
            return
        if st.num.eq(pos, end) and ph != "finishing":
            st.setg("ph", "payload")
            return
        # overwriting
        h = st.g("head")
        if h is None or ph != "finishing":
            h = EMPTY
        off = M.clen(ip, st, h)
        h = M.append(ip, st, h, x)
        f, lit, ln = head_fields(ip, st, h)
        self.ob("C15", cs, "overwrites only its own head",
                start is not None and st.num.eq(pos, start + off) and st.num.entails_ge(Lin(HEAD) - off - n),
                "bytes other than the record's own placeholder head are overwritten (at %s, %s bytes)" % (
                    st.num.norm(pos).show(ip.st), st.num.norm(n).show(ip.st)))
        enc, fin = st.g("enc"), st.g("fin")
        o = st.num.const(off)
        if o is None or o <= 19:
            # from here on the record may be visible
            self.ob("C14", cs, "payload complete before the final head", enc is None or fin is True,
                    "the final head is written although the compressed stream was not completed")
            if ln is not None:
                self.ob("C14", cs, "final head at once", ln <= 19 or ln >= 50,
                        "the record becomes visible before all lengths of its head are written")
        if ln is not None and ln < HEAD:
            st.setg("ph", "finishing")
            st.setg("head", h)
            return
        self.ctx.count("final head writes")
        self.payload(ip, cs, st, v, enc)
        self.final_head(ip, cs, st, v, h, start, end, enc)
        st.setg("ph", "final")
        st.setg("head", EMPTY)

    def pieces(self, ip, st, v, enc):
        """Payload parts in order: {role: (length, pad)} or None."""
        c = st.g("payload") if enc is not None else M.content(ip, st, v)
        if c is None:
            return None, "the payload is not known"
        while isinstance(c, T) and c.op == "over":
            c = c.args[0]
        ps = flatten(c)
        if enc is None:
            # previous archive content and the placeholder
            if len(ps) < 2 or not isinstance(ps[1], C):
                return None, "the payload does not follow the placeholder"
            rest = ps[1].b[HEAD:]
            ps = ([C(rest)] if rest else []) + ps[2:]
        out = {}
        i = 0
        want_pad = enc is None
        for r in PARTS:
            p = ps[i] if i < len(ps) else None
            o = O(ip.sym(("role", r)))
            if isinstance(p, T) and p.op == "block" and p.args[0] == o:
                out[r] = (M.clen(ip, st, p), p.args[1].x)
                i += 1
                continue
            raw = o if r.endswith("body") else T("flat", T("hl", o))
            if p is not None and M.ceq(ip, st, p, raw):
                n = M.clen(ip, st, p)
                i += 1
                pad = False
                if i < len(ps) and isinstance(ps[i], C) and ps[i].b[:2] == b"\r\n":
                    pad = True
                    n = n + 2
                    rest = ps[i].b[2:]
                    if rest:
                        ps[i] = C(rest)
                    else:
                        i += 1
                out[r] = (n, pad or not want_pad and False)
                continue
            cnt = M.clen(ip, st, o) if r.endswith("body") else MH.hlen(ip, st, o)
            if st.num.eq(cnt, ZERO):
                out[r] = (ZERO, want_pad)
                continue
            return None, "expected %s next in the payload, found %s" % (r, p.show(ip.st) if p is not None else "nothing")
        if i != len(ps):
            return None, "extra bytes at the end of the payload: %s" % ps[i].show(ip.st)
        return out, ""

    def payload(self, ip, cs, st, v, enc):
        m = {None: "plain", "GzEncoder": "gzip", "CompressorWriter": "brotli"}.get(enc, str(enc))
        self.ctx.count("payloads " + m)
        out, why = self.pieces(ip, st, v, enc)
        self.ob("C14", cs, "payload complete (%s)" % m, out is not None, why)
        self.ob("C18", cs, "payload order (%s)" % m, out is not None, why)
        if out is not None:
            for r in PARTS:
                self.ob("C18", cs, "padding of %s (%s)" % (r, m), out[r][1] == (enc is None),
                        "end-of-part padding of %s does not match the %s form" % (r, m))

    def final_head(self, ip, cs, st, v, x, start, end, enc):
        f, lit, ln = head_fields(ip, st, x)
        self.ob("C17", cs, "final head size", ln == HEAD, "a value let through may not fit its field, or the head is not %d bytes" % HEAD)
        for off, (w, role) in sorted(FIELDS.items()):
            if role in ("type", "compression"):
                continue
            p = f.get(off)
            good = p is not None and p[0] == w and isinstance(p[1], T) and p[1].op == "farg" and \
                p[1].args[1].x == "lower_hex" and p[1].args[3].x
            if p is None and all(lit.get(off + i) is not None for i in range(w)):
                good = all(chr(lit[off + i]) in "0123456789abcdef" for i in range(w))
            self.ob("C17", cs, "field %s" % role, good, "field %s is not %d zero-padded lower-case hex digits at byte %d" % (role, w, off))
        for off in range(HEAD):
            if any(o <= off < o + w for o, (w, _) in FIELDS.items()):
                continue
            want = (b"BARC2 " + b" " * 44 + b"\r\n\r\n")[off]
            self.ob("C17", cs, "separators", lit.get(off) == want, "byte %d of the head is not the expected separator" % off)
        if ln != HEAD or start is None:
            self.ob("C16", cs, "head", False, "the final head is not determined")
            return

        def num(off):
            p = f.get(off)
            if p is None:
                w = FIELDS[off][0]
                try:
                    return Lin(int(bytes(lit[off + i] for i in range(w)).decode(), 16))
                except (KeyError, ValueError):
                    return None
            a = p[1].args[0] if isinstance(p[1], T) and p[1].op == "farg" else None
            return a.lin if isinstance(a, I) else None
        out, why = self.pieces(ip, st, v, enc)
        for off, role in ((22, "meta"), (28, "req_headers"), (34, "req_body"), (45, "res_headers")):
            a = num(off)
            self.ob("C16", cs, "length of " + role, out is not None and a is not None and st.num.eq(a, out[role][0]),
                    "the head's length of %s is %s, %s bytes were written" % (
                        role, a.show(ip.st) if a is not None else "?", out[role][0].show(ip.st) if out else "?"))
        a = num(6)
        tot = end - start - HEAD
        self.ob("C16", cs, "total length", a is not None and st.num.eq(a, tot), "the total length %s is not the %s bytes stored" % (
            a.show(ip.st) if a is not None else "?", st.num.norm(tot).show(ip.st)))
        want = FLAGS.get(enc)
        self.ob("C16", cs, "compression flag", want is not None and lit.get(20) == ord(want),
                "the compression flag is %r for a payload written with %s" % (chr(lit[20]) if 20 in lit else "?", enc or "no encoder"))
        rt = ip.sym(("role", "rec_type"))
        d = st.num.const(Lin.sym(ip.discr_sym(rt)))
        names = [v["name"] for v in self.ctx.adt("barc::RecordType")["variants"]]
        want = {"Reserved": "R", "Dialog": "D"}.get(names[int(d)]) if d is not None else None
        self.ob("C16", cs, "type flag", want is not None and lit.get(19) == ord(want),
                "the type flag %r is not that of the record's own type" % (chr(lit[19]) if 19 in lit else "?"))

    def on_call(self, ip, cs, st):
        if cs.rname in ("std::fs::File::set_len", "std::fs::OpenOptions::truncate", "std::fs::File::try_clone"):
            self.ob("C15", cs, "no truncation", False, "the archive file is passed to %s" % cs.rname)
        return Summaries.on_call(self, ip, cs, st)


class Opening(IP.Rule):
    def __init__(self, ctx):
        self.ctx = ctx

    def on_open(self, ip, cs, st, flags, path):
        self.ctx.count("opens")
        self.ctx.ob("barc::BarcFile::writer / existing records kept", flags["truncate"] is False,
                    "the archive may be truncated when it is opened", cs.where())
        self.ctx.ob("barc::BarcFile::writer / positioned writes", flags["append"] is False and flags["write"] is True,
                    "the archive is not opened for positioned writing", cs.where())


def writer(ctx, prop):
    f = ctx.fn("barc::BarcWriter::write")
    rule = Writer(ctx, prop)
    ip = ctx.ip([rule])
    ex, args = ctx.entry(ip, f)
    n = 0
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        ph = st.g("ph")
        if is_ok(ret):
            n += 1
            if prop == "C14":
                ctx.ob(key_of(f, "success means visible"), ph == "final", "success is returned without the final head having been written", f.span)
            if prop == "C15":
                s, r = st.g("start"), ret.fields.get(0)
                ctx.ob(key_of(f, "returned offset"), isinstance(s, I) and isinstance(r, I) and st.num.eq(s.lin, r.lin),
                       "the returned offset is not the position of the record's head", f.span)
    if n == 0:
        raise CheckError("no successful return of BarcWriter::write")
    ctx.counts["successful returns"] = n
    ctx.floor("placeholder writes", 1)
    ctx.floor("final head writes", 1)
    ctx.floor("strategies", 3)
    for m in ("plain", "gzip", "brotli"):
        ctx.ob(key_of(f, "a %s record can be written" % m), ctx.counts.get("payloads " + m, 0) > 0,
               "no path of the writer completes a %s record" % m, f.span)
    if prop == "C15":
        ctx.entry(ctx.ip([Opening(ctx)]), ctx.fn("barc::BarcFile::writer"))
        ctx.floor("opens", 1)


def c14(ctx):
    writer(ctx, "C14")


def c15(ctx):
    writer(ctx, "C15")


def c16(ctx):
    c_blocks(ctx, "C16")
    writer(ctx, "C16")
