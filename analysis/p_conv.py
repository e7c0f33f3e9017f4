"""Conversions between dialogs and records, and symbol tables: C19, C23."""
from common import *
import models_std as MS
import models_http as MH
from models_std import some, NONE
from p_body import key_of
import p_barc
import p_read

FWD = "<barc::Record as core::convert::TryFrom<body_image::Dialog>>::try_from"
BACK = "<body_image::Dialog as core::convert::TryFrom<barc::Record>>::try_from"
ENC = "body_image::Encoding"
# component -> the metadata name documented for it
NAMES = {"url": b"url", "method": b"method", "version": b"response-version", "status": b"response-status",
         "res_decoded": b"response-decoded"}
CARRIED = ("req_headers", "req_body", "res_headers", "res_body")
# `{:?}` of http::Version (http 0.2), by variant of its inner enumeration
VERSIONS = {"Http09": b"HTTP/0.9", "Http10": b"HTTP/1.0", "Http11": b"HTTP/1.1", "H2": b"HTTP/2.0", "H3": b"HTTP/3.0"}
VERSION = "http::version::Version"


def field_index(ctx, path):
    return {f[0]: i for i, f in enumerate(ctx.adt(path)["variants"][0]["fields"])}


def known(ip, st, v, d=0):
    """Bytes of a value if they are a constant."""
    c = M.content(ip, st, v) if not isinstance(v, C) else v
    n = 0
    while isinstance(c, (R, RS, S)) and n < 4:
        c = M.content(ip, st, M.rd(ip, st, c))
        n += 1
    if isinstance(c, T) and c.op == "ck":
        c = M.cnorm(ip, st, c)
    if isinstance(c, C):
        return c.b
    if isinstance(c, T) and c.op == "app":
        a, b = known(ip, st, c.args[0]), known(ip, st, c.args[1])
        return a + b if a is not None and b is not None else None
    if isinstance(c, T) and c.op == "empty" or c == EMPTY:
        return b""
    return None


def elem_index(ip, v, want):
    """Index of the element of a sequence a text was made from."""
    todo = list(v.sym_ids())
    for _ in range(6):
        nxt = []
        for j in todo:
            nm = ip.st.info[j].name
            if nm[0] == "elem" and want(ip.st.info[j].prov | ip.vprov(nm[1])):
                k = nm[2]
                return k if isinstance(k, Lin) else (k.lin if isinstance(k, I) else Lin(k) if isinstance(k, int) else None)
            for y in nm:
                if isinstance(y, Val):
                    nxt.extend(y.sym_ids())
                elif isinstance(y, Id):
                    nxt.append(int(y))
        todo = nxt
    return None


def made(fn, s, adt):
    """The statement makes a value of the type from a constant or variant."""
    def walk(x):
        if isinstance(x, dict):
            if "ty" in x and isinstance(x["ty"], int) and fn.facts.types[x["ty"]].adt == adt:
                return True
            return any(walk(y) for y in x.values())
        if isinstance(x, list):
            return any(walk(y) for y in x)
        return False
    r = s.get("r", {}) if isinstance(s, dict) else {}
    if "use" in r:
        return isinstance(r["use"], dict) and "k" in r["use"] and walk(r["use"])
    return "agg" in r and walk(r)


def pinned(ip, st, want, at=None):
    """Constant strings the facts on the path equate with a string whose
    provenance includes the label want."""
    out = set()
    el = {}
    for i in st.num.ids():
        nm = ip.st.info[i].name
        if nm[0] == "isb" and nm[1] == "eq" and st.num.const(Lin.sym(i)) == 1:
            for a, b in ((nm[2], nm[3]), (nm[3], nm[2])):
                if isinstance(a, C) and (want is None or want in ip.vprov(b)):
                    k = elem_index(ip, b, lambda p: want in p)
                    if at is None or k is None or st.num.eq(k, at):
                        out.add(a.b)
        elif nm[0] == "elem" and (want is None or want in ip.vprov(nm[1])):
            c = st.num.const(Lin.sym(i))
            if c is not None and isinstance(nm[2], Lin) and not nm[2].t:
                el.setdefault(nm[1], {})[int(nm[2].c)] = int(c)
    for c, m in el.items():
        ks = sorted(m.items())
        n = st.num.const(M.clen(ip, st, c))
        if n is not None and [k for k, _ in ks] == list(range(int(n))):
            out.add(bytes(x for _, x in ks))
    return out


def framing(ip, st, want, text):
    """How the strings equated with the text were cut out of the stored value:
    (separator, ways trimmed), where both are known."""
    out = set()
    for i in st.num.ids():
        nm = ip.st.info[i].name
        if nm[0] != "isb" or nm[1] != "eq" or st.num.const(Lin.sym(i)) != 1:
            continue
        for a, b in ((nm[2], nm[3]), (nm[3], nm[2])):
            if not (isinstance(a, C) and a.b == text and want in ip.vprov(b)):
                continue
            trims, sep, other = set(), None, False
            todo, seen = [b], set()
            while todo and len(seen) < 20:
                v = todo.pop()
                if isinstance(v, T) and v.op == "split":
                    s = v.args[1]
                    c = st.num.const(s.lin) if isinstance(s, I) else None
                    sep = chr(int(c)).encode() if c is not None else s.b if isinstance(s, C) else sep
                    continue
                for j in v.sym_ids() if isinstance(v, Val) else (int(v),):
                    if j in seen:
                        continue
                    seen.add(j)
                    n = ip.st.info[j].name
                    if n[0] == "trim":
                        trims.add(n[2])
                    elif n[0] not in ("elem", "deref"):
                        other = True
                        continue
                    todo.extend(n[1:2])
            if sep is not None and not other:
                out.add((sep, frozenset(trims)))
    return out


def find_adts(v, path, d=0):
    if isinstance(v, A) and d < 5:
        if v.adt == path:
            yield v
        elif v.adt not in ("array", "tuple"):
            for x in v.fields.values():
                yield from find_adts(x, path, d + 1)


def version_variant(ip, st, v):
    """Name of the inner variant of a version value, if determined."""
    ad = ip.p.adt("http::version::Http")
    names = [x["name"] for x in ad["variants"]] if ad else list(VERSIONS)
    v = ip.nv(st, v)
    for _ in range(3):
        if isinstance(v, A) and v.variant is not None and v.adt != VERSION:
            return names[v.variant] if v.variant < len(names) else None
        if isinstance(v, A) and 0 in v.fields:
            v = ip.nv(st, v.fields[0])
        else:
            break
    return None


REORDER = {"reverse", "sort", "sort_by", "sort_unstable", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "dedup", "dedup_by", "dedup_by_key", "truncate",
           "swap", "pop", "remove", "clear", "retain", "drain", "swap_remove", "rotate_left", "rotate_right"}
ADAPT = {"rev", "skip", "take", "step_by", "skip_while", "take_while"}


def reorder(rule, ip, cs, st, where):
    """The list of encodings is not reordered or cut."""
    m = (cs.name or "").split("::")[-1]
    t = cs.atys[0].strip() if cs.atys else None
    if t is None or not cs.fn.local:
        return
    el = t.args[0] if t.adt == "alloc::vec::Vec" and t.args else t.to if t.k in ("slice", "array") else None
    if m in REORDER and el is not None and el.adt == ENC:
        rule.ob("encoding list / " + m, False, "the list of encodings is changed by %s" % m, cs.where())
    if m in ADAPT and (cs.name or "").startswith("core::iter::traits::") and t is not None and \
            ("Encoding" in t.s or t.adt in ("core::str::iter::Split",)):
        rule.ob("encoding list / " + m, False, "the list of encodings is cut or reordered by %s" % m, cs.where())


# accessors yielding only a part of a component
PARTS = {"http::uri::Uri": ("path", "path_and_query", "query", "host", "authority", "scheme", "scheme_str", "port", "port_u16", "into_parts"),
         "http::status::StatusCode": ("canonical_reason",)}


def partial(ip, cs, st):
    """A result made of only a part of a URL or status."""
    m = (cs.rname or "").split("::")[-1]
    t = cs.atys[0].strip() if cs.atys else None
    if t is None or t.adt not in PARTS or m not in PARTS[t.adt] or not (cs.rname or "").startswith(t.adt):
        return None
    of = [x for x in M.prov(ip, st, cs.args[0]) if isinstance(x, str)]
    if len(of) != 1:
        return None
    v = O(ip.sym(("partof", of[0], m), None, ("the %s of %s" % (m, of[0]),)))
    if cs.dty.adt != "core::option::Option":
        return [(st, v)]
    return [(st.copy(), NONE), (st, some(v))]


class Forward(IP.Rule):
    def __init__(self, ctx, texts=None):
        self.ctx = ctx
        self.texts = texts
        self.pushes = 0
        self.added = {}
        self.seps = set()
        self.after = set()

    def ob(self, what, okv, msg, where):
        if self.ctx.prop == "C23":
            self.ctx.ob("%s / %s" % (FWD, what), okv, msg, where)

    def on_call(self, ip, cs, st):
        n = cs.name or ""
        reorder(self, ip, cs, st, FWD)
        r = partial(ip, cs, st)
        if r is not None:
            return r
        if n.endswith("ToString::to_string") and self.texts and cs.atys and cs.atys[0].k == "ref" and cs.atys[0].to.adt == ENC:
            v = M.rd(ip, st, cs.args[0])
            s = ip.sym(("enctext", v), None, tuple(ip.vprov(v)))
            if all(self.texts.values()):
                st.num.add_ge(M.length(ip, st, O(s)) - 1)
            return [(st, O(s))]
        if cs.rname in ("alloc::string::String::push_str", "alloc::string::String::push"):
            self.push(ip, cs, st)
        return None

    def push(self, ip, cs, st):
        if st.g("last") is None:
            return
        x = cs.args[1]
        c = known(ip, st, x) if cs.rname.endswith("push_str") else None
        if c is None and isinstance(x, I) and st.num.const(x.lin) is not None:
            c = chr(int(st.num.const(x.lin))).encode()
        last, n = st.g("last"), st.g("n")
        pv = M.prov(ip, st, x)
        if c is not None and (not self.texts or c not in self.texts.values()):
            if b"," in c:
                self.ob("encoding list", last == "item" and not c.strip(b" ,") and c.count(b",") == 1,
                        "a separator is put where no encoding precedes it, or is more than one separator", cs.where())
                st.setg("last", "sep")
                self.seps.add(c)
            elif not c.strip():
                self.after.add(c)
                if last == "item":
                    self.ob("encoding list", False, "encodings are separated by white space only", cs.where())
            return
        if c is None and "res_decoded" not in pv:
            return
        self.pushes += 1
        self.ob("encoding list", last in ("none", "sep"), "two encodings are put in the list with no separator between them", cs.where())
        st.setg("last", "item")
        if isinstance(n, I):
            e = elem_index(ip, M.content(ip, st, MS.view_of(ip, None, st, x)) if not isinstance(x, C) else x, lambda p: "res_decoded" in p)
            if e is not None:
                self.ob("encoding order", st.num.eq(e, n.lin), "the encodings are not listed in their original order", cs.where())
            st.setg("n", I(n.lin + 1))

    def on_header_add(self, ip, cs, st, root, path, name, value, isinsert):
        nm = known(ip, st, name)
        if nm is None:
            self.ob("name", False, "metadata is stored under a name that is not a constant", cs.where())
            return
        pv = frozenset(x for x in M.prov(ip, st, value) if isinstance(x, str))
        self.added.setdefault(nm, []).append((ip, st.copy(), value, pv))
        g = "h:" + nm.decode("latin1")
        self.ob("once per name", st.g(g) is None, "%s is stored twice" % nm.decode("latin1"), cs.where())
        st.setg(g, tuple(sorted(pv)))


def part(ip, name):
    return O(ip.sym(("part", name), None, (name,)))


def dialog_value(ctx, ip, path="body_image::Dialog", d=0):
    """A dialog whose components carry their names as provenance."""
    fs = {}
    for i, f in enumerate(ctx.adt(path)["variants"][0]["fields"]):
        sub = [x for x in ("body_image::Prolog", "body_image::Epilog") if f[1].split("::")[-1] == x.split("::")[-1]]
        fs[i] = dialog_value(ctx, ip, sub[0], d + 1) if sub and d == 0 else part(ip, f[0])
    return A(path, None, fs, ip.sym(("parts", path)))


def components(ctx, ip, st, v, path="body_image::Dialog", d=0):
    """Component values by name of a dialog value."""
    out = {}
    v = ip.nv(st, v)
    for i, f in enumerate(ctx.adt(path)["variants"][0]["fields"]):
        sub = [x for x in ("body_image::Prolog", "body_image::Epilog") if f[1].split("::")[-1] == x.split("::")[-1]]
        x = v.fields.get(i) if isinstance(v, A) else None
        if x is None:
            continue
        if sub and d == 0:
            out.update(components(ctx, ip, st, x, sub[0], d + 1))
        else:
            out[f[0]] = x
    return out


def forward(ctx, texts):
    """Dialog -> Record."""
    f = ctx.fn(FWD)
    rule = Forward(ctx, texts)
    ip = ctx.ip([rule], max_disj=60, max_parts=4000)

    def setup(ip, st, args):
        args[0] = dialog_value(ctx, ip)
        st.setg("last", "none")
        st.setg("n", I(0))
        for n in NAMES.values():
            st.setg("h:" + n.decode(), None)
    ex, args = ctx.entry(ip, f, setup)
    ri = field_index(ctx, "barc::Record")
    n = 0
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        if not is_ok(ret):
            continue
        n += 1
        if ctx.prop != "C23":
            continue
        for comp, nm in NAMES.items():
            g = st.g("h:" + nm.decode())
            if comp == "res_decoded":
                ln = M.lin(ip, st, part(ip, comp), "len")
                if g is None:
                    ctx.ob(key_of(f, comp), st.num.eq(ln, ZERO), "the encodings decoded are not stored although there are some", f.span)
                    continue
                k = st.g("n")
                if rule.pushes and isinstance(k, I):
                    ctx.ob(key_of(f, comp, "all"), st.num.eq(k.lin, ln), "not every encoding decoded is listed", f.span)
                    ctx.ob(key_of(f, comp, "end"), st.g("last") in ("item", "none"), "the list of encodings ends in a separator", f.span)
                    if not any(isinstance(x, str) for x in g):
                        continue
            ctx.ob(key_of(f, comp), g is not None and tuple(g) == (comp,),
                   "%s holds %s instead of the dialog's %s" % (nm.decode(), "nothing" if g is None else " and ".join(g) or "a constant", comp), f.span)
        rec = ip.nv(st, M.rd(ip, st, ret.fields[0]))
        for c in CARRIED:
            v = rec.fields.get(ri[c]) if isinstance(rec, A) and c in ri else None
            pv = {x for x in M.prov(ip, st, v) if isinstance(x, str)} if v is not None else set()
            ctx.ob(key_of(f, c), v is not None and ip.nv(st, v) == ip.nv(st, part(ip, c)) or pv == {c} and same_part(ip, st, v, c),
                   "the record's %s is not the dialog's (%s)" % (c, " and ".join(sorted(pv)) or "a constant"), f.span)
        rt = rec.fields.get(ri.get("rec_type")) if isinstance(rec, A) else None
        names = [v["name"] for v in ctx.adt("barc::RecordType")["variants"]]
        rt = ip.nv(st, rt) if rt is not None else None
        ctx.ob(key_of(f, "record type"), isinstance(rt, A) and rt.variant is not None and names[rt.variant] == "Dialog",
               "a dialog becomes a record of another type", f.span)
        mt = rec.fields.get(ri.get("meta")) if isinstance(rec, A) else None
        pv = {x for x in M.prov(ip, st, mt) if isinstance(x, str)} if mt is not None else set()
        ctx.ob(key_of(f, "metadata"), {"url", "method", "version", "status"} <= pv,
               "the record's metadata is not the set the components were stored in", f.span)
    ctx.counts["records converted to"] = n
    if n == 0:
        raise CheckError("no successful return of %s" % FWD)
    return rule


def same_part(ip, st, v, c):
    """v is component c itself, possibly with fields copied out and back."""
    v = ip.nv(st, v)
    return isinstance(v, A) and v.base is not None and v.base == part(ip, c).id




class Back(IP.Rule):
    def __init__(self, ctx):
        self.ctx = ctx
        self.encs = {}
        self.frames = {}
        self.vers = {}
        self.gets = set()
        self.pushes = 0

    def ob(self, what, okv, msg, where):
        if self.ctx.prop == "C23":
            self.ctx.ob("%s / %s" % (BACK, what), okv, msg, where)

    def on_call(self, ip, cs, st):
        n = cs.rname or ""
        if n == "http::header::map::HeaderMap::get" or n == "<http::header::map::HeaderMap as core::ops::index::Index<K>>::index":
            return self.get(ip, cs, st, n.endswith("index"))
        if n == "http::header::map::HeaderMap::remove":
            return self.get(ip, cs, st, None)
        if n == "http::header::map::HeaderMap::contains_key":
            s = self.present(ip, cs, st)
            return None if s is None else [(st, B("eq", s - 1))]
        if (cs.name or "").endswith("Iterator::next"):
            v = M.rd(ip, st, cs.args[0])
            if isinstance(v, A) and isinstance(v.fields.get("seq"), T) and v.fields["seq"].op == "split":
                st.setg("items", I(v.fields["idx"].lin + 1))
        reorder(self, ip, cs, st, BACK)
        if n == "alloc::vec::Vec::insert" and cs.atys[0].strip().args and cs.atys[0].strip().args[0].adt == ENC:
            ln = M.lin(ip, st, M.rd(ip, st, cs.args[0]), "len")
            self.ob("encoding order", isinstance(cs.args[1], I) and st.num.eq(cs.args[1].lin, ln), "an encoding is not stored at its place in the list", cs.where())
        if n == "alloc::vec::Vec::push" and cs.atys[1].adt == ENC:
            self.push(ip, cs, st)
        return None

    def label(self, ip, cs, st):
        m = M.rd(ip, st, cs.args[0])
        pv = [x for x in M.prov(ip, st, m) if isinstance(x, str)]
        nm = known(ip, st, cs.args[1])
        self.ob("metadata name", nm is not None, "metadata is looked up under a name that is not a constant", cs.where())
        if len(pv) != 1 or nm is None:
            return None
        self.gets.add((pv[0], nm))
        return "%s:%s" % (pv[0], nm.decode("latin1"))

    def present(self, ip, cs, st):
        lb = self.label(ip, cs, st)
        return None if lb is None else Lin.sym(ip.sym(("has", lb), None, (lb,), True))

    def get(self, ip, cs, st, index):
        lb = self.label(ip, cs, st)
        if lb is None:
            return None
        has = Lin.sym(ip.sym(("has", lb), None, (lb,), True))
        s = ip.sym(("hval", lb), None, (lb,))
        c = O(ip.sym(("hbytes", lb), None, (lb,)))
        v = A("http::header::value::HeaderValue", None, {"content": c, "len": I(M.clen(ip, st, c))}, s)
        if index is None:
            got = v
        else:
            st.mem[("H", Id(s))] = v
            got = R(("H", Id(s)))
        if index:
            return [(st, got)]
        outs = []
        no = st.copy()
        if ip.assume(no, B("eq", has)):
            outs.append((no, NONE))
        if ip.assume(st, B("eq", has - 1)):
            outs.append((st, some(got)))
        return outs

    def push(self, ip, cs, st):
        v = M.rd(ip, st, cs.args[0])
        n = M.lin(ip, st, v, "len")
        k = st.g("items")
        self.pushes += 1
        if isinstance(k, I):
            self.ob("encoding order", st.num.eq(n + 1, k.lin), "an encoding is not stored at its place in the list", cs.where())

    def on_assign(self, ip, fn, frame, b, st, pl, s, v):
        where = "%s:%s" % (fn.name, s.get("sp", "") if isinstance(s, dict) else "")
        for x in find_adts(v, ENC):
            if x.variant is not None and made(fn, s, ENC):
                k = st.g("items")
                ts = pinned(ip, st, "meta:response-decoded", k.lin - 1 if isinstance(k, I) else None)
                if k is not None or ts:
                    self.ob("encoding accepted", len(ts) == 1, "an encoding is produced from a text other than one of its own", where)
                for t in ts:
                    self.encs.setdefault(t, set()).add(x.variant)
                    self.frames.setdefault(t, set()).update(framing(ip, st, "meta:response-decoded", t))
        for x in find_adts(v, VERSION):
            k = version_variant(ip, st, x)
            if k is not None and made(fn, s, VERSION):
                ts = pinned(ip, st, "meta:response-version")
                for t in ts or (None,):
                    self.vers.setdefault(t, set()).add(k)


def backward(ctx):
    """Record -> Dialog."""
    f = ctx.fn(BACK)
    rule = Back(ctx)
    ip = ctx.ip([rule], max_disj=60, max_parts=4000)

    def setup(ip, st, args):
        fs = {i: part(ip, n) for n, i in field_index(ctx, "barc::Record").items()}
        args[0] = A("barc::Record", None, fs, ip.sym(("record",)))
    ex, args = ctx.entry(ip, f, setup)
    n = 0
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        if not is_ok(ret):
            continue
        n += 1
        if ctx.prop != "C23":
            continue
        cs = components(ctx, ip, st, M.rd(ip, st, ret.fields[0]))
        for c in CARRIED:
            v = cs.get(c)
            pv = {x for x in M.prov(ip, st, v) if isinstance(x, str)} if v is not None else set()
            ctx.ob(key_of(f, c), v is not None and ip.nv(st, v) == part(ip, c) or pv == {c} and same_part(ip, st, v, c),
                   "the dialog's %s is not the record's (%s)" % (c, " and ".join(sorted(pv)) or "a constant"), f.span)
        for c, nm in NAMES.items():
            lb = "meta:" + nm.decode()
            v = cs.get(c)
            has = Lin.sym(ip.sym(("has", lb), None, (lb,), True))
            if c == "res_decoded":
                if v is None:
                    continue
                ln = M.lin(ip, st, v, "len")
                if st.num.eq(has, ZERO):
                    ctx.ob(key_of(f, c, "absent"), st.num.eq(ln, ZERO), "encodings are produced although none are stored", f.span)
                elif rule.pushes:
                    ps = [i for i in st.num.ids() | set(ln.syms()) if ip.st.info[i].name[0] == "pieces"]
                    ctx.ob(key_of(f, c, "all"), any(st.num.eq(ln, Lin.sym(i)) for i in ps), "not every encoding stored is taken over", f.span)
                continue
            if v is None:
                ctx.ob(key_of(f, c), False, "the dialog's %s is not determined" % c, f.span)
                continue
            pv = {x for x in M.prov(ip, st, v) if isinstance(x, str)}
            ctx.ob(key_of(f, c, "present"), st.num.eq(has, Lin(1)) or lb in pv, "a dialog is produced although %s is missing" % nm.decode(), f.span)
            k = version_variant(ip, st, v) if c == "version" else None
            x = ip.nv(st, v)
            x = x.fields.get("content") if isinstance(x, A) else None
            if c == "status" and isinstance(x, T) and x.op == "ck":
                ctx.ob(key_of(f, c, "digits"), st.num.eq(x.args[1].lin, ZERO) and st.num.eq(x.args[2].lin, Lin(3)),
                       "the status is not taken from the three leading digits", f.span)
            elif isinstance(x, T) and x.op == "ck":
                ctx.ob(key_of(f, c, "whole"), False, "only a part of %s is taken" % nm.decode(), f.span)
            if k is not None:
                ps = {t for t, ks in rule.vers.items() if k in ks}
                ctx.ob(key_of(f, c), ps == {VERSIONS.get(k)},
                       "version %s is produced from %s" % (k, ", ".join("any other text" if t is None else t.decode("latin1") for t in ps)), f.span)
                continue
            ctx.ob(key_of(f, c), pv == {lb}, "the dialog's %s is made from %s instead of %s" % (c, " and ".join(sorted(pv)) or "a constant", lb), f.span)
    ctx.counts["dialogs converted to"] = n
    if n == 0:
        raise CheckError("no successful return of %s" % BACK)
    return rule


class Texts(IP.Rule):
    def on_fmt(self, ip, cs, st, x):
        st.setg("text", M.append(ip, st, st.g("text", EMPTY), x))


def encoding_texts(ctx):
    """variant -> text written for it (None if not determined)."""
    f = ctx.fn("<%s as core::fmt::Display>::fmt" % ENC)
    out = {}
    for i, v in enumerate(ctx.adt(ENC)["variants"]):
        ip = ctx.ip([Texts()])

        def setup(ip, st, args):
            st.mem[args[0].root] = A(ENC, i, {})
            st.setg("text", EMPTY)
        ex, args = ctx.entry(ip, f, setup)
        ts = {known(ip, e.state, e.state.g("text")) if isinstance(e.state.g("text"), Val) else None for e in ex if is_ok(ip.nv(e.state, e.ret))}
        out[i] = ts.pop() if len(ts) == 1 else None
    return out


def separation(ctx, fw, bk):
    """What the writer puts between encodings, the reader takes away."""
    bf = ctx.fn(BACK)
    for t, fr in sorted(bk.frames.items()):
        for sep, trims in sorted(fr, key=str):
            for w in sorted(fw.seps):
                cut = w.split(sep)
                ok = len(cut) == 2
                if ok:
                    left, right = cut[0], cut[1] + b"".join(fw.after)
                    ok = (not left or bool(trims & {"trim", "trim_end"})) and (not right or bool(trims & {"trim", "trim_start"}))
                ctx.ob(key_of(bf, "encoding list", t.decode("latin1")), ok,
                       "encodings are written separated by %r, but read back with more than their own text" % w.decode("latin1"), bf.span)


def c23(ctx):
    t = encoding_texts(ctx)
    separation(ctx, forward(ctx, t), backward(ctx))


def c19(ctx):
    names = [v["name"] for v in ctx.adt(ENC)["variants"]]
    t = encoding_texts(ctx)
    fw = forward(ctx, t)
    bk = backward(ctx)
    separation(ctx, fw, bk)
    df = ctx.fn("<%s as core::fmt::Display>::fmt" % ENC)
    bf = ctx.fn(BACK)
    for i, x in t.items():
        ctx.ob(key_of(df, names[i]), x is not None and len(x) > 0, "the text written for %s is not determined" % names[i], df.span)
        same = [names[j] for j in t if j != i and t[j] == x]
        ctx.ob(key_of(df, names[i], "distinct"), x is None or not same, "%s and %s are written alike" % (names[i], ", ".join(same)), df.span)
        if bk.encs and x is not None:
            got = bk.encs.get(x, set())
            ctx.ob(key_of(bf, "encoding", names[i]), got == {i},
                   "%s is written as %r, which is read back as %s" % (names[i], x.decode(), ", ".join(names[j] for j in got) or "nothing"), bf.span)
    ctx.counts["encodings"] = len(t)
    if set(bk.vers) - {None}:
        for k, x in VERSIONS.items():
            ctx.ob(key_of(bf, "version", k), bk.vers.get(x) == {k},
                   "version %s is written as %r, which is read back as %s" % (k, x.decode(), ", ".join(sorted(bk.vers.get(x, ()))) or "nothing"), bf.span)
    # names: every name written is looked up
    ff = ctx.fn(FWD)
    wr = set(fw.added)
    rd = {n for m, n in bk.gets if m == "meta"}
    for n in sorted(wr):
        ctx.ob(key_of(ff, "name", n.decode("latin1")), n in rd, "metadata is written under %r, which is never looked up" % n.decode("latin1"), ff.span)
    for n in sorted(rd):
        ctx.ob(key_of(bf, "name", n.decode("latin1")), n in wr, "metadata is looked up under %r, which is never written" % n.decode("latin1"), bf.span)
    for comp, nm in NAMES.items():
        for (ip, st, value, pv) in fw.added.get(nm, ()):
            if comp == "version":
                x = known(ip, st, value)
                if x is None:
                    ctx.ob(key_of(ff, "version text"), debug_of(ip, st, value), "the text written for a version is not its debug form", ff.span)
                else:
                    k = version_variant(ip, st, part(ip, "version"))
                    ctx.ob(key_of(ff, "version text"), k is None or VERSIONS.get(k) == x, "version %s is written as %r" % (k, x.decode("latin1")), ff.span)
    # flags of the head: what is written, what is accepted
    for sub, run, keep in (("C16", p_barc.writer, ("flag",)), ("C17", p_read.verdicts, ("type", "form", "can be read", "/ meta"))):
        c2 = Ctx(sub, ctx.p, ctx.tier)
        run(c2, sub)
        for k, o in c2.oblig.items():
            if any(x in k for x in keep):
                ctx.oblig[k] = o
                if k in c2.viol:
                    ctx.viol[k] = c2.viol[k]
        for k, v in c2.stats.items():
            ctx.stats[k] = ctx.stats.get(k, 0) + v
        ctx.fns |= c2.fns


def debug_of(ip, st, value):
    for x in subterms(ip, st, value):
        if isinstance(x, T) and x.op == "farg":
            return isinstance(x.args[1], K) and "ebug" in str(x.args[1].x)
    return False


def subterms(ip, st, v, d=0):
    yield v
    if d > 6:
        return
    if isinstance(v, T):
        for x in v.args:
            yield from subterms(ip, st, x, d + 1)
    elif isinstance(v, A):
        for x in v.fields.values():
            yield from subterms(ip, st, x, d + 1)
