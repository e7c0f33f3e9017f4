"""HTTP client: C33 (body-image-futio as built with its default features)."""
import facts as F_
from common import *
from interp import AnalysisLimit, CallSite, Rule
import models_std

RES = "core::result::Result"
OPT = "core::option::Option"
POLL = "core::task::poll::Poll"
EITHER = "futures_util::future::either::Either"
TUNE = "body_image_futio::tune::FutioTunables"
ERR = "body_image_futio::FutioError"
SINKS = {"AsyncBodySink": "Direct", "PermitBodySink": "Permit", "DispatchBodySink": "Dispatch"}
IDENT = ("into_future", "boxed", "boxed_local", "fuse", "into_stream", "by_ref", "unwrap_or_clone", "into_pin", "pin", "new_unchecked", "new",
         "as_mut", "get_mut", "get_unchecked_mut", "deref_mut", "deref", "into_inner_unchecked")


class Lost(Exception):
    pass


class Fetch(Rule):
    """Futures as terms, resolved where they are awaited: what happens under
    which time limits, and into what the body is collected."""

    def __init__(self, ctx, f):
        self.ctx = ctx
        self.f = f
        self.events = []

    # --- values
    def fut(self, ip, kind, **kw):
        return A("fut", None, dict(kw, kind=K(kind)), ip.sym(("fut", kind) + tuple(sorted(kw.items(), key=lambda x: x[0]))))

    def trace(self, ip, st, v, d=0):
        place = None
        while d < 12:
            d += 1
            if isinstance(v, R):
                place = v
                v = ip.read(st, v.root, v.path, None)
            elif isinstance(v, A) and v.adt in ("core::pin::Pin", "alloc::boxed::Box") and len(v.fields) >= 1 and 0 in v.fields:
                v = v.fields[0]
            else:
                break
        return place, v

    def is_fut(self, v, d=0):
        if not isinstance(v, A) or d > 6:
            return False
        if v.adt == "fut" or isinstance(v.adt, tuple) and v.adt[0] == "coroutine":
            return True
        return v.adt == EITHER and 0 in v.fields and self.is_fut(v.fields[0], d + 1)

    def lose(self, st, why):
        st.setg("lost", K(st.g("lost") or why))

    def ready(self, v):
        return A(POLL, 0, {0: v})

    # --- what awaiting yields
    def resolve(self, ip, cs, st, v, d=0):
        _, v = self.trace(ip, st, v)
        if d > 12 or not isinstance(v, A):
            raise Lost("a future")
        if v.adt == EITHER:
            if v.variant is None:
                raise Lost("either of two futures")
            return self.resolve(ip, cs, st, v.fields[0], d + 1)
        if isinstance(v.adt, tuple) and v.adt[0] == "coroutine":
            return self.run(ip, cs, st, v)
        if v.adt != "fut":
            raise Lost("a future of type %s" % (v.adt,))
        k = v.fields["kind"].x
        if k == "done":
            return [(st, v.fields["v"])]
        if k == "response":
            self.events.append("response")
            self.limits(ip, st, "response", "res_timeout")
            s2 = st.copy()
            st.setg("response", K(True))
            return [(st, A(RES, 0, {0: A("response", None, {}, ip.sym(("response",)))})),
                    (s2, A(RES, 1, {0: O(ip.sym(("no response",)))}))]
        if k == "forward":
            self.events.append("body")
            self.limits(ip, st, "body", "body_timeout")
            self.collect(ip, st, v)
            s2 = st.copy()
            st.setg("collected", K(True))
            return [(st, A(RES, 0, {0: UNIT})), (s2, A(RES, 1, {0: O(ip.sym(("broken off",)))}))]
        if k == "timeout":
            s2 = st.copy()
            n = len(self.events)
            lim = st.g("limits").args
            st.setg("limits", T("limits", *lim, v.fields["t"]))
            out = []
            for s, x in self.resolve(ip, cs, st, v.fields["of"], d + 1):
                s.setg("limits", T("limits", *lim))
                out.append((s, A(RES, 0, {0: x})))
            ev = set(self.events[n:])
            s2.setg("elapsed", K("response" if "response" in ev else "body" if "body" in ev else "nothing"))
            s2.setg("after", T("after", v.fields["t"]))
            out.append((s2, A(RES, 1, {0: A("tokio::time::error::Elapsed", None, {}, ip.sym(("elapsed",)))})))
            return out
        if k in ("map", "map_ok", "map_err", "err_into", "and_then", "then", "or_else"):
            out = []
            for s, x in self.resolve(ip, cs, st, v.fields["of"], d + 1):
                x = ip.nv(s, x)
                if k in ("map", "then"):
                    r = ip.call_closure(cs, s, v.fields["f"], [x])
                else:
                    if not isinstance(x, A) or x.variant not in (0, 1):
                        raise Lost("outcome of a future")
                    hit = 0 if k in ("map_ok", "and_then") else 1
                    if x.variant != hit:
                        out.append((s, x))
                        continue
                    if k == "err_into":
                        out.append((s, A(RES, 1, {0: T("errinto", x.fields[0])})))
                        continue
                    r = ip.call_closure(cs, s, v.fields["f"], [x.fields[0]])
                    if r is not None and k in ("map_ok", "map_err"):
                        r = [(s1, A(RES, hit, {0: y})) for s1, y in r]
                if r is None:
                    raise Lost("a closure given to a future")
                for s1, y in r:
                    if k in ("and_then", "then", "or_else"):
                        out.extend(self.resolve(ip, cs, s1, y, d + 1))
                    else:
                        out.append((s1, y))
            return out
        raise Lost("a future (%s)" % k)

    def run(self, ip, cs, st, v):
        g = ip.p.lookup(v.adt[1], cs.fn.facts)
        if g is None or not g.coroutine:
            raise Lost("an async block")
        F_.prepare(g)
        root = ("H", Id(ip.sym(("async", v.adt[1], cs.frame, cs.block))))
        st.mem[root] = v
        r = ip.inline(cs, st, g, [A("core::pin::Pin", None, {0: R(root, (), True)}), UNIT])
        if r is None:
            raise Lost("an async block")
        out = []
        for s, x in r:
            x = ip.nv(s, x)
            if not isinstance(x, A) or x.adt != POLL:
                raise Lost("an async block")
            if x.variant == 0:
                out.append((s, x.fields[0]))
        return out

    # --- rules
    def undecided(self, st, k):
        w = st.g("lost")
        if w:
            n = "undecided: %s (%s)" % (k, w)
            if n not in self.ctx.notes:
                self.ctx.notes.append(n)
            self.ctx.ob(k, True)
            return True
        return False

    def limits(self, ip, st, phase, which):
        k = "%s / time limit of the %s" % (self.f.name, phase)
        self.ctx.count(phase)
        if self.undecided(st, k):
            return
        w = ip.nv(st, self.want[which])
        lim = tuple(st.g("limits").args)
        if not isinstance(w, A) or w.variant is None:
            self.ctx.ob(k, False, "the %s is awaited without regard to the time limit configured" % phase, self.f.span)
            return
        if w.variant == 0:
            self.ctx.ob(k, not lim, "the %s is limited although no limit of its own is configured" % phase, self.f.span)
        else:
            t = ip.nv(st, ip.get_elem(st, w, (1, 0), None))
            self.ctx.ob(k, len(lim) == 1 and ip.nv(st, lim[0]) == t, "the %s is not bounded by (just) the limit configured for it" % phase, self.f.span)

    def collect(self, ip, st, v):
        name = self.f.name
        sink, ty = v.fields["sink"], v.fields["ty"].x
        k = "%s / collecting" % name
        if self.undecided(st, k):
            return
        pol = ip.nv(st, self.want["blocking_policy"])
        kind = next((p for n, p in SINKS.items() if re.search(r"\b%s<" % n, ty)), None)
        if kind is None or not isinstance(pol, A) or pol.variant is None:
            if kind is None:
                self.ctx.notes.append("undecided: sink of type %s" % ty)
                self.ctx.ob(k, True)
            else:
                self.ctx.ob(k + " / policy", False, "the body is collected without regard to the blocking policy", self.f.span)
        else:
            pn = self.ctx.adt(pol.adt)["variants"][pol.variant]["name"]
            self.ctx.ob(k + " / policy", kind == pn, "with policy %s the body is collected by a %s" % (pn, ty.split("::")[-1]), self.f.span)
        _, body = self.trace(ip, st, v.fields["body"])
        self.ctx.ob(k + " / source", isinstance(body, A) and body.adt == "respbody", "what is collected is not the body of the response", self.f.span)
        tn = [x for x in find(ip, st, sink, lambda x: isinstance(x, (O, A)) and x == self.tune)]
        self.ctx.ob(k + " / tunables", bool(tn), "the body is collected with other tunables", self.f.span)
        bs = [x for x in find(ip, st, sink, lambda x: isinstance(x, A) and x.adt == "body_image::BodySink")]
        p = body_parts(ip, st, self.roles, bs[0]) if len(bs) == 1 else None
        if p is None:
            self.ctx.notes.append("undecided: storage the body is collected in")
            self.ctx.ob(k, True)
            return
        self.ctx.ob(k + " / start", ip.decide(st, B("eq", p[2])) is True, "collecting does not start with nothing", self.f.span)
        dec = st.g("declared")
        if dec is None:
            self.ctx.ob(k + " / length", False, "the body is collected without looking at the length declared", self.f.span)
        if dec == "some":
            ln = st.g("length").lin
            mx, ram = self.want["max_body"].lin, self.want["max_body_ram"].lin
            self.ctx.ob(k + " / maximum", ip.decide(st, B("ge", mx - ln)) is True, "a body is collected whose length declared may exceed the maximum", self.f.span)
            if p[0] == "ram":
                self.ctx.ob(k + " / RAM maximum", ip.decide(st, B("ge", ram - ln)) is True,
                            "a body whose length declared may exceed the RAM maximum is collected in memory", self.f.span)
            else:
                self.ctx.count("to disk")
                d = st.g("tempdir")
                self.ctx.ob(k + " / directory", d is None or d == self.want["temp_dir"], "the body is collected in another directory than configured", self.f.span)

    # --- calls
    def on_call(self, ip, cs, st):
        n, r = cs.name or "", cs.rname or ""
        m = n.split("::")[-1]
        a = cs.args
        if r.startswith("hyper::client::client::Client::") and m in ("request", "get"):
            if self.rr is not None:
                self.ctx.ob(self.f.name + " / request", m == "request" and a[1] == self.rr, "the request sent is not the one given", self.f.span)
            return [(st, self.fut(ip, "response"))]
        if n == "core::clone::Clone::clone" and a:
            _, v = self.trace(ip, st, a[0])
            if v == self.tune:
                return [(st, v)]
        if r == "body_image_futio::decode::find_chunked":
            return [(st, B("eq", Lin.sym(ip.fresh(st, cs.frame, cs.block, "chunked", None))))]
        if r.startswith("tokio::time::timeout::timeout") and len(a) == 2:
            if m != "timeout":
                self.lose(st, r)
                return None
            return [(st, self.fut(ip, "timeout", t=ip.nv(st, a[0]), of=a[1]))]
        if m == "ready" and r.startswith(("core::future", "futures_util::future")) and len(a) == 1:
            return [(st, self.fut(ip, "done", v=a[0]))]
        if r == "body_image::BodySink::with_fs" and a:
            _, d = self.trace(ip, st, a[0])
            st.setg("tempdir", d)
            return None
        if not a:
            return None
        place, v = self.trace(ip, st, a[0])
        adt = v.adt if isinstance(v, A) else None
        if adt == "response":
            if m in ("into_parts",):
                root = ("H", Id(ip.sym(("parts",))))
                hp = A("respparts", None, {}, ip.sym(("respparts",)))
                st.mem[root] = hp
                parts = ip.fresh(st, cs.frame, cs.block, "parts", cs.dty.args[0] if cs.dty.args else None)
                return [(st, A("tuple", None, {0: O(parts), 1: A("respbody", None, {}, ip.sym(("respbody",)))}))]
            if m == "into_body":
                return [(st, A("respbody", None, {}, ip.sym(("respbody",))))]
            if m in ("headers", "version", "status"):
                return None
            if m not in ("drop", "clone"):
                self.lose(st, r)
                return None
        if "try_decode" == m or m == "decode" and "TypedHeaders" in n:
            t = (cs.targs[-1].s if cs.targs and cs.targs[-1] is not None else "") or ""
            if not t.endswith("ContentLength"):
                return None
            CL = cs.targs[-1].adt or "hyperx::header::common::content_length::ContentLength"
            s2, s3 = st.copy(), st.copy()
            ln = Lin.sym(ip.sym(("length declared",), None, (), True))
            st.setg("declared", K("some"))
            st.setg("length", I(ln))
            s2.setg("declared", K("none"))
            s3.setg("declared", K("bad"))
            e = O(ip.fresh(s3, cs.frame, cs.block, "bad", None))
            ok = A(RES, 0, {0: A(CL, None, {0: I(ln)})})
            if m == "decode":
                return [(st, ok), (s3, A(RES, 1, {0: e}))]
            return [(st, A(OPT, 1, {0: ok})), (s2, A(OPT, 0, {})), (s3, A(OPT, 1, {0: A(RES, 1, {0: e})}))]
        if "HeaderMap" in r and m in ("get", "get_all", "contains_key", "iter", "remove", "keys", "values", "entry"):
            self.lose(st, r)
            return None
        if adt == "respbody":
            if m in ("err_into", "map_err", "map_ok", "into_stream", "inspect", "inspect_err", "inspect_ok", "fuse", "by_ref", "boxed"):
                return [(st, v)]
            if m == "forward" and len(a) == 2:
                _, sk = self.trace(ip, st, a[1])
                pl, _ = self.trace(ip, st, a[1])
                return [(st, self.fut(ip, "forward", body=v, sink=sk, ty=K(str(cs.atys[1]))))]
            if m not in ("drop", "into_future", "new_unchecked", "pin"):
                self.lose(st, r)
                return None
        if adt is not None and any(adt.split("::")[-1] == s for s in SINKS) if isinstance(adt, str) else False:
            if m == "into_inner":
                return [(st, A("collected", None, {}, ip.sym(("collected body",))))]
            if m == "send_all" and len(a) == 2:
                _, b = self.trace(ip, st, a[1])
                return [(st, self.fut(ip, "forward", body=b, sink=v, ty=K(str(cs.atys[0]))))]
            if "Sink" in n and m.startswith(("poll_", "start_")) or m in ("send", "feed", "close", "flush"):
                self.lose(st, r)
        if adt == "collected" and m in ("prepare", "finish"):
            s2 = st.copy()
            e = O(ip.fresh(s2, cs.frame, cs.block, "unprepared", cs.dty.args[1] if cs.dty.args else None))
            return [(st, A(RES, 0, {0: A("whole", None, {}, ip.sym(("whole body",)))})), (s2, A(RES, 1, {0: e}))]
        if self.is_fut(v):
            if m == "poll" and n.endswith("future::Future::poll"):
                try:
                    return [(s, self.ready(x)) for s, x in self.resolve(ip, cs, st, v)]
                except Lost as e:
                    self.lose(st, str(e))
                    return None
            if m in ("map", "map_ok", "map_err", "and_then", "then", "or_else") and len(a) == 2:
                return [(st, self.fut(ip, m, of=v, f=a[1]))]
            if m == "err_into":
                return [(st, self.fut(ip, m, of=v))]
            if m in ("left_future", "right_future"):
                return [(st, A(EITHER, 0 if m[0] == "l" else 1, {0: v}))]
            if m in ("boxed", "boxed_local", "into_future", "fuse") or "boxed::Box" in r and m in ("pin", "new"):
                return [(st, v)]
            if m in ("new_unchecked", "new") and "Pin" in r or m in ("as_mut", "get_unchecked_mut", "get_mut", "deref_mut", "drop", "drop_in_place", "from"):
                return None if m in ("drop", "drop_in_place") else [(st, place if isinstance(a[0], (R, A)) and place is not None else v)]
            g = ip.p.lookup(cs.key, cs.fn.facts) if cs.key else None
            if g is None or not g.local:
                self.lose(st, r)
        return None


def find(ip, st, v, p, d=0):
    """Values inside v that satisfy p."""
    out = []
    if d > 8:
        return out
    if isinstance(v, R):
        return find(ip, st, ip.read(st, v.root, v.path, None), p, d + 1)
    v = ip.nv(st, v)
    if p(v):
        out.append(v)
        return out
    if isinstance(v, A):
        for k in sorted(v.fields, key=str):
            if isinstance(v.fields[k], (A, O, R)):
                out.extend(find(ip, st, v.fields[k], p, d + 1))
    return out


def callsite(ip, f):
    cs = CallSite()
    cs.ip, cs.fn, cs.frame, cs.block, cs.term = ip, f, ip.frame(None, 0, f.key), 0, {}
    cs.span, cs.args, cs.ops, cs.dty, cs.depth, cs.stack, cs.atys = f.span, [], [], None, 0, (), []
    cs.name = cs.rname = "await"
    cs.key = cs.kind = None
    cs.targs, cs.callee = [], {"name": "await"}
    return cs


def c33(ctx):
    if not default_build(ctx):
        ctx.ob("HTTP client", True)
        return
    f = ctx.fn("body_image_futio::fetch::request_dialog") if ctx.p.by_name("body_image_futio::fetch::request_dialog") else None
    if f is None:
        c = [g for g in ctx.local_fns(("body_image_futio",)) if g.name.endswith("::request_dialog") and g.pub]
        if not c:
            raise CheckError("no request_dialog")
        f = c[0]
    errs = {v["name"]: i for i, v in enumerate(ctx.adt(ERR)["variants"])}
    rule = Fetch(ctx, f)
    rule.roles = sink_roles(ctx)
    ip = ctx.ip([rule], max_disj=400, max_parts=1500)
    dialog(ctx, ip, rule, f, errs)
    fetch(ctx, f)
    ctx.floor("response", 1)
    ctx.floor("body", 1)


def accessors(ctx, ip, st, rule, tune):
    """Settings as the tunables show them."""
    root = ("H", Id(ip.sym(("the tunables",))))
    st.mem[root] = tune
    rule.want = {}
    cs = callsite(ip, rule.f)

    def ask(name, on):
        g = ctx.fn(name)
        F_.prepare(g)
        r = ip.inline(cs, st, g, [on])
        if r is None or len(r) != 1:
            raise CheckError("%s is not plain" % name)
        s, v = r[0]
        st.mem.update(s.mem)
        st.num = s.num
        return v
    for n in ("res_timeout", "body_timeout", "blocking_policy", "image"):
        rule.want[n] = ask(TUNE + "::" + n, R(root))
    for n in ("max_body", "max_body_ram", "temp_dir"):
        v = ask("body_image::Tunables::" + n, rule.want["image"])
        rule.want[n] = rule.trace(ip, st, v)[1] if n == "temp_dir" else v
    for n in ("max_body", "max_body_ram"):
        if not isinstance(rule.want[n], I):
            raise CheckError("limits of the tunables are not plain")
    for r in [r for r in st.mem if r[0] == "L"]:
        del st.mem[r]


def dialog(ctx, ip, rule, f, errs):
    box = {}

    def setup(ip, st, args):
        st.setg("lost", K(None))
        st.setg("declared", K(None))
        st.setg("elapsed", K(None))
        st.setg("response", K(None))
        st.setg("collected", K(None))
        st.setg("limits", T("limits"))
        rule.tune = args[2]
        rule.rr = None
        accessors(ctx, ip, st, rule, args[2])
        rec = ctx.adt("body_image_futio::RequestRecord")["variants"][0]["fields"]
        fl = {}
        for i, (n, ty, _) in enumerate(rec):
            fl[i] = O(ip.sym(("given " + n,)))
            if ty.startswith("http::Request<"):
                rule.rr = fl[i]
            elif ty.endswith("Prolog"):
                box["prolog"] = fl[i]
        args[1] = A("body_image_futio::RequestRecord", None, fl, ip.sym(("the record",)))
    ex, args = ctx.entry(ip, f, setup)
    cs = callsite(ip, f)
    k = f.name
    n = 0
    for e in ex:
        try:
            outs = rule.resolve(ip, cs, e.state, e.ret)
        except (Lost, AnalysisLimit) as w:
            ctx.notes.append("undecided: %s: %s" % (k, w))
            ctx.ob(k, True)
            continue
        for st, r in outs:
            n += 1
            result(ctx, ip, rule, st, r, k, errs, box)
    ctx.absorb(ip)


def result(ctx, ip, rule, st, r, k, errs, box):
    if rule.undecided(st, k):
        return
    r = ip.nv(st, r)
    if not isinstance(r, A) or r.variant is None:
        ctx.notes.append("undecided: outcome of %s" % k)
        ctx.ob(k, True)
        return
    el = st.g("elapsed")
    e = ip.nv(st, r.fields[0]) if r.variant == 1 else None
    if el:
        w = {"response": "ResponseTimeout", "body": "BodyTimeout"}.get(el)
        ctx.count("elapsed")
        ok = r.variant == 1 and isinstance(e, A) and e.variant == errs.get(w) and ip.nv(st, e.fields[0]) == ip.nv(st, st.g("after").args[0])
        ctx.ob("%s / %s limit reached" % (k, el), ok, "reaching the time limit of the %s is not reported as such" % el, rule.f.span)
        return
    if r.variant == 0:
        ctx.count("dialogs")
        ctx.ob(k + " / complete", st.g("response") is True and st.g("collected") is True,
               "a dialog results without the response having been collected", rule.f.span)
        d = find(ip, st, r.fields[0], lambda x: isinstance(x, A) and x.adt == "whole")
        ctx.ob(k + " / body", len(d) == 1, "the body of the dialog is not the one collected", rule.f.span)
        p = find(ip, st, r.fields[0], lambda x: x == box.get("prolog"))
        ctx.ob(k + " / prolog", len(p) == 1, "the dialog does not hold the request recorded", rule.f.span)
        return
    ctx.ob(k, True)
    dec = st.g("declared")
    if isinstance(e, A) and e.variant == errs.get("ContentLengthTooLong"):
        ln = st.g("length")
        ok = dec == "some" and ip.decide(st, B("ge", ln.lin - rule.want["max_body"].lin - 1)) is True
        ctx.count("refused")
        ctx.ob(k + " / refusal", ok, "a response is refused as too long whose length declared does not exceed the maximum", rule.f.span)
        if ok:
            ctx.ob(k + " / length refused", e.fields[0] == ln, "the refusal does not state the length declared", rule.f.span)


def fetch(ctx, dialog):
    """The blocking form runs the same with what it was given."""
    c = [g for g in ctx.local_fns(("body_image_futio",)) if g.name.endswith("::fetch::fetch") and g.pub]
    if not c:
        return
    f = c[0]

    class Given(Rule):
        def on_call(self, ip, cs, st):
            if cs.rname == dialog.name and len(cs.args) == 3:
                ctx.count("fetch")
                ctx.ob(f.name + " / request", cs.args[1] == self.args[0], "the request run is not the one given", f.span)
                ctx.ob(f.name + " / tunables", cs.args[2] == self.args[1], "the request is run with other tunables", f.span)
                return [(st, A("dialogfut", None, {}, ip.sym(("dialogfut",))))]
            if cs.args and isinstance(cs.args[-1], A) and cs.args[-1].adt == "dialogfut" and (cs.name or "").split("::")[-1] in ("spawn", "block_on"):
                return [(st, A("dialogfut", None, {}, ip.sym(("dialogfut",))))] if cs.name.endswith("spawn") else None
            if (cs.name or "") == "core::clone::Clone::clone" and cs.args:
                v = cs.args[0]
                while isinstance(v, R):
                    v = ip.read(st, v.root, v.path, None)
                if v in self.args:
                    return [(st, v)]
            return None
    g = Given()

    def setup(ip, st, args):
        g.args = list(args)
    ctx.entry(ctx.ip([g], max_disj=100), f, setup)
    ctx.ob(f.name, True)
