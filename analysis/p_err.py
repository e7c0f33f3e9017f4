"""Failure discipline: C08 (no failure swallowed), C09 (interrupted reads are
retried).

Both are modular: every function of the libraries is analysed on its own, each
fallible call in it answering with success and with failure.  A callee that
returns a Result is not entered (it is checked on its own), everything else is.
"""
import graph
from common import *
from interp import Rule, AnalysisLimit

LIBS = ("body_image", "barc", "body_image_futio")
RES, OPT, POLL = "core::result::Result", "core::option::Option", "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"
KIND = "core::io::error::ErrorKind"
# a Result by type only: both answers are ordinary outcomes
NOT_FAILURE = (
    "binary_search",    # position to insert at
    "compare_exchange", "fetch_update",
    "try_unwrap",       # other owners exist
)

# what a panic elsewhere left behind; what a foreign message's header values mean: not understanding one is an
# answer (see the statement), not a failed step
HEADER_ERR = ("std::sync::poison::PoisonError", "hyperx::error::Error", "mime::parse::ParseError", "mime::FromStrError")


def fallible(t):
    return graph.mentions(t, lambda x: x.adt == RES)


def is_result_fn(f):
    t = f.locals[0]
    return outcome(t) or (t.k == "tuple" and any(outcome(x) for x in t.args))


def outcome(t):
    """A Result, or one inside Poll / Option."""
    while t.k == "enum" and t.adt in (POLL, OPT) and t.args:
        t = t.args[0]
    return t.k == "enum" and t.adt == RES


def err_type(t):
    while t.k == "enum" and t.adt in (POLL, OPT) and t.args:
        t = t.args[0]
    return t.args[1] if t.adt == RES and len(t.args) > 1 else None


def carries(v):
    """True/False/None(unknown): the value reports an error."""
    if not isinstance(v, A):
        return None if isinstance(v, O) else False
    if v.adt == RES:
        return None if v.variant is None else v.variant == 1
    if v.adt in (POLL, OPT, "tuple"):
        c = [carries(x) for k, x in v.fields.items()]
        return True if True in c else (None if v.base is not None and not v.fields else False)
    return False


ADAPT = ("core::result::", "core::option::Option", "core::ops::try_trait", "core::task::poll", "core::convert::From", "core::convert::Into")


def fails(fn, name, dty, atys):
    """A call whose failure must be accounted for (by name and types only)."""
    if not outcome(dty):
        return False
    if any(x in (name or "").split("::")[-1] for x in NOT_FAILURE):
        return False
    if any(fallible(t) for t in atys if not callable_ty(t)):
        return False
    if (name or "").startswith(ADAPT):
        return False
    e = err_type(dty)
    if e is not None and e.adt in HEADER_ERR:
        return False
    if e is not None and (e.adt or "").endswith("ToStrError") and fn.locals[0].k == "bool":
        return False
    return True


def pure_fns(ctx):
    """Local functions from which no failing call is reached."""
    own, succ = {}, {}
    for c in ctx.p.crates.values():
        for f in c.fns.values():
            if not f.local:
                continue
            bad = False
            out = set()
            for cl in graph.calls(f):
                g = ctx.p.lookup(cl.key, f.facts) if cl.key else None
                if g is not None and g.local:
                    out.add(g.key)
                elif fails(f, cl.name, cl.dty, cl.atys) or cl.name == "core::io::error::Error::kind" or cl.name is None:
                    bad = True
            own[f.key] = bad
            succ[f.key] = out
    for c in ctx.p.crates.values():
        for f in c.fns.values():
            if f.local and "::{closure" in f.name:
                par = f.name[:f.name.rindex("::{closure")]
                for g in ctx.p.by_name(par):
                    if g.key in succ:
                        succ[g.key].add(f.key)
    dirty = {k for k, b in own.items() if b}
    while True:
        n = {k for k in own if k not in dirty and succ[k] & dirty}
        if not n:
            break
        dirty |= n
    return {k for k in own if k not in dirty}


class Fail(Rule):
    """Ghost err: the call that failed and has not been accounted for."""

    def __init__(self, ctx, into=(), pure=()):
        self.ctx = ctx
        self.into = into
        self.pure = pure
        self.sites = {}

    def callee(self, ip, cs):
        g = ip.p.lookup(cs.key, cs.fn.facts) if cs.key else None
        return g if g is not None and g.local else None

    def source(self, ip, cs):
        if not fails(cs.fn, cs.name, cs.dty, cs.atys):
            return False
        g = self.callee(ip, cs)
        if g is not None and (g.key in self.into or g.key in self.pure or "{closure" in g.name):
            return False
        return True

    def after_call(self, ip, cs, st, ret):
        # an error made by a function without fallible steps of its own
        g = self.callee(ip, cs)
        if g is not None and g.key in self.pure and fails(cs.fn, cs.name, cs.dty, cs.atys) and carries(ret):
            self.failed(ip, cs, st)

    def on_call(self, ip, cs, st):
        n = cs.rname or ""
        if n == "core::io::error::Error::kind":
            return self.kind(ip, cs, st)
        if not self.source(ip, cs):
            g = self.callee(ip, cs)
            if g is not None and g.key in self.pure and not is_result_fn(g) and not any(callable_ty(t) or fallible(t) for t in cs.atys):
                return M.default(ip, cs, st)
            return None
        M.havoc_args(ip, cs, st)
        if cs.term.get("t") is None:
            return []
        return [(s, v) for s, v, _ in self.expand(ip, cs, st, cs.dty, "x")]

    def expand(self, ip, cs, st, ty, tag):
        if ty.k == "enum" and ty.adt == RES:
            out = []
            if ty.args[0].k != "never":
                so = st.copy()
                v = ip.make(ip.fresh(so, cs.frame, cs.block, tag + "ok", ty.args[0]), ty.args[0])
                self.passed(ip, cs, so)
                out.append((so, A(RES, 0, {0: v}), False))
            if not (ty.args[1].adt or "").endswith("Infallible") and ty.args[1].k != "never":
                v = ip.make(ip.fresh(st, cs.frame, cs.block, tag + "err", ty.args[1]), ty.args[1])
                self.failed(ip, cs, st)
                out.append((st, A(RES, 1, {0: v}), True))
            return out
        if ty.k == "enum" and ty.adt in (POLL, OPT) and ty.args:
            want = 0 if ty.adt == POLL else 1
            so = st.copy()
            out = [(s, A(ty.adt, want, {0: v}), f) for s, v, f in self.expand(ip, cs, so, ty.args[0], tag + "i")]
            out.append((st, A(ty.adt, 1 - want, {}), False))
            return out
        return [(st, ip.make(ip.fresh(st, cs.frame, cs.block, tag, ty), ty), False)]

    def site(self, cs):
        k = "%s / %s" % (cs.fn.name, (cs.rname or cs.name))
        self.sites[k] = str(cs.span)
        return k

    def passed(self, ip, cs, st):
        pass

    def failed(self, ip, cs, st):
        if not st.g("err"):
            st.setg("err", K(self.site(cs)))

    def kind(self, ip, cs, st):
        a = ip.p.adt(KIND)
        i = [n for n, v in enumerate(a["variants"]) if v["name"] == "Interrupted"][0]
        so = st.copy()
        self.interrupted(ip, cs, so)
        s = ip.fresh(st, cs.frame, cs.block, "kind", cs.dty)
        d = ip.discr(st, O(s))
        ip.assume(st, B("ne", d.lin - ip.discr_const(KIND, i)), True)
        self.other(ip, cs, st)
        return [(so, A(KIND, i, {})), (st, O(s))]

    def interrupted(self, ip, cs, st):
        st.setg("err", K(None))

    def other(self, ip, cs, st):
        pass


def callable_ty(t):
    return t.k in ("closure", "fndef", "fnptr") or (t.is_ref() and t.to is not None and callable_ty(t.to))


def setup(ip, st, args):
    st.setg("err", K(None))
    st.setg("raw", K(None))
    st.setg("intr", K(None))
    return [st]


def callers_of(ctx, fns):
    """key -> local functions that call it."""
    out = {}
    for f in fns:
        for c in graph.calls(f):
            g = ctx.p.lookup(c.key, f.facts) if c.key else None
            if g is not None and g.local:
                out.setdefault(g.key, {})[f.key] = f
    return out


def exported(f):
    return f.pub or bool(f.impl_trait) or "{closure" in f.name


def entries(ctx):
    for f in ctx.local_fns(LIBS):
        if (f.impl_trait or "").startswith(("core::fmt::Display", "core::fmt::Debug")):
            continue    # presentation only
        yield f


def modular(ctx, make, verdict, want):
    """Analyses each wanted function; a private one that fails on its own is
    judged inside each of its callers instead."""
    fns = [f for f in entries(ctx)]
    callers = callers_of(ctx, fns)
    results = {}

    def judge(f, into, depth):
        rule = make(into)
        ip = ctx.ip([rule], max_disj=400, max_parts=4000)
        try:
            ex, _ = ctx.entry(ip, f, setup)
        except CheckError as e:
            ctx.notes.append("undecided: %s (%s)" % (f.name, e))
            return []
        bad = verdict(f, ex, rule)
        if bad and not exported(f) and depth < 3:
            up = [g for k, g in sorted(callers.get(f.key, {}).items()) if k != f.key]
            if up:
                rs = []
                for g in up:
                    rs += judge(g, into | {f.key}, depth + 1)
                return rs
        return bad

    for f in fns:
        if not want(f):
            continue
        results[f.key] = (f, judge(f, frozenset(), 0))
    return results


def c08(ctx):
    default_build(ctx)
    seen = {}

    def verdict(f, ex, rule):
        bad = []
        can = is_result_fn(f)
        for k, s in rule.sites.items():
            seen.setdefault(k, s)
        for e in ex:
            p = e.state.g("err")
            if not p:
                continue
            if can:
                c = carries(e.ret)
                if c is None:
                    ctx.notes.append("undecided: %s after %s" % (f.name, p))
                    continue
                if c:
                    continue
            bad.append((p, f.name, rule.sites.get(p, f.span)))
        return bad

    def want(f):
        # a private function without a Result is judged where it is called
        return is_result_fn(f) or exported(f)

    pure = pure_fns(ctx)
    res = modular(ctx, lambda into: Fail(ctx, into, pure), verdict, want)
    viol = {}
    for f, bad in res.values():
        for k, fn, sp in bad:
            viol.setdefault(k, (fn, sp))
    for k, s in sorted(seen.items()):
        ctx.count("fallible steps")
        v = viol.get(k)
        ctx.ob(k, v is None, "fails, and %s does not report an error" % (v[0] if v else ""), v[1] if v else s)
    ctx.floor("fallible steps", 60)


# ------------------------------------------------------------------- C09
READS = ("alloc::io::read::Read::read", "alloc::io::read::Read::read_vectored", "alloc::io::read::Read::read_buf",
         "std::io::Read::read", "alloc::io::buf_read::BufRead::fill_buf", "std::os::unix::fs::FileExt::read_at")
BUFS = ("bytes::bytes_mut::BytesMut", "alloc::vec::Vec", "body_image::BodySink", "bytes::bytes::Bytes", "olio::io::gather::GatheringReader")


SHRINK = ("clear", "truncate", "split", "split_to", "split_off", "freeze", "set_len", "advance", "drain", "pop", "remove")


def deref(t):
    while t.is_ref() and t.to is not None:
        t = t.to
    return t


def raw_read(c):
    return c.name in READS


class Retry(Fail):
    """raw: a read failed and it is not known whether by interruption;
    intr: it was, and no read was issued since."""

    def on_call(self, ip, cs, st):
        if cs.name in READS and outcome(cs.dty):
            st.setg("intr", K(None))
            st.setg("raw", K(None))
            m = M.find(ip, cs, st)
            outs = m(ip, cs, st) if m is not None else None
            if outs is not None:
                for s, v in outs:
                    if carries(v) is not False:
                        self.failed(ip, cs, s)
                return outs
        k = st.g("intr")
        if k and (cs.name or "").split("::")[-1] in SHRINK and cs.atys and deref(cs.atys[0]).adt in BUFS and not self.empty(ip, st, cs.args[0]):
            self.lost.add(k)
        if cs.rname == "core::io::error::Error::kind" and st.g("raw"):
            return self.kind(ip, cs, st)
        if cs.name in READS and outcome(cs.dty):
            M.havoc_args(ip, cs, st)
            return [(s, v) for s, v, _ in self.expand(ip, cs, st, cs.dty, "x")]
        return None

    def after_call(self, ip, cs, st, ret):
        return None

    def failed(self, ip, cs, st):
        if cs.name in READS:
            st.setg("raw", K(self.site(cs)))

    def interrupted(self, ip, cs, st):
        if st.g("raw"):
            st.setg("intr", K(st.g("raw")))
            st.setg("raw", K(None))

    def other(self, ip, cs, st):
        st.setg("raw", K(None))

    def on_assign(self, ip, fn, frame, b, st, pl, s, v):
        k = st.g("intr")
        if k and not pl[1:] and isinstance(pl[0], int) and fn.names[pl[0]] and fn.locals[pl[0]].adt in BUFS:
            old = st.mem.get(("L", frame, pl[0]))
            if old is not None and not self.empty(ip, st, old):
                self.lost.add(k)

    def empty(self, ip, st, v):
        while isinstance(v, R):
            v = ip.read(st, v.root, v.path, None)
        n = M.length(ip, st, v)
        return n is not None and st.num.const(n) == 0


def c09(ctx):
    default_build(ctx)
    seen = {}

    def verdict(f, ex, rule):
        bad = []
        for k, s in rule.sites.items():
            seen.setdefault(k, s)
        for e in ex:
            p = e.state.g("raw")
            if p and not ((f.impl_trait or "").startswith(("alloc::io::read::Read", "std::io::Read")) and carries(e.ret)):
                bad.append((p, "an interruption is %s" % ("returned as an error" if carries(e.ret) else "taken for something else"), f.name, rule.sites.get(p, "")))
            q = e.state.g("intr")
            if q:
                bad.append((q, "interrupted, and not retried", f.name, rule.sites.get(q, "")))
        for k in rule.lost:
            bad.append((k, "collected bytes change before the retry", f.name, rule.sites.get(k, "")))
        return bad

    def make(into):
        r = Retry(ctx, into, pure)
        r.lost = set()
        return r

    pure = pure_fns(ctx)
    res = modular(ctx, make, verdict, lambda f: any(raw_read(c) for c in graph.calls(f)))
    viol = {}
    for f, bad in res.values():
        ctx.count("functions with reads")
        for k, why, fn, sp in bad:
            viol.setdefault(k, []).append(("%s in %s" % (why, fn), sp))
    for k, s in sorted(seen.items()):
        if not k.endswith(("::read", "::read_vectored", "::read_buf", "::fill_buf", "::read_at")):
            continue
        ctx.count("reads")
        v = viol.get(k)
        ctx.ob(k, v is None, v[0][0] if v else "", v[0][1] if v else s)
    ctx.floor("reads", 3)
