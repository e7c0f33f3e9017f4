"""Limits on every way of taking in a body: C03, C04.

Blocking readers are done by p_body; here the asynchronous sinks, whose limits
are those of the tunables they were made with, and decompression, which reads
under the limits it is given.
"""
from common import *
import p_body as PB
import p_async as PA
import p_decode as PD

ERR = "body_image::BodyError"
TUN, FTUN = "body_image::Tunables", "body_image_futio::tune::FutioTunables"


def image_tunables(ctx, ip, st, sh, x):
    """The body-image tunables of an asynchronous sink."""
    t = ip.get_elem(st, x, (None, sh.stune), None)
    i = PA.pick(ctx, FTUN, lambda n: n.split("::")[-1] == "Tunables", "tunables of the image")
    return ip.get_elem(st, t, (None, i), None)


class SinkLimit(PA.SinkRule):
    def __init__(self, ctx, sh, which):
        PA.SinkRule.__init__(self, ctx, sh, "C03")
        self.which = which
        self.store = PB.StoreLimit(ctx, which)

    def begin(self, ip, st, run):
        PA.SinkRule.begin(self, ip, st, run)
        if run.x is None:
            return
        t = image_tunables(self.ctx, ip, st, self.sh, run.x)
        self.store.tun = t
        self.len0 = run.x.fields[self.sh.body].fields[sink_roles(self.ctx).len].lin
        st.num.add_ge(self.limit(ip, st, "max_body") - self.limit(ip, st, "max_body_ram"))
        st.num.add_ge(self.limit(ip, st, "max_body") - self.len0)
        if sink_roles(self.ctx).kinds[run.x.fields[self.sh.body].fields[sink_roles(self.ctx).state].variant] == "ram":
            st.num.add_ge(self.limit(ip, st, "max_body_ram") - self.len0)

    def limit(self, ip, st, name):
        return PB.tun_lin(self.ctx, ip, st, self.store.tun, name)

    def on_write(self, ip, cs, st, root, path, x, n, isf):
        return self.store.on_write(ip, cs, st, root, path, x, n, isf)

    def on_call(self, ip, cs, st):
        self.store.on_call(ip, cs, st)
        return PA.SinkRule.on_call(self, ip, cs, st)


def too_long(ctx, ip, st, v, d=0):
    """Number carried by a too-long error inside a value."""
    v = ip.nv(st, v) if v is not None else None
    if isinstance(v, A):
        if v.adt == ERR and v.variant is not None and ctx.adt(ERR)["variants"][v.variant]["name"] == "BodyTooLong":
            return v.fields.get(0)
        if d < 5:
            for y in v.fields.values():
                r = too_long(ctx, ip, st, y, d + 1)
                if r is not None:
                    return r
    return None


def outcome(ctx, sh, run, ip, st, ret, x, what):
    rule, sr = run.rule, sink_roles(ctx)
    if run.x is None or x is None:
        return
    p = body_parts(ip, st, sr, ip.get_elem(st, x, (None, sh.body), None))
    if p is None:
        ctx.notes.append("undecided: %s (%s)" % (run.key(what), run.lab))
        return
    ctx.count("sink outcomes")
    k = run.key(what)
    if rule.which == "ram":
        if p[0] == "ram":
            ctx.ob(k, st.num.entails_ge(rule.limit(ip, st, "max_body_ram") - p[2]),
                   "a body beyond the RAM maximum is left in memory (%s)" % run.lab)
        return
    ctx.ob(k, st.num.entails_ge(rule.limit(ip, st, "max_body") - p[2]), "a body beyond the maximum is collected (%s)" % run.lab)
    n = too_long(ctx, ip, st, ret)
    b0 = run.x.fields[sh.buf]
    if n is not None:
        ctx.count("too long errors of sinks")
        if b0.variant == 0:
            ctx.ob(k, False, "too long, although nothing was to be stored (%s)" % run.lab)
            return
        tot = rule.len0 + M.length(ip, st, b0.fields[0])
        ctx.ob(k + ", reported", isinstance(n, I) and st.num.eq(n.lin, tot),
               "the too-long error reports %s, %s bytes were received (%s)" % (n.show(ip.st), st.num.norm(tot).show(ip.st), run.lab))
        ctx.ob(k + ", refused", st.num.entails_ge(tot - rule.limit(ip, st, "max_body") - 1),
               "a body within the maximum is refused as too long (%s)" % run.lab)


def sinks(ctx, which):
    try:
        sh = PA.Shape(ctx)
    except PA.Undecided as e:
        ctx.notes.append("undecided: %s" % e)
        return
    for path in (PA.SINK, PA.PSINK, PA.DSINK):
        for f in PA.entries(ctx, path, "sink") + PA.impls(ctx, path, "futures_sink::Sink", ("start_send",)):
            def mk(run):
                rule = SinkLimit(ctx, sh, which)

                def done(ip, cs, st, v):
                    v = ip.nv(st, v)
                    if isinstance(v, A) and 0 in v.fields and 1 in v.fields:
                        outcome(ctx, sh, run, ip, st, v.fields[0], v.fields[1], "dispatched")
                rule.on_dispatched = done
                return rule
            try:
                for run in PA.runs(ctx, sh, f, path, "sink", mk):
                    if getattr(run, "second", False):
                        continue
                    for e in run.exits:
                        if not e.state.g("again"):
                            v, x = run.after(e.state)
                            if x is not None and x != e.state.g("ob"):
                                outcome(ctx, sh, run, run.ip, e.state, e.ret, x, "outcome")
            except PA.Undecided as e:
                ctx.notes.append("undecided: %s: %s" % (f.name, e))
        made(ctx, sh, path, which)
    ctx.floor("sink outcomes", 10)
    if which == "max":
        ctx.floor("too long errors of sinks", 1)


def made(ctx, sh, path, which):
    """A sink keeps the limits it is made with."""
    for f in ctx.local_fns((PA.CRATE,)):
        ts = f.locals[1:f.argc + 1]
        if f.impl_self != path or f.kind != "AssocFn" or f.locals[0].adt != path or len([t for t in ts if t.adt == FTUN]) != 1:
            continue
        ip = ctx.ip([PA.Async(ctx, sh, "C03")], max_disj=200)
        i = [j for j, t in enumerate(ts) if t.adt == FTUN][0]
        k = PA.pick(ctx, FTUN, lambda n: n.split("::")[-1] == "Tunables", "tunables of the image")
        pre = []

        def setup(ip, st, args):
            pre.append(ip.get_elem(st, args[i], (None, k), None))
        ex, _ = ctx.entry(ip, f, setup)
        for e in ex:
            st = e.state
            x = PA.inner_of(sh, ip, st, path, ip.nv(st, e.ret))
            if x is None:
                ctx.notes.append("undecided: %s" % f.name)
                continue
            t = image_tunables(ctx, ip, st, sh, x)
            ctx.count("sinks made")
            n = "max_body" if which == "max" else "max_body_ram"
            a, b = PB.tun_lin(ctx, ip, st, t, n), PB.tun_lin(ctx, ip, st, pre[0], n)
            ctx.ob("%s / limits" % f.name, st.num.eq(a, b), "the sink is not made with the %s given: %s" % (n, a.show(ip.st)), f.span)


# ------------------------------------------------------------ decompression
class Under(PD.Lists):
    """Remembers the limits and the estimate a decoder is read under."""

    def known(self, ip, cs, st):
        if cs.rname == "body_image::BodyImage::read_from":
            t = [a for a, y in zip(cs.args, cs.atys) if y is not None and y.k == "ref" and y.to.adt == TUN]
            for n in LIMITS:
                st.setg(n, I(PB.tun_lin(self.ctx, ip, st, t[0], n)) if t else K(None))
            st.setg("estimate", cs.args[1])
        return PD.Lists.known(self, ip, cs, st)


LIMITS = ("max_body", "max_body_ram")
ESTIMATE = {"Gzip": "size_estimate_gzip", "Deflate": "size_estimate_deflate", "Brotli": "size_estimate_brotli"}


def decoding(ctx, which):
    f = PD.public(ctx, "decompress")
    names = PD.enc_names(ctx)
    for i, n in enumerate(names):
        if n not in ESTIMATE:
            continue
        rule = Under(ctx)
        ip = ctx.ip([rule], max_disj=100)

        def setup(ip, st, args):
            st.setg("lost", K(None))
            for g in LIMITS + ("estimate",):
                st.setg(g, K(None))
            for j, t in enumerate(f.locals[1:f.argc + 1]):
                if t.adt == PD.ENC:
                    args[j] = A(PD.ENC, i, {})
        ex, args = ctx.entry(ip, f, setup)
        tun = [a for a, t in zip(args, f.locals[1:]) if t.k == "ref" and t.to.adt == TUN]
        body = [a for a, t in zip(args, f.locals[1:]) if t.k == "ref" and t.to.adt == "body_image::BodyImage"]
        if len(tun) != 1 or len(body) != 1:
            ctx.notes.append("undecided: arguments of %s" % f.name)
            return
        for e in ex:
            st = e.state
            r = ip.nv(st, e.ret)
            if not (isinstance(r, A) and r.variant == 0):
                continue
            d = ip.nv(st, r.fields[0])
            k = "%s / %s" % (f.name, n)
            if not isinstance(d, A) or d.adt != "decoded" or st.g("lost"):
                ctx.notes.append("undecided: %s" % k)
                continue
            ctx.count("decoded bodies")
            for g in LIMITS:
                x = st.g(g)
                ctx.ob(k, isinstance(x, I) and st.num.eq(x.lin, PB.tun_lin(ctx, ip, st, tun[0], g)),
                       "is read under another %s than the one given: %s" % (g, x.show(ip.st) if x is not None else None), f.span)
            if which == "ram":
                estimate(ctx, ip, st, f, k, n, st.g("estimate"), body[0], tun[0])


def estimate(ctx, ip, st, f, k, n, est, body, tun):
    """The estimate is the length times the factor for the encoding."""
    g = ctx.p.by_name("body_image::Tunables::" + ESTIMATE[n])
    if not g:
        ctx.notes.append("undecided: no estimate for %s" % n)
        return
    ix = PB.getter_index(ctx, "body_image::Tunables::" + ESTIMATE[n])
    ir = image_roles(ctx)
    fac = ip.get_elem(st, M.rd(ip, st, tun), (None, ix), None)
    ln = ip.get_elem(st, M.rd(ip, st, body), (None, ir.len), None)
    nm = None
    if isinstance(est, I):
        ids = list(est.sym_ids())
        if len(ids) == 1 and st.num.eq(est.lin, Lin.sym(ids[0])):
            nm = ip.st.info[ids[0]].name
    ok = False
    if nm and nm[0] == "mul":
        fl = {tuple(sorted(v.sym_ids())) for v in (fac, ln)}
        ok = {tuple(sorted(I(x).sym_ids())) for x in nm[1:3]} == fl
    ctx.count("estimates")
    ctx.ob("%s, estimate" % k, ok, "the estimate is %s, not the length times the factor for %s" % (est.show(ip.st), n), f.span)


def c03(ctx):
    PB.c03_body(ctx)
    sinks(ctx, "max")
    decoding(ctx, "max")


def c04(ctx):
    PB.c04_body(ctx)
    sinks(ctx, "ram")
    decoding(ctx, "ram")
