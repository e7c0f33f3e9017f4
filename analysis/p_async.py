"""Asynchronous body streams and sinks: C25 - C29 (body-image-futio).

The receivers are put into every state their class invariant allows, the poll
functions are interpreted with the arbiter, the permit and dispatch futures
answering in every way they can, and the state left behind is compared.
"""
from common import *
from interp import Rule
from p_body import bool_is
from p_effect import is_file, MOVES, POSITIONED

CRATE = "body_image_futio"
P = "body_image_futio::"
SINK, IMAGE = P + "sink::AsyncBodySink", P + "stream::AsyncBodyImage"
PSINK, PIMAGE = P + "sink::PermitBodySink", P + "stream::PermitBodyImage"
DSINK, DIMAGE = P + "sink::DispatchBodySink", P + "stream::DispatchBodyImage"
BLOCK = P + "blocking::Blocking"
STATEFUL = P + "blocking::StatefulArbiter"
POLL, OPT, RES = "core::task::poll::Poll", "core::option::Option", "core::result::Result"
PIN = "core::pin::Pin"
PENDING = A(POLL, 1, {})


def ready(v):
    return A(POLL, 0, {0: v})


def some(v):
    return A(OPT, 1, {0: v})


NONE = A(OPT, 0, {})


def impls(ctx, path, trait, names):
    out = []
    for f in ctx.local_fns((CRATE,)):
        if f.impl_self == path and (f.impl_trait or "").split("<")[0] == trait and f.name.split("::")[-1] in names:
            out.append(f)
    return out


def inherent(ctx, path, name):
    for f in ctx.local_fns((CRATE,)):
        if f.impl_self == path and f.name.split("::")[-1] == name and f.kind == "AssocFn":
            yield f


def fields(ctx, path):
    a = ctx.p.adts.get(path)
    if a is None:
        raise CheckError("no type %s" % path)
    return a["variants"][0]["fields"]


def is_opt(t):
    return t.startswith(("core::option::Option<", "std::option::Option<"))


class Undecided(Exception):
    pass


def pick(ctx, path, pred, what):
    r = [i for i, f in enumerate(fields(ctx, path)) if pred(f[1])]
    if len(r) != 1:
        raise Undecided("%s: %s not found" % (path, what))
    return r[0]


def written(ctx, path, i):
    """Some statement assigns field i of the type."""
    for f in ctx.local_fns((CRATE,)):
        for b in f.blocks:
            for st in b["s"]:
                pl = st.get("p")
                if not pl or len(pl) < 2 or not isinstance(pl[-1], list) or pl[-1][:2] != ["f", i]:
                    continue
                t = f.locals[pl[0]]
                while t is not None and t.k == "ref":
                    t = t.to
                if t is not None and t.adt == path:
                    return True
    return False


class Shape:
    """Where the parts of the async types are, found by their types."""

    def __init__(self, ctx):
        self.ctx = ctx
        s = self
        s.body = pick(ctx, SINK, lambda t: t.endswith("BodySink"), "body")
        s.buf = pick(ctx, SINK, lambda t: is_opt(t), "pending buffer")
        s.sarb = pick(ctx, SINK, lambda t: t == "BA", "arbiter")
        s.stune = pick(ctx, SINK, lambda t: t.endswith("FutioTunables"), "tunables")
        s.iarb = pick(ctx, IMAGE, lambda t: t == "BA", "arbiter")
        s.itune = pick(ctx, IMAGE, lambda t: t.endswith("FutioTunables"), "tunables")
        s.psink = pick(ctx, PSINK, lambda t: "AsyncBodySink" in t, "sink")
        s.pspermit = pick(ctx, PSINK, lambda t: is_opt(t), "permit")
        s.pimage = pick(ctx, PIMAGE, lambda t: "AsyncBodyImage" in t, "image")
        s.pipermit = pick(ctx, PIMAGE, lambda t: is_opt(t), "permit")
        s.dstate, s.denum, s.dhas, s.drun = s.dispatch(DSINK, "AsyncBodySink")
        s.istate, s.ienum, s.ihas, s.irun = s.dispatch(DIMAGE, "AsyncBodyImage")
        e = [(i, P + f[1]) for i, f in enumerate(fields(ctx, IMAGE)) if ctx.p.adts.get(P + f[1], {}).get("k") == "enum"]
        if len(e) != 1:
            raise Undecided("storage of the stream not found")
        s.store, s.senum = e[0]
        s.kinds = {}
        for i, v in enumerate(ctx.p.adts[s.senum]["variants"]):
            t = v["fields"][0][1] if len(v["fields"]) == 1 else ""
            k = "ram" if "IntoIter<" in t else "file" if "ReadSlice" in t else "map" if is_opt(t) and "MemHandle" in t else None
            if k is None:
                raise Undecided("stream storage %s" % v["name"])
            s.kinds[i] = k
        self.numbers()
        b = ctx.p.adts.get(BLOCK)
        s.block = {v["name"]: i for i, v in enumerate(b["variants"])} if b else {}
        for n in ("Void", "Pending", "Once", "Always"):
            if n not in s.block:
                raise CheckError("no blocking state %s" % n)
        s.astate = pick(ctx, STATEFUL, lambda t: t.endswith("Blocking"), "state")

    def dispatch(self, path, inner):
        for i, f in enumerate(fields(self.ctx, path)):
            t = P + f[1].split("<")[0]
            a = self.ctx.p.adts.get(t)
            if a is not None and a["k"] == "enum":
                has = run = None
                for j, v in enumerate(a["variants"]):
                    ty = v["fields"][0][1] if len(v["fields"]) == 1 else ""
                    if is_opt(ty) and inner in ty:
                        has = j
                    elif "Dispatched<" in ty:
                        run = j
                if has is not None and run is not None:
                    return i, t, has, run
        raise Undecided("dispatch state of %s not found" % path)

    def numbers(self):
        """The u64 fields of the stream: total length and bytes handed out, told
        apart by what the constructor puts there."""
        ctx = self.ctx
        us = [i for i, f in enumerate(fields(ctx, IMAGE)) if f[1] == "u64"]
        self.len = self.consumed = self.avail = None
        for f in inherent(ctx, IMAGE, "new"):
            if len(us) != 2:
                break
            ip = ctx.ip([])
            ir = image_roles(ctx)
            ln = []

            def setup(ip, st, args):
                v = mk_body(ctx, ip, st, ir, ip.sym(("self", f.key)), ir.variant("ram")[0])
                args[0] = v
                ln.append(v.fields[ir.len].lin)
            ex, _ = ctx.entry(ip, f, setup)
            for e in ex:
                r = e.ret
                if isinstance(r, A) and all(isinstance(r.fields.get(i), I) for i in us):
                    for i in us:
                        if e.state.num.const(r.fields[i].lin) == 0 and not e.state.num.eq(r.fields[i].lin, ln[0]):
                            self.consumed = i
                        elif e.state.num.eq(r.fields[i].lin, ln[0]):
                            self.len = i
                    if self.consumed is None and self.len is not None:
                        # both start at the length: the one that changes counts down
                        w = [i for i in us if written(ctx, IMAGE, i)]
                        if len(w) == 1:
                            self.avail = w[0]
                            self.len = [i for i in us if i != w[0]][0]
        if self.len is None or self.consumed is None and self.avail is None:
            raise Undecided("length and position of the stream not found")

    def con(self, ip, st, x):
        """Bytes a stream counts as delivered, or None."""
        if self.consumed is not None:
            v = ip.get_elem(st, x, (None, self.consumed), None)
            return v.lin if isinstance(v, I) else None
        a, n = ip.get_elem(st, x, (None, self.avail), None), ip.get_elem(st, x, (None, self.len), None)
        return n.lin - a.lin if isinstance(a, I) and isinstance(n, I) else None

    # ------------------------------------------------------------ values
    def arbiter(self, ip, kind):
        if kind is None:
            return O(ip.sym(("arbiter",)))
        return A(STATEFUL, None, {self.astate: A(BLOCK, self.block[kind], {})})

    def sink(self, ip, st, variant, full, arb, tag="s"):
        sr = sink_roles(self.ctx)
        body = mk_body(self.ctx, ip, st, sr, ip.sym(("self", tag)), variant)
        base = ip.sym(("sink", tag))
        f = {self.body: body, self.sarb: self.arbiter(ip, arb)}
        f[self.buf] = some(O(ip.sym(("pending", tag)))) if full else NONE
        return A(SINK, None, f, base)

    def stream(self, ip, st, variant, phase, arb, tag="s"):
        """phase: 'more' bytes to come, 'end' nothing left, 'failed' (mapped
        image taken by a failed attempt)."""
        k = self.kinds[variant]
        ln = Lin.sym(ip.sym(("len0", tag), None, (), True))
        co = Lin.sym(ip.sym(("consumed0", tag), None, (), True))
        payload = None
        if phase == "end":
            st.num.add_eq(ln - co)
        else:
            st.num.add_ge(ln - co - 1)
        if k == "ram":
            n = Lin.sym(ip.sym(("nbufs", tag), None, (), True))
            i = Lin.sym(ip.sym(("ibuf", tag), None, (), True))
            seq = O(ip.sym(("bufs", tag)))
            if phase == "end":
                st.num.add_eq(n - i)
            else:
                st.num.add_ge(n - i - 1)
            payload = A("iter", None, {"seq": seq, "idx": I(i), "len": I(n), "byref": K(False)}, ip.sym(("iter", tag)))
        elif k == "file":
            sv = O(ip.sym(("rs", tag), None))
            st.num.add_eq(M.lin(ip, st, sv, "stop") - M.lin(ip, st, sv, "start") - ln)
            st.num.add_eq(M.lin(ip, st, sv, "pos") - M.lin(ip, st, sv, "start") - co)
            payload = sv
        else:
            if phase == "more":
                mm = O(ip.sym(("mmap", tag), None))
                st.num.add_eq(co)
                inner = ip.get_elem(st, mm, (None, "inner"), None)
                st.num.add_eq(M.lin(ip, st, inner, "len") - ln)
                payload = some(mm)
            else:
                payload = NONE
        f = {self.store: A(self.senum, variant, {0: payload}), self.len: I(ln), self.iarb: self.arbiter(ip, arb)}
        if self.consumed is not None:
            f[self.consumed] = I(co)
        else:
            f[self.avail] = I(ln - co)
        return A(IMAGE, None, f, ip.sym(("stream", tag)))


def pin(ip, st, f, v, args):
    """Puts value v behind a Pin<&mut Self> receiver."""
    root = ("H", Id(ip.sym(("receiver", f.key))))
    st.mem[root] = v
    t = f.locals[1]
    r = R(root, (), True)
    args[0] = A(PIN, None, {0: r}) if t.adt == PIN else r
    return root


FUT = "core::future::future::Future::poll"


class Async(Rule):
    """Answers of the outside world, and the ghosts of the rules:
    grant: the arbiter allowed blocking on this poll; refused: it did not;
    perm: running under a permit / on a dispatch thread; woke: the last future
    polled with this task's context is pending; blocked: a blocking operation
    was done."""

    def __init__(self, ctx, sh, what, lenient=False):
        self.ctx, self.sh, self.what, self.lenient = ctx, sh, what, lenient
        self.on_block = None
        self.on_ask = None
        self.on_again = None
        self.on_dispatched = None
        self.cx = None

    def init(self, st):
        for g in ("grant", "refused", "perm", "woke", "blocked", "again"):
            st.setg(g, K(None))

    def pending(self, ip, cs, st):
        ok = len(cs.args) > 1 and self.is_cx(ip, st, cs.args[1])
        st.setg("woke", K(True if ok else None))

    def is_cx(self, ip, st, v):
        n = 0
        while n < 4:
            if v == self.cx:
                return True
            if isinstance(v, R):
                if isinstance(self.cx, R) and v.root == self.cx.root and v.path == self.cx.path:
                    return True
                v = ip.read(st, v.root, v.path, None)
            n += 1
        return False

    def on_call(self, ip, cs, st):
        n, r = cs.name or "", cs.rname or ""
        if n.endswith("BlockingArbiter::can_block"):
            g = ip.p.lookup(cs.key, cs.fn.facts) if cs.key else None
            if g is not None:
                return None
            outs = []
            if not self.lenient:
                s2 = st.copy()
                s2.setg("grant", K(False))
                s2.setg("refused", K(True))
                M.havoc_args(ip, cs, s2)
                outs.append((s2, FALSE))
            st.setg("grant", K(True))
            M.havoc_args(ip, cs, st)
            outs.append((st, TRUE))
            return outs
        if n == FUT or r.endswith("as core::future::future::Future>::poll"):
            return self.future(ip, cs, st)
        if r.endswith("::BlockingPermit::run") or n.endswith("::BlockingPermit::run"):
            old = st.g("perm")
            st.setg("perm", K("permit"))
            o = ip.call_closure(cs, st, cs.args[1], [])
            if o is None:
                return None
            for s, v in o:
                s.setg("perm", K(old))
            return o
        if r.endswith("::dispatch_rx") and n.startswith("blocking_permit"):
            if self.on_ask:
                self.on_ask(ip, cs, st, "dispatch")
            s2 = st.copy()
            s2.setg("perm", K("dispatch"))
            s2.setg("grant", K(None))
            outs = ip.call_closure(cs, s2, cs.args[0], [])
            if outs is not None:
                for s, v in outs:
                    self.dispatched(ip, cs, s, v)
            s = ip.fresh(st, cs.frame, cs.block, "drx", cs.dty)
            return [(st, O(s))]
        if "DispatchRx" in r and r.endswith("::unwrap"):
            s = ip.fresh(st, cs.frame, cs.block, "dispatched", cs.dty)
            return [(st, O(s))]
        if r.endswith("::blocking_permit_future"):
            if self.on_ask:
                self.on_ask(ip, cs, st, "permit")
            s = ip.fresh(st, cs.frame, cs.block, "pf", cs.dty)
            return [(st, O(s))]
        if n.endswith("OutputBuf::from_mmap") and (not cs.key or ip.p.lookup(cs.key, cs.fn.facts) is None):
            self.block(ip, cs, st)
            mm = ip.get_elem(st, cs.args[0], (None, "inner"), None)
            c, ln = M.content(ip, st, mm), M.lin(ip, st, mm, "len")
            se = st.copy()
            e = ip.fresh(se, cs.frame, cs.block, "maperr", cs.dty.args[1])
            return [(st, A(RES, 0, {0: A("bytes", None, {"content": c, "len": I(ln)}, ip.sym(("copy", c, st.num.norm(ln))))})),
                    (se, A(RES, 1, {0: O(e)}))]
        if r == "core::io::error::Error::kind" and not self.from_read(ip, st, cs.args[0]):
            # writes of whole buffers are retried by the library itself
            a = ip.p.adt("core::io::error::ErrorKind")
            i = [k for k, v in enumerate(a["variants"]) if v["name"] == "Interrupted"][0]
            s = ip.fresh(st, cs.frame, cs.block, "kind", cs.dty)
            d = ip.discr(st, O(s))
            ip.assume(st, B("ne", d.lin - ip.discr_const("core::io::error::ErrorKind", i)), True)
            return [(st, O(s))]
        if self.is_block(cs):
            self.block(ip, cs, st)
        return None

    def from_read(self, ip, st, v):
        return bool(st.g("reading"))

    def is_block(self, cs):
        m = (cs.name or "").split("::")[-1]
        if cs.rname.startswith(("tempfile::", "std::fs::")) and not cs.atys:
            return True
        if cs.rname.startswith("tempfile::") and m in ("tempfile_in", "tempfile"):
            return True
        if cs.rname.startswith("std::fs::") and m in ("open", "create", "remove_file", "metadata", "rename", "copy"):
            return True
        if not cs.atys or cs.atys[0] is None:
            return False
        t = cs.atys[0]
        if is_file(t):
            return m in MOVES or m in ("flush", "sync_all", "sync_data", "metadata")
        b = t
        while b.k in ("ref", "ptr") and b.to is not None:
            b = b.to
        if b.adt in POSITIONED:
            return m in MOVES or m == "mem_map"
        return False

    def block(self, ip, cs, st):
        if self.on_block:
            self.on_block(ip, cs, st)
        st.setg("blocked", K(True))

    def after_call(self, ip, cs, st, ret):
        n = cs.name or ""
        if n.endswith("BlockingArbiter::can_block") and cs.key and ip.p.lookup(cs.key, cs.fn.facts) is not None:
            d = ip.decide(st, ret)
            st.setg("grant", K(d if d is not None else None))
            if d is not True:
                st.setg("refused", K(True))
        m = n.split("::")[-1]
        if m == "read" and self.is_block(cs):
            st.setg("reading", K(True))

    def future(self, ip, cs, st):
        """Any inner future: pending with the task registered, or an answer."""
        t = cs.dty
        sp = st.copy()
        self.pending(ip, cs, sp)
        outs = [(sp, PENDING)]
        inner = t.args[0] if t.args else None
        if inner is not None and inner.adt == RES:
            se = st.copy()
            e = ip.fresh(se, cs.frame, cs.block, "canceled", inner.args[1])
            outs.append((se, ready(A(RES, 1, {0: O(e)}))))
            x = ip.fresh(st, cs.frame, cs.block, "done", inner.args[0])
            it = inner.args[0]
            if it.k == "tuple":
                v = A("tuple", None, {i: O(ip.sym(("part", Id(x), i), y)) for i, y in enumerate(it.args)})
                st.setg("ob", v.fields[1])
                st.setg("res", v.fields[0])
            else:
                v = O(x)
            st.setg("woke", K(None))
            outs.append((st, ready(A(RES, 0, {0: v}))))
        else:
            x = ip.fresh(st, cs.frame, cs.block, "done", inner)
            outs.append((st, ready(O(x))))
        return outs

    def dispatched(self, ip, cs, st, v):
        """Outcome of the operation run by a dispatch thread."""
        if self.on_dispatched:
            self.on_dispatched(ip, cs, st, v)

    def begin(self, ip, st, run):
        """Start state made."""

    def on_recursion(self, ip, cs, st, g):
        if g.impl_trait and g.name.split("::")[-1] in ("poll_flush", "poll_next", "poll_ready", "poll_close", "poll_data"):
            if self.on_again:
                self.on_again(ip, cs, st)
            self.later.append(st.copy())
            st.setg("again", K(True))
            s = ip.fresh(st, cs.frame, cs.block, "again", cs.dty)
            return [(st, O(s))]
        return None


def sink_entries(ctx, path):
    return impls(ctx, path, "futures_sink::Sink", ("poll_ready", "poll_flush", "poll_close"))


def stream_entries(ctx, path):
    return impls(ctx, path, "futures_core::stream::Stream", ("poll_next",)) + impls(ctx, path, "http_body::Body", ("poll_data",))


def sink_starts(ctx, sh, ip, st, path, arbs=("Void", "Pending")):
    """(label, receiver value, inner value or None) for every state."""
    sr = sink_roles(ctx)
    for v in sorted(sr.kinds):
        for full in (True, False):
            lab = "%s, %s" % (sr.kinds[v], "buffer pending" if full else "nothing pending")
            if path == SINK:
                s = st.copy()
                x = sh.sink(ip, s, v, full, None)
                yield lab, s, x, x
                continue
            for a in arbs:
                s = st.copy()
                x = sh.sink(ip, s, v, full, a)
                if path == PSINK:
                    yield "%s, %s, no permit" % (lab, a), s, A(PSINK, None, {sh.psink: x, sh.pspermit: NONE}, ip.sym(("psink",))), x
                else:
                    e = A(sh.denum, sh.dhas, {0: some(x)})
                    yield "%s, %s" % (lab, a), s, A(DSINK, None, {sh.dstate: e}, ip.sym(("dsink",))), x
    if path == DSINK:
        s = st.copy()
        yield "dispatched", s, A(DSINK, None, {sh.dstate: A(sh.denum, sh.drun, {0: O(ip.sym(("dispatched0",)))})}, ip.sym(("dsink",))), None


def stream_starts(ctx, sh, ip, st, path, arbs=("Void", "Pending")):
    for v in sorted(sh.kinds):
        for ph in ("more", "end", "failed"):
            if ph == "failed" and sh.kinds[v] != "map":
                continue
            lab = "%s, %s" % (sh.kinds[v], ph)
            if path == IMAGE:
                s = st.copy()
                x = sh.stream(ip, s, v, ph, None)
                yield lab, s, x, x
                continue
            for a in arbs:
                s = st.copy()
                x = sh.stream(ip, s, v, ph, a)
                if path == PIMAGE:
                    yield "%s, %s, no permit" % (lab, a), s, A(PIMAGE, None, {sh.pimage: x, sh.pipermit: NONE}, ip.sym(("pimage",))), x
                else:
                    e = A(sh.ienum, sh.ihas, {0: some(x)})
                    yield "%s, %s" % (lab, a), s, A(DIMAGE, None, {sh.istate: e}, ip.sym(("dimage",))), x
    if path == DIMAGE:
        s = st.copy()
        yield "dispatched", s, A(DIMAGE, None, {sh.istate: A(sh.ienum, sh.irun, {0: O(ip.sym(("dispatched0",)))})}, ip.sym(("dimage",))), None


class Run:
    """One interpretation of a poll function from one start state."""

    def __init__(self, f, path, kind, lab, ip, rule, root, v, x):
        self.f, self.path, self.kind, self.lab, self.ip, self.rule, self.root, self.v, self.x = f, path, kind, lab, ip, rule, root, v, x
        self.exits = []

    def after(self, st):
        """(receiver, inner) values in state st."""
        v = self.ip.read(st, self.root, (), None)
        return v, inner_of(self.rule.sh, self.ip, st, self.path, v)

    def key(self, what):
        return "%s / %s" % (self.f.name, what)


def runs(ctx, sh, f, path, kind, mk, lenient=False):
    """Interprets f from every start state, and again from the states in which
    it asks to be polled again.  mk(run) makes the rule."""
    starts = sink_starts if kind == "sink" else stream_starts
    n = 0
    while True:
        run = Run(f, path, kind, None, None, None, None, None, None)
        rule = mk(run)
        rule.lenient = lenient
        ip = ctx.ip([rule], max_disj=200, max_parts=4000)
        run.ip, run.rule = ip, rule
        rule.later = []

        def setup(ip, st, args):
            i = 0
            for lab, s, v, x in starts(ctx, sh, ip, st, path):
                if i == n:
                    run.lab, run.v, run.x = lab, v, x
                    run.root = pin(ip, s, f, v, args)
                    run.arg = args
                    rule.root = run.root
                    if len(args) > 1:
                        rule.cx = args[1]
                    rule.init(s)
                    rule.begin(ip, s, run)
                    return [s]
                i += 1
            return []
        run.exits, _ = ctx.entry(ip, f, setup)
        if run.lab is None:
            return
        ctx.count("start states")
        yield run
        later = list(rule.later)
        for e in run.exits:
            if is_pending(e.ret) and run.after(e.state)[0] != run.v:
                later.append(e.state)
        if later:
            again = Run(f, path, kind, run.lab + ", polled again", ip, rule, run.root, run.v, run.x)
            rule.later = []

            def more(ip, st, args):
                args[0] = run.arg[0]
                out = []
                for s in later:
                    s = s.copy()
                    for r in [r for r in s.mem if r[0] == "L"]:
                        del s.mem[r]
                    rule.init(s)
                    out.append(s)
                return out
            again.exits, _ = ctx.entry(ip, f, more)
            again.second = True
            ctx.count("start states", len(later))
            yield again
        n += 1


def is_pending(v):
    return isinstance(v, A) and v.adt == POLL and v.variant == 1


def inner_of(sh, ip, st, path, v):
    """The async sink / stream inside a receiver value, or None."""
    if path in (SINK, IMAGE):
        return v
    if path == PSINK:
        return ip.get_elem(st, v, (None, sh.psink), None)
    if path == PIMAGE:
        return ip.get_elem(st, v, (None, sh.pimage), None)
    e = ip.get_elem(st, v, (None, sh.dstate if path == DSINK else sh.istate), None)
    if isinstance(e, A) and e.variant == (sh.dhas if path == DSINK else sh.ihas):
        o = e.fields.get(0)
        if isinstance(o, A) and o.variant == 1:
            return o.fields.get(0)
    return None


def guarded(check):
    def run(ctx):
        try:
            sh = Shape(ctx)
        except Undecided as e:
            ctx.notes.append("undecided: %s" % e)
            ctx.ob("shape of the asynchronous types", True)
            return
        check(ctx, sh)
        ctx.floor("start states", 1)
    return run


ALL = ((SINK, "sink"), (PSINK, "sink"), (DSINK, "sink"), (IMAGE, "stream"), (PIMAGE, "stream"), (DIMAGE, "stream"))


def entries(ctx, path, kind):
    r = sink_entries(ctx, path) if kind == "sink" else stream_entries(ctx, path)
    if not r:
        raise CheckError("no poll functions of %s" % path)
    return r


# ------------------------------------------------------------------- C25
@guarded
def c25(ctx, sh):
    for path, kind in ALL:
        for f in entries(ctx, path, kind):
            def mk(run):
                rule = Async(ctx, sh, "C25")

                def blk(ip, cs, st):
                    ctx.count("blocking operations")
                    ctx.ob("%s / %s" % (f.name, cs.rname), st.g("grant") is True,
                           "may block although the arbiter has not granted it on this poll", cs.where())
                rule.on_block = blk
                return rule
            for run in runs(ctx, sh, f, path, kind, mk):
                for e in run.exits:
                    refused(ctx, sh, run, e)
    ctx.floor("blocking operations", 10)


def refused(ctx, sh, run, e):
    """Data pending when permission was refused is kept."""
    if not (e.state.g("refused") and is_pending(e.ret)) or run.x is None:
        return
    ip, st = run.ip, e.state
    v, x = run.after(st)
    if x is None:
        return
    ctx.count("refusals")
    if run.kind == "sink":
        b0, b1 = run.x.fields[sh.buf], ip.get_elem(st, x, (None, sh.buf), None)
        ctx.ob(run.key("refused"), b0 == b1, "the pending buffer is not kept when blocking is refused (%s): %s" % (run.lab, b1.show(ip.st)))
    else:
        b0, b1 = run.x.fields[sh.store], ip.get_elem(st, x, (None, sh.store), None)
        ctx.ob(run.key("refused"), b0 == b1, "the rest of the body is not kept when blocking is refused (%s): %s" % (run.lab, b1.show(ip.st)))


# ------------------------------------------------------------------- C26
TABLE = {"Void": ("Pending", False), "Pending": ("Pending", False), "Once": ("Void", True), "Always": ("Always", True)}


@guarded
def c26(ctx, sh):
    arb = "body_image_futio::blocking::BlockingArbiter"
    back = {i: n for n, i in sh.block.items()}
    for f in impls(ctx, STATEFUL, arb, ("can_block", "state")):
        for s0 in TABLE:
            ip = ctx.ip([])

            def setup(ip, st, args):
                st.mem[args[0].root] = sh.arbiter(ip, s0)
                setup.root = args[0].root
            ex, _ = ctx.entry(ip, f, setup)
            ctx.count("arbiter transitions")
            if not ex:
                ctx.ob("%s / %s" % (f.name, s0), False, "does not return")
            for e in ex:
                s1 = ip.get_elem(e.state, ip.read(e.state, setup.root, (), None), (None, sh.astate), None)
                n1 = back.get(s1.variant) if isinstance(s1, A) else None
                if f.name.endswith("can_block"):
                    w = TABLE[s0]
                    r = ip.decide(e.state, e.ret)
                    ctx.ob("%s / %s" % (f.name, s0), (n1, r) == w,
                           "from state %s the arbiter answers %s and becomes %s, not %s and %s" % (s0, r, n1, w[1], w[0]), f.span)
                else:
                    ctx.ob("%s / %s" % (f.name, s0), n1 == s0 and isinstance(e.ret, A) and e.ret.variant == sh.block[s0],
                           "state is not reported as it is (%s)" % s0, f.span)
    for f in impls(ctx, STATEFUL, "core::default::Default", ("default",)):
        ip = ctx.ip([])
        ex, _ = ctx.entry(ip, f)
        for e in ex:
            s1 = ip.get_elem(e.state, e.ret, (None, sh.astate), None)
            ctx.ob("%s" % f.name, isinstance(s1, A) and s1.variant == sh.block["Void"], "a new arbiter is not without permission", f.span)
            ctx.count("arbiter transitions")
    ctx.floor("arbiter transitions", 5)
    for path, kind in ALL:
        if path in (SINK, IMAGE):
            continue
        for f in entries(ctx, path, kind):
            def mk(run):
                rule = Async(ctx, sh, "C26")

                def blk(ip, cs, st):
                    ctx.count("blocking operations")
                    ctx.ob("%s / %s" % (f.name, cs.rname), st.g("perm") is not None,
                           "may block while neither a permit is held nor on a dispatch thread", cs.where())

                def ask(ip, cs, st, what):
                    ctx.count("requests")
                    ctx.ob("%s / %s" % (f.name, what), st.g("refused") is True,
                           "asks for a %s although blocking was not refused on this poll" % what, cs.where())

                def done(ip, cs, st, v):
                    x = ip.get_elem(st, v, (None, 1), None) if isinstance(v, A) else None
                    left(ctx, sh, run, ip, st, x, "dispatched operation")
                rule.on_block, rule.on_ask, rule.on_dispatched = blk, ask, done
                return rule
            for run in runs(ctx, sh, f, path, kind, mk):
                for e in run.exits:
                    if e.state.g("again"):
                        continue
                    v, x = run.after(e.state)
                    if x is not None and run.x is not None and x != e.state.g("ob"):
                        left(ctx, sh, run, run.ip, e.state, x, run.lab)
    ctx.floor("blocking operations", 10)
    ctx.floor("requests", 4)


def left(ctx, sh, run, ip, st, x, lab):
    """No permission outlives the permit or the dispatched operation."""
    a = ip.get_elem(st, x, (None, sh.sarb if run.kind == "sink" else sh.iarb), None) if x is not None else None
    s = ip.get_elem(st, a, (None, sh.astate), None) if a is not None else None
    if not isinstance(s, A) or s.variant is None:
        ctx.notes.append("undecided: %s: arbiter state after %s" % (run.f.name, lab))
        return
    ctx.count("arbiter states")
    ctx.ob(run.key("permission used up"), s.variant in (sh.block["Void"], sh.block["Pending"]),
           "permission to block is left over (%s)" % lab)


# ------------------------------------------------------------------- C27
def buf_of(sh, ip, st, x):
    return ip.nv(st, ip.get_elem(st, x, (None, sh.buf), None))


def body_of(ctx, sh, ip, st, x):
    return body_content(ip, st, sink_roles(ctx), ip.get_elem(st, x, (None, sh.body), None))


def stored(ctx, sh, run, ip, st, ret, x, key, lab):
    """ret and the sink x left behind agree on what became of the buffer."""
    c0, b0 = run.rule.c0, run.x.fields[sh.buf]
    c1, b1 = body_of(ctx, sh, ip, st, x), buf_of(sh, ip, st, x)
    ret = ip.nv(st, ret)
    if not isinstance(ret, A) or ret.variant is None or c1 is None:
        if isinstance(ret, A) or ret is None:
            ctx.notes.append("undecided: %s (%s)" % (key, lab))
        return
    if ret.variant == 1:
        ctx.ob(key, b0 == b1, "a buffer that is not stored yet does not stay pending (%s)" % lab)
        ctx.ob(key, M.ceq(ip, st, c0, c1), "pending, but the body has changed (%s): %s" % (lab, c1.show(ip.st)))
        ctx.count("outcomes")
        return
    r = ip.nv(st, ret.fields.get(0))
    if not isinstance(r, A) or r.variant is None:
        ctx.notes.append("undecided: %s (%s)" % (key, lab))
        return
    ctx.count("outcomes")
    if r.variant == 0:
        ctx.ob(key, isinstance(b1, A) and b1.variant == 0, "reports ready while a buffer is pending (%s)" % lab)
        w = M.append(ip, st, c0, M.content(ip, st, b0.fields[0])) if b0.variant == 1 else c0
        ctx.ob(key, M.ceq(ip, st, c1, w), "reports ready, but the buffer was not stored exactly once (%s): %s" % (lab, c1.show(ip.st)))
    elif b0.variant == 0:
        ctx.ob(key, M.ceq(ip, st, c0, c1), "fails and changes the body although nothing was pending (%s)" % lab)


class SinkRule(Async):
    def begin(self, ip, st, run):
        if run.x is not None:
            self.c0 = body_of(self.ctx, self.sh, ip, st, run.x)


@guarded
def c27(ctx, sh):
    for path in (SINK, PSINK, DSINK):
        for f in entries(ctx, path, "sink"):
            def mk(run):
                rule = SinkRule(ctx, sh, "C27")

                def done(ip, cs, st, v):
                    v = ip.nv(st, v)
                    if isinstance(v, A) and 0 in v.fields and 1 in v.fields and run.x is not None:
                        ctx.count("dispatched outcomes")
                        stored(ctx, sh, run, ip, st, v.fields[0], v.fields[1], run.key("dispatched"), run.lab)

                def again(ip, cs, st):
                    v, x = run.after(st)
                    if x is not None:
                        stored(ctx, sh, run, ip, st, PENDING, x, run.key("polled again"), run.lab)
                rule.on_dispatched, rule.on_again = done, again
                return rule
            for run in runs(ctx, sh, f, path, "sink", mk):
                for e in run.exits:
                    if not e.state.g("again"):
                        settled(ctx, sh, run, e)
        for f in impls(ctx, path, "futures_sink::Sink", ("start_send",)):
            for run in runs(ctx, sh, f, path, "sink", lambda run: SinkRule(ctx, sh, "C27")):
                for e in run.exits:
                    accepted(ctx, sh, run, e)
        wraps(ctx, sh, path)
    ctx.floor("outcomes", 20)
    ctx.floor("dispatched outcomes", 1)


def settled(ctx, sh, run, e):
    ip, st = run.ip, e.state
    v, x = run.after(st)
    if run.x is None or st.g("ob") is not None or x is None:
        dispatched_exit(ctx, sh, run, e, x)
    else:
        stored(ctx, sh, run, ip, st, e.ret, x, run.key("outcome"), run.lab)


def dispatched_exit(ctx, sh, run, e, x):
    """The answer of a dispatched operation is passed on, with its sink."""
    ip, st = run.ip, e.state
    ob, res = st.g("ob"), st.g("res")
    ret = ip.nv(st, e.ret)
    if ob is not None:
        ctx.count("outcomes")
        ctx.ob(run.key("dispatch done"), x is not None and x == ob, "what the dispatched operation gives back is not kept")
        same = ret == res or ret == ip.nv(st, res)
        ctx.ob(run.key("dispatch done"), same, "the outcome of the dispatched operation is not reported: %s" % ret.show(ip.st))
    elif is_pending(ret):
        ctx.count("outcomes")
        v, _ = run.after(st)
        if run.x is None:
            ctx.ob(run.key("dispatch pending"), v == run.v, "the dispatched operation is given up while pending")
    else:
        r = ip.nv(st, ret.fields.get(0)) if isinstance(ret, A) else None
        if run.kind == "sink":
            bad = isinstance(r, A) and r.variant == 0
        else:
            bad = not (isinstance(r, A) and r.variant == 1 and isinstance(r.fields.get(0), A) and r.fields[0].variant == 1)
        ctx.ob(run.key("dispatch lost"), not bad, "reports success although the dispatched operation was canceled")


def accepted(ctx, sh, run, e):
    if run.x is None:
        return
    ip, st = run.ip, e.state
    r = ip.nv(st, e.ret)
    if not (isinstance(r, A) and r.variant == 0):
        return
    ctx.count("outcomes")
    v, x = run.after(st)
    if x is None:
        ctx.ob(run.key("accepted"), False, "accepts a buffer and is left without a sink")
        return
    b1, c1 = buf_of(sh, ip, st, x), body_of(ctx, sh, ip, st, x)
    ctx.ob(run.key("accepted"), run.x.fields[sh.buf].variant == 0, "accepts a buffer while another is pending (%s)" % run.lab)
    ctx.ob(run.key("accepted"), isinstance(b1, A) and b1.variant == 1 and b1.fields.get(0) == run.arg[1] and M.ceq(ip, st, c1, run.rule.c0)
           or isinstance(b1, A) and b1.variant == 0 and M.ceq(ip, st, c1, M.append(ip, st, run.rule.c0, M.content(ip, st, run.arg[1]))),
           "an accepted buffer is neither pending nor stored (%s)" % run.lab)


def wraps(ctx, sh, path):
    """Making a sink of a body and taking the body back leave it as it is."""
    sr = sink_roles(ctx)
    fs = [f for f in ctx.local_fns((CRATE,)) if f.impl_self == path and f.name.split("::")[-1] in ("new", "into_inner")]
    for f in fs:
        for v in sorted(sr.kinds):
            ip = ctx.ip([Async(ctx, sh, "C27")], max_disj=200)
            pre = {}
            make = f.name.endswith("new")

            def setup(ip, st, args):
                if make:
                    for i, t in enumerate(f.locals[1:f.argc + 1]):
                        if t.adt == "body_image::BodySink":
                            args[i] = mk_body(ctx, ip, st, sr, ip.sym(("self", "w")), v)
                            pre["c"] = body_content(ip, st, sr, args[i])
                else:
                    x = sh.sink(ip, st, v, False, "Void" if path != SINK else None)
                    pre["c"] = body_of(ctx, sh, ip, st, x)
                    args[0] = x if path == SINK else A(PSINK, None, {sh.psink: x, sh.pspermit: NONE}) if path == PSINK \
                        else A(DSINK, None, {sh.dstate: A(sh.denum, sh.dhas, {0: some(x)})})
            ex, _ = ctx.entry(ip, f, setup)
            for e in ex:
                st = e.state
                ctx.count("outcomes")
                if make:
                    x = inner_of(sh, ip, st, path, ip.nv(st, e.ret))
                    b = buf_of(sh, ip, st, x) if x is not None else None
                    ctx.ob("%s / empty" % f.name, isinstance(b, A) and b.variant == 0, "a new sink has a buffer pending", f.span)
                    c = body_of(ctx, sh, ip, st, x) if x is not None else None
                else:
                    c = body_content(ip, st, sr, e.ret)
                ctx.ob("%s / body" % f.name, c is not None and M.ceq(ip, st, c, pre["c"]), "the body is not the one given", f.span)


# ------------------------------------------------------------------- C28
class StreamRule(Async):
    def begin(self, ip, st, run):
        if run.x is not None:
            self.want = expected(self.ctx, self.sh, ip, st, run.x)

    def on_call(self, ip, cs, st):
        r = cs.rname or ""
        if r.startswith("http_body::size_hint::SizeHint::"):
            m = r.split("::")[-1]
            d = [v for k, v in enumerate(cs.args) if isinstance(v, I)]
            if m == "with_exact" and d:
                return [(st, A("hint", None, {"lower": d[0], "upper": d[0]}))]
            if m in ("new",):
                return [(st, A("hint", None, {"lower": I(ZERO), "upper": K(None)}))]
            if m in ("default",):
                return [(st, A("hint", None, {"lower": I(ZERO), "upper": K(None)}))]
            if m in ("set_lower", "set_upper", "set_exact") and isinstance(cs.args[0], R):
                v = ip.read(st, cs.args[0].root, cs.args[0].path, None)
                if isinstance(v, A) and v.adt == "hint" and d:
                    if m in ("set_lower", "set_exact"):
                        v = v.with_("lower", d[0])
                    if m in ("set_upper", "set_exact"):
                        v = v.with_("upper", d[0])
                    ip.write(st, cs.args[0].root, cs.args[0].path, v)
                    return [(st, UNIT)]
        if r == "<http_body::size_hint::SizeHint as core::default::Default>::default":
            return [(st, A("hint", None, {"lower": I(ZERO), "upper": K(None)}))]
        return Async.on_call(self, ip, cs, st)


def expected(ctx, sh, ip, st, x):
    """(kind, len0, consumed0, storage) of a stream."""
    s = x.fields[sh.store]
    return sh.kinds[s.variant], x.fields[sh.len].lin, sh.con(ip, st, x), s.fields[0]


def item_ok(ip, st, kind, sv, item, n):
    """The item is the next part of the body, of length n."""
    c = M.content(ip, st, item)
    if kind == "ram":
        w = models_std.iter_item(ip, None, st, sv, sv.fields["idx"].lin, None)
        return M.ceq(ip, st, c, M.content(ip, st, w))
    if kind == "file":
        w = M.mkck(ip, st, M.attr(ip, st, sv, "content"), M.lin(ip, st, sv, "pos"), n)
        return M.ceq(ip, st, c, w)
    mm = ip.get_elem(st, sv.fields[0], (None, "inner"), None)
    return M.ceq(ip, st, c, M.content(ip, st, mm))


def delivered(ctx, sh, run, ip, st, ret, x, key, lab):
    kind, len0, con0, sv = run.rule.want
    lab = "%s" % lab
    ret = ip.nv(st, ret)
    ln1, con1 = ip.get_elem(st, x, (None, sh.len), None), sh.con(ip, st, x)
    if not isinstance(ln1, I) or con1 is None or not isinstance(ret, A) or ret.variant is None:
        ctx.notes.append("undecided: %s (%s)" % (key, lab))
        return
    ln1 = ln1.lin
    n = st.num
    ctx.ob(key, n.eq(ln1, len0), "the length of the body changes (%s): %s" % (lab, ln1.show(ip.st)))
    ctx.count("outcomes")
    if ret.variant == 1:
        ctx.ob(key, n.eq(con1, con0), "pending, but counted as delivered (%s): %s" % (lab, con1.show(ip.st)))
        return
    r = ip.nv(st, ret.fields.get(0))
    if not isinstance(r, A) or r.variant is None:
        ctx.notes.append("undecided: %s (%s)" % (key, lab))
        return
    if r.variant == 0:
        failed = kind == "map" and isinstance(sv, A) and sv.variant == 0
        ctx.ob(key, failed or n.eq(con0, len0) and n.eq(con1, con0), "ends before everything was delivered (%s)" % lab)
        return
    i = ip.nv(st, r.fields.get(0))
    if not isinstance(i, A) or i.variant is None:
        ctx.notes.append("undecided: %s (%s)" % (key, lab))
        return
    if i.variant == 1:
        ctx.ob(key, n.eq(con1, con0), "fails, but counts as delivered (%s): %s" % (lab, con1.show(ip.st)))
        return
    item = i.fields[0]
    m = M.length(ip, st, item)
    ctx.count("items")
    ctx.ob(key, n.eq(con1 - con0, m), "an item of %s bytes is not counted as such (%s): %s" % (m.show(ip.st), lab, (con1 - con0).show(ip.st)))
    ctx.ob(key, item_ok(ip, st, kind, sv, item, m), "an item is not the next part of the body (%s): %s" % (lab, M.content(ip, st, item).show(ip.st)))
    if kind != "ram":
        ctx.ob(key, n.entails_ge(m - 1), "may deliver empty items for ever (%s)" % lab)
    s1 = ip.nv(st, ip.get_elem(st, x, (None, sh.store), None))
    v0 = run.x.fields[sh.store].variant
    if not (isinstance(s1, A) and s1.variant == v0):
        ctx.notes.append("undecided: %s: storage (%s)" % (key, lab))
        return
    p = ip.nv(st, s1.fields.get(0))
    if kind == "ram" and isinstance(p, A) and "idx" in p.fields:
        ctx.ob(key, n.eq(p.fields["idx"].lin, sv.fields["idx"].lin + 1), "the next item is not the next buffer (%s)" % lab)
    elif kind == "file":
        ctx.ob(key, n.eq(M.lin(ip, st, p, "pos") - M.lin(ip, st, sv, "pos"), m), "the file is not left after the item delivered (%s)" % lab)
    elif kind == "map":
        ctx.ob(key, isinstance(p, A) and p.variant == 0, "the mapped body may be delivered again (%s)" % lab)


@guarded
def c28(ctx, sh):
    for path in (IMAGE, PIMAGE, DIMAGE):
        for f in entries(ctx, path, "stream"):
            def mk(run):
                rule = StreamRule(ctx, sh, "C28")

                def done(ip, cs, st, v):
                    v = ip.nv(st, v)
                    if isinstance(v, A) and 0 in v.fields and 1 in v.fields and run.x is not None:
                        ctx.count("dispatched outcomes")
                        delivered(ctx, sh, run, ip, st, v.fields[0], v.fields[1], run.key("dispatched"), run.lab)

                def again(ip, cs, st):
                    v, x = run.after(st)
                    if x is not None:
                        delivered(ctx, sh, run, ip, st, PENDING, x, run.key("polled again"), run.lab)
                rule.on_dispatched, rule.on_again = done, again
                return rule
            for run in runs(ctx, sh, f, path, "stream", mk):
                for e in run.exits:
                    if e.state.g("again"):
                        continue
                    v, x = run.after(e.state)
                    if run.x is None or e.state.g("ob") is not None or x is None:
                        dispatched_exit(ctx, sh, run, e, x)
                    else:
                        delivered(ctx, sh, run, run.ip, e.state, e.ret, x, run.key("outcome"), run.lab)
        hints(ctx, sh, path)
        news(ctx, sh, path)
    mapped(ctx, sh)
    ctx.floor("outcomes", 20)
    ctx.floor("items", 3)
    ctx.floor("dispatched outcomes", 1)


def hints(ctx, sh, path):
    own = [i for i, f in enumerate(fields(ctx, path)) if f[1] == "u64"] if path == DIMAGE else []
    for f in impls(ctx, path, "http_body::Body", ("size_hint", "is_end_stream")):
        n = 0
        while True:
            ip = ctx.ip([StreamRule(ctx, sh, "C28")], max_disj=200)
            got = {}

            def setup(ip, st, args):
                for i, (lab, s, v, x) in enumerate(stream_starts(ctx, sh, ip, st, path)):
                    if i == n:
                        got.update(lab=lab, x=x)
                        if own:
                            got["own"] = x.fields[sh.len] if x is not None else I(Lin.sym(ip.sym(("ownlen",), None, (), True)))
                            for j in own:
                                v = v.with_(j, got["own"])
                        s.mem[args[0].root] = v
                        return [s]
                return []
            ex, _ = ctx.entry(ip, f, setup)
            if not got:
                break
            n += 1
            x, lab = got["x"], got["lab"]
            for e in ex:
                st = e.state
                ctx.count("hints")
                if f.name.endswith("is_end_stream"):
                    d = ip.decide(st, e.ret)
                    if x is None:
                        ctx.ob("%s / dispatched" % f.name, d is not True, "says the stream has ended while an item is awaited", f.span)
                    else:
                        left_ = x.fields[sh.len].lin - sh.con(ip, st, x)
                        ctx.ob("%s / %s" % (f.name, lab.split(",")[1].strip()), d is st.num.eq(left_, ZERO), "the end of the stream is told wrongly (%s)" % lab, f.span)
                else:
                    h = ip.nv(st, e.ret)
                    if not (isinstance(h, A) and h.adt == "hint"):
                        ctx.notes.append("undecided: %s" % f.name)
                        continue
                    lo, up = h.fields["lower"].lin, h.fields["upper"]
                    if x is None:
                        ok = own and isinstance(up, I) and st.num.eq(up.lin, got["own"].lin) and st.num.eq(lo, up.lin)
                        ctx.ob("%s / dispatched" % f.name, ok or not own, "the size hint is not the length of the body", f.span)
                    else:
                        ln, co = x.fields[sh.len].lin, sh.con(ip, st, x)
                        ok = isinstance(up, I) and st.num.eq(lo, up.lin) and (st.num.eq(lo, ln) or st.num.eq(lo, ln - co))
                        ctx.ob("%s / size" % f.name, ok, "the size hint is not the length of the body (%s): %s" % (lab, lo.show(ip.st)), f.span)


def news(ctx, sh, path):
    """A new stream has everything of the body still to deliver."""
    ir = image_roles(ctx)
    own = [i for i, f in enumerate(fields(ctx, path)) if f[1] == "u64"] if path == DIMAGE else []
    fs = [f for f in ctx.local_fns((CRATE,)) if f.impl_self == path and f.name.split("::")[-1] == "new"]
    for f in fs:
        for v in sorted(ir.kinds):
            ip = ctx.ip([StreamRule(ctx, sh, "C28")], max_disj=200)
            pre = {}

            def setup(ip, st, args):
                for i, t in enumerate(f.locals[1:f.argc + 1]):
                    if t.adt == "body_image::BodyImage":
                        b = args[i] = mk_body(ctx, ip, st, ir, ip.sym(("self", "w")), v)
                        pre["c"], pre["n"] = body_content(ip, st, ir, b), b.fields[ir.len].lin
            ex, _ = ctx.entry(ip, f, setup)
            for e in ex:
                st = e.state
                ret = ip.nv(st, e.ret)
                x = inner_of(sh, ip, st, path, ret)
                k = "%s / %s" % (f.name, ir.kinds[v])
                if not isinstance(x, A):
                    ctx.notes.append("undecided: %s" % k)
                    continue
                ctx.count("new streams")
                n = st.num
                ln, co = ip.get_elem(st, x, (None, sh.len), None), sh.con(ip, st, x)
                ctx.ob(k, isinstance(ln, I) and n.eq(ln.lin, pre["n"]), "the stream's length is not the body's", f.span)
                ctx.ob(k, co is not None and n.eq(co, ZERO), "a new stream has delivered something", f.span)
                for j in own:
                    o = ip.get_elem(st, ret, (None, j), None)
                    ctx.ob(k, isinstance(o, I) and n.eq(o.lin, pre["n"]), "the stream's length is not the body's", f.span)
                s = ip.nv(st, ip.get_elem(st, x, (None, sh.store), None))
                p = ip.nv(st, s.fields.get(0)) if isinstance(s, A) and s.variant is not None else None
                if p is None:
                    ctx.notes.append("undecided: %s" % k)
                elif sh.kinds[s.variant] == "file":
                    a, b, q = (M.lin(ip, st, p, t) for t in ("start", "stop", "pos"))
                    c = M.mkck(ip, st, M.attr(ip, st, p, "content"), a, b - a)
                    ctx.ob(k, n.eq(q, a) and n.eq(b - a, pre["n"]) and M.ceq(ip, st, c, pre["c"]), "the stream does not read the body's bytes from its start: %s" % c.show(ip.st), f.span)
                elif sh.kinds[s.variant] == "ram" and isinstance(p, A) and "seq" in p.fields:
                    c = M.cnorm(ip, st, T("flat", p.fields["seq"]))
                    ctx.ob(k, n.eq(p.fields["idx"].lin, ZERO) and M.ceq(ip, st, c, pre["c"]), "the stream does not start with the body's first buffer: %s" % c.show(ip.st), f.span)
                elif sh.kinds[s.variant] == "map":
                    o = ip.nv(st, p)
                    mm = ip.get_elem(st, o.fields[0], (None, "inner"), None) if isinstance(o, A) and o.variant == 1 else None
                    ctx.ob(k, mm is not None and M.ceq(ip, st, M.content(ip, st, mm), pre["c"]), "the stream does not hold the mapped body", f.span)


def mapped(ctx, sh):
    """Items made of a mapped body have all of its bytes."""
    for f in ctx.local_fns((CRATE,)):
        if (f.impl_trait or "").split("<")[0] != P + "stream::OutputBuf" or not f.name.endswith("::from_mmap"):
            continue
        ip = ctx.ip([], max_disj=200)
        pre = {}

        def setup(ip, st, args):
            mm = ip.get_elem(st, args[0], (None, "inner"), None)
            st.num.add_ge(M.lin(ip, st, mm, "len") - 1)
            pre["c"], pre["n"] = M.content(ip, st, mm), M.lin(ip, st, mm, "len")
        ex, _ = ctx.entry(ip, f, setup)
        for e in ex:
            r = ip.nv(e.state, e.ret)
            if not is_ok(r):
                continue
            ctx.count("mapped items")
            for w, n in windows(ctx, ip, e.state, f.impl_self, r.fields[0]):
                ctx.ob("%s / bytes" % f.name, M.ceq(ip, e.state, w, pre["c"]), "the item is not the mapped body: %s" % w.show(ip.st), f.span)


# ------------------------------------------------------------------- C30
UNI = P + "uni_body_buf::UniBodyBuf"
BUF = "bytes::buf::buf_impl::Buf"


def method(ctx, path, trait, name):
    r = [f for f in ctx.local_fns((CRATE,)) if f.impl_self == path and (f.impl_trait or "").split("<")[0] == trait and f.name.split("::")[-1] == name]
    return r[0] if r else None


def apply(ctx, ip, st, f, v, *more):
    """Interprets method f on value v in a copy of st; yields (state, ret, v')."""
    root = ("H", Id(ip.sym(("buf", f.key))))

    def setup(ip, s0, args):
        s = st.copy()
        for r in [r for r in s.mem if r[0] == "L"]:
            del s.mem[r]
        if f.locals[1].k == "ref":
            s.mem[root] = v
            args[0] = R(root, (), bool(f.locals[1].mut))
        else:
            args[0] = v
        for i, m in enumerate(more):
            args[i + 1] = m
        return [s]
    ex, _ = ctx.entry(ip, f, setup)
    for e in ex:
        yield e.state, ip.nv(e.state, e.ret), (ip.read(e.state, root, (), None) if f.locals[1].k == "ref" else None)


def windows(ctx, ip, st, path, v):
    """(content, length) a buffer value shows."""
    f = method(ctx, path, BUF, "chunk")
    if f is None:
        yield M.content(ip, st, v), M.length(ip, st, v)
        return
    for s, r, _ in apply(ctx, ip, st, f, v):
        yield M.content(ip, s, r), M.length(ip, s, r)


def inner_bufs(v):
    """The crate's own buffer values inside v."""
    if isinstance(v, A):
        if v.adt.startswith(P) and v.adt != UNI and v.variant is None:
            yield v
        for x in v.fields.values():
            yield from inner_bufs(x)


class Panics(Rule):
    """Panics reached while watching."""
    watch = None

    def on_panic(self, ip, cs, st):
        if self.watch is not None:
            self.watch.append(cs.where())


def c30(ctx):
    ops = {n: method(ctx, UNI, BUF, n) for n in ("remaining", "chunk", "advance")}
    split = method(ctx, UNI, "blocking_permit::cleaver::Splittable", "split_if") or next(
        (f for f in ctx.local_fns((CRATE,)) if f.impl_self == UNI and f.name.endswith("::split_if")), None)
    if None in ops.values() or split is None:
        raise CheckError("buffer operations not found")
    sources = [f for f in ctx.local_fns((CRATE,)) if f.impl_self == UNI and (
        (f.impl_trait or "").split("<")[0] == P + "stream::OutputBuf" and f.name.endswith("::from_mmap")
        or (f.impl_trait or "") == "core::convert::From" and f.name.endswith("::from"))]
    for src in sources:
        rule = Panics()
        ip = ctx.ip([rule], max_disj=200)
        pre = {}

        def setup(ip, st, args):
            if src.name.endswith("from_mmap"):
                mm = ip.get_elem(st, args[0], (None, "inner"), None)
                st.num.add_ge(M.lin(ip, st, mm, "len") - 1)
            else:
                mm = args[0]
            pre["c"], pre["n"] = M.content(ip, st, mm), M.length(ip, st, mm)
        ex, _ = ctx.entry(ip, src, setup)
        for e in ex:
            r = ip.nv(e.state, e.ret)
            if isinstance(r, A) and r.adt == RES:
                if r.variant != 0:
                    continue
                r = ip.nv(e.state, r.fields[0])
            kind = "mapped" if src.name.endswith("from_mmap") else "bytes"
            walk(ctx, ip, e.state, r, ops, split, rule, pre["c"], ZERO, pre["n"], kind, 0)
    ctx.floor("buffers", 4)
    ctx.floor("splits", 2)


def walk(ctx, ip, st, v, ops, split, rule, c, lo, ln, kind, depth):
    """v must show exactly ln bytes of c from lo on, and its operations must
    move that window as asked.  Follows the buffers the operations leave."""
    ctx.count("buffers")
    st.num.add_ge(ln)

    def shows(s, x, lo, ln, key, what, site=""):
        w = M.mkck(ip, s, c, lo, ln)
        for g, n in windows(ctx, ip, s, UNI, x):
            ctx.ob(key, M.ceq(ip, s, g, w) and s.num.eq(n, ln), "%s shows %s, not %s" % (what, g.show(ip.st), w.show(ip.st)), site)
    shows(st, v, lo, ln, "%s / window" % kind, "a buffer")
    for s, r, _ in apply(ctx, ip, st, ops["remaining"], v):
        ctx.ob("%s / %s" % (kind, ops["remaining"].name), isinstance(r, I) and s.num.eq(r.lin, ln), "does not tell the bytes left", ops["remaining"].span)
    for f in ctx.local_fns((CRATE,)):
        t, m = (f.impl_trait or "").split("<")[0], f.name.split("::")[-1]
        if (t, m) not in (("core::ops::deref::Deref", "deref"), ("core::convert::AsRef", "as_ref"), ("core::convert::Into", "into"),
                          (BUF, "chunk"), (BUF, "remaining")):
            continue
        vs = [v] if f.impl_self == UNI else [x for x in inner_bufs(v) if x.adt == f.impl_self]
        for x in vs:
            for s, r, _ in apply(ctx, ip, st, f, x):
                ctx.count("views")
                if m == "remaining":
                    ctx.ob("%s / %s" % (kind, f.name), isinstance(r, I) and s.num.eq(r.lin, ln), "does not tell the bytes left", f.span)
                    continue
                g = M.content(ip, s, r)
                ctx.ob("%s / %s" % (kind, f.name), M.ceq(ip, s, g, M.mkck(ip, s, c, lo, ln)), "gives %s" % g.show(ip.st), f.span)
    k = Lin.sym(ip.sym(("count", depth), None, (), True))
    f = ops["advance"]
    for s, r, x in apply(ctx, ip, st, f, v, I(k)):
        ctx.count("advances")
        ok = s.num.entails_ge(ln - k)
        ctx.ob("%s / %s" % (kind, f.name), ok, "advances beyond the window", f.span)
        if ok:
            shows(s, x, lo + k, ln - k, "%s / %s" % (kind, f.name), "an advanced buffer", f.span)
            if depth < 2:
                walk(ctx, ip, s, x, ops, split, rule, c, lo + k, ln - k, kind, depth + 1)
    f = split
    m = Lin.sym(ip.sym(("max", depth), None, (), True))
    s0 = st.copy()
    s0.num.add_ge(m - 1)
    rule.watch = w = []
    outs = list(apply(ctx, ip, s0, f, v, I(m)))
    rule.watch = None
    ctx.ob("%s / %s" % (kind, f.name), not w, "splitting can panic", w[0] if w else "")
    for s, r, x in outs:
        if not isinstance(r, A) or r.variant is None:
            ctx.notes.append("undecided: %s" % f.name)
            continue
        ctx.count("splits")
        key = "%s / %s" % (kind, f.name)
        if r.variant == 0:
            ctx.ob(key, s.num.entails_ge(m - ln), "does not split a buffer longer than asked for", f.span)
            shows(s, x, lo, ln, key, "a buffer not split", f.span)
            continue
        p = ip.nv(s, r.fields[0])
        ctx.ob(key, s.num.entails_ge(ln - m), "splits beyond the window", f.span)
        shows(s, p, lo, m, key, "the first part of a split", f.span)
        shows(s, x, lo + m, ln - m, key, "the second part of a split", f.span)
        if depth < 2:
            walk(ctx, ip, s, p, ops, split, rule, c, lo, m, kind, depth + 1)
            walk(ctx, ip, s, x, ops, split, rule, c, lo + m, ln - m, kind, depth + 1)


# ------------------------------------------------------------------- C29
@guarded
def c29(ctx, sh):
    for path, kind in ALL:
        base = path in (SINK, IMAGE)
        for f in entries(ctx, path, kind):
            def mk(run):
                rule = Async(ctx, sh, "C29")

                def again(ip, cs, st):
                    cx = cs.args[1] if len(cs.args) > 1 else None
                    ctx.ob(run.key("polled again"), cx is not None and rule.is_cx(ip, st, cx), "polled again with another task's context", cs.where())

                def done(ip, cs, st, v):
                    v = ip.nv(st, v)
                    r = ip.nv(st, v.fields[0]) if isinstance(v, A) and 0 in v.fields else None
                    if r is not None:
                        ctx.count("dispatched outcomes")
                        ctx.ob(run.key("dispatched"), not is_pending(r), "a dispatched operation may come back pending, with nothing to wake the task (%s)" % run.lab)
                rule.on_again, rule.on_dispatched = again, done
                return rule
            for run in runs(ctx, sh, f, path, kind, mk, lenient=base):
                for e in run.exits:
                    if e.state.g("again"):
                        continue
                    ctx.count("outcomes")
                    ctx.ob(run.key("pending"), not is_pending(run.ip.nv(e.state, e.ret)) or e.state.g("woke") is True,
                           "returns pending with nothing to wake the task (%s)" % run.lab, f.span)
    for f in impls(ctx, P + "blocking::LenientArbiter", "body_image_futio::blocking::BlockingArbiter", ("can_block",)):
        ip = ctx.ip([])
        for e in ctx.entry(ip, f)[0]:
            ctx.ob(f.name, ip.decide(e.state, e.ret) is True, "refuses to block, which nothing above it grants", f.span)
    ctx.floor("outcomes", 20)
