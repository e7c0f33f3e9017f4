"""Tunables and their builders: C12."""
from common import *
from p_body import key_of

DUR = "core::time::Duration"
CASES = (("body_image", "body_image::Tunables", "body_image::Tuner"),
         ("body_image_futio", "body_image_futio::tune::FutioTunables", "body_image_futio::tune::FutioTuner"))
NONZERO = ("buffer_size_ram", "buffer_size_fs", "size_estimate_deflate", "size_estimate_gzip", "size_estimate_brotli", "stream_item_size")
ORDERED = (("max_body_ram", "max_body"), ("res_timeout", "body_timeout"))
MUTABLE = ("Cell<", "RefCell<", "Mutex<", "RwLock<", "Atomic", "OnceCell<", "UnsafeCell<")


class Durations(IP.Rule):
    """Durations compare as numbers."""
    def dur(self, ip, st, v):
        while isinstance(v, (R, RS)):
            v = M.rd(ip, st, v)
        v = ip.nv(st, v)
        return Lin.sym(ip.sym(("dur", v), None, (), True))

    def on_call(self, ip, cs, st):
        m = (cs.name or "").split("::")[-1]
        t = cs.atys[0].strip() if cs.atys and cs.atys[0] is not None else None
        if t is None or t.adt != DUR or len(cs.args) < 2:
            return None
        a, b = self.dur(ip, st, cs.args[0]), self.dur(ip, st, cs.args[1])
        if m in ("le", "lt", "ge", "gt", "eq", "ne"):
            r = {"le": B("ge", b - a), "lt": B("ge", b - a - 1), "ge": B("ge", a - b), "gt": B("ge", a - b - 1),
                 "eq": B("eq", a - b), "ne": B("eq", a - b).neg()}[m]
            return [(st, r)]
        return None


def getters(ctx, crate, path):
    """setting -> field index"""
    out = {}
    ad = ctx.adt(path)
    fs = ad["variants"][0]["fields"]
    for f in ctx.local_fns((crate,)):
        if f.impl_self != path or not f.pub or f.impl_trait or f.argc != 1 or f.locals[1].k != "ref" or f.locals[1].mut:
            continue
        n = f.name.split("::")[-1]
        ip = ctx.ip()
        pre = {}

        def setup(ip, st, args):
            fl = {}
            for i, x in enumerate(fs):
                s = ip.sym(("setting", i), None, (("setting", i),), True)
                fl[i] = I(Lin.sym(s)) if x[1] in ("u64", "usize", "u16", "u32", "u8") else O(s)
            st.mem[args[0].root] = A(path, None, fl, ip.sym(("tun",)))
        try:
            ex, args = ctx.entry(ip, f, setup)
        except CheckError:
            continue
        pv = set()
        for e in ex:
            pv |= {x[1] for x in M.prov(ip, e.state, e.ret) if isinstance(x, tuple) and x[0] == "setting"}
            if isinstance(e.ret, R) and e.ret.root == args[0].root and e.ret.path:
                pv.add(e.ret.path[0][1])
        byname = [i for i, x in enumerate(fs) if x[0] == n]
        if len(pv) == 1:
            i = pv.pop()
            if byname:
                ctx.ob(key_of(f, "getter"), i == byname[0], "the getter returns another setting", f.span)
            out[n] = byname[0] if byname else i
        elif byname:
            out[n] = byname[0]
    return out


def locate(ctx, path, v):
    """Path inside a builder value to the settings."""
    if path == v:
        return ()
    for i, f in enumerate(ctx.adt(v)["variants"][0]["fields"]):
        if f[1].split("::")[-1] == path.split("::")[-1]:
            return ((None, i),)
    return None


def mk(ctx, ip, st, path, gs, tag):
    fl = {}
    for i, x in enumerate(ctx.adt(path)["variants"][0]["fields"]):
        s = ip.sym((tag, i), None, ((tag, i),), True)
        fl[i] = I(Lin.sym(s)) if x[1] in ("u64", "usize", "u16", "u32", "u8") else O(s)
    for n in NONZERO:
        if n in gs and isinstance(fl[gs[n]], I):
            st.num.add_ge(fl[gs[n]].lin - 1)
    return A(path, None, fl, ip.sym((tag,)))


def field(ip, st, v, i):
    v = ip.nv(st, v)
    return ip.nv(st, v.fields[i]) if isinstance(v, A) and i in v.fields else None


def invariants(ctx, f, ip, st, v, gs, rel):
    for n in NONZERO:
        if n in gs:
            x = field(ip, st, v, gs[n])
            ctx.ob(key_of(f, n, "non-zero"), isinstance(x, I) and st.num.entails_ge(x.lin - 1), "%s may be zero" % n, f.span)
            ctx.count("non-zero settings")
    if not rel:
        return
    for a, b in ORDERED:
        if a not in gs or b not in gs:
            continue
        x, y = field(ip, st, v, gs[a]), field(ip, st, v, gs[b])
        ctx.count("ordered settings")
        if isinstance(x, I) and isinstance(y, I):
            okv = st.num.entails_ge(y.lin - x.lin)
        else:
            okv = False
            dx, dy = variant(ip, st, x), variant(ip, st, y)
            if dx == 0 or dy == 0:
                okv = True
            elif dx == 1 and dy == 1:
                d = Durations()
                g = lambda z: ip.get_elem(st, z, (1, 0), None)
                okv = st.num.entails_ge(d.dur(ip, st, g(y)) - d.dur(ip, st, g(x)))
        ctx.ob(key_of(f, "%s <= %s" % (a, b)), okv, "%s may exceed %s" % (a, b), f.span)


def variant(ip, st, x):
    x = ip.nv(st, x) if x is not None else None
    if isinstance(x, A):
        return x.variant
    if isinstance(x, O):
        c = st.num.const(ip.discr(st, x).lin)
        return None if c is None else int(c)
    return None


def c12(ctx):
    for crate, tp, bp in CASES:
        gs = getters(ctx, crate, tp)
        ctx.count("settings", len(gs))
        fs = ctx.adt(tp)["variants"][0]["fields"]
        for x in fs + ctx.adt(bp)["variants"][0]["fields"]:
            ctx.ob("%s / %s private" % (tp, x[0]), not x[2], "a setting can be changed directly: %s" % x[0])
            ctx.ob("%s / %s fixed" % (tp, x[0]), not any(m in x[1] for m in MUTABLE), "a setting can be changed through a shared reference: %s" % x[0])
        sub = locate(ctx, tp, bp)
        for f in ctx.local_fns((crate,)):
            if "::{closure" in f.name or not (f.pub or f.impl_trait):
                continue
            ts = [f.locals[i] for i in range(1, f.argc + 1)]
            if any(t.k == "ref" and t.mut and t.to is not None and t.to.adt == tp for t in ts) and f.impl_trait not in ("core::clone::Clone",):
                ctx.ob(key_of(f, "altered"), False, "a finished tunables value can be altered", f.span)
            ret = f.locals[0]
            if f.impl_trait == "core::clone::Clone" and ret.adt in (tp, bp):
                continue
            isb = f.argc and ts[0].k == "ref" and ts[0].to is not None and ts[0].to.adt == bp
            own = f.argc and ts[0].adt == bp
            if ret.adt in (tp, bp) and not (isb or own) or isb or own:
                method(ctx, f, crate, tp, bp, gs, sub, ts, isb, own)
    ctx.floor("settings", 10)
    ctx.floor("setters", 12)
    ctx.floor("finished values", 2)


def method(ctx, f, crate, tp, bp, gs, sub, ts, isb, own):
    n = f.name.split("::")[-1]
    if sub is None:
        raise CheckError("the settings of %s were not found in %s" % (tp, bp))
    ip = ctx.ip([Durations()])
    pre = {}

    def setup(ip, st, args):
        if isb or own:
            v = mk(ctx, ip, st, tp, gs, "before")
            pre["v"] = v
            b = v
            for p in reversed(sub):
                b = A(bp, None, {p[1]: v}, ip.sym(("builder",)))
            if isb:
                st.mem[args[0].root] = b
            else:
                args[0] = b
    ex, args = ctx.entry(ip, f, setup)
    ctx.fns.add(f.name)
    changed = {}
    for e in ex:
        st = e.state
        ret = ip.nv(st, e.ret)
        out = None
        if f.locals[0].adt == tp:
            ctx.count("finished values")
            invariants(ctx, f, ip, st, ret, gs, True)
            out = ret
            if isb or own:
                for g, i in gs.items():
                    x, y = field(ip, st, ret, i), ip.nv(st, pre["v"].fields[i])
                    ctx.ob(key_of(f, g, "carried"), same(ip, st, x, y), "%s of the finished value is not the one set" % g, f.span)
            continue
        if f.locals[0].adt == bp:
            b = ret
        elif isb:
            b = ip.nv(st, ip.read(st, args[0].root, (), None))
        else:
            continue
        v = b
        for p in sub:
            v = field(ip, st, v, p[1])
        if v is None:
            ctx.ob(key_of(f, "settings"), False, "the settings of the builder are not determined", f.span)
            continue
        invariants(ctx, f, ip, st, v, gs, False)
        if not (isb or own):
            continue
        if n.startswith(("set_", "unset_")):
            ctx.count("setters")
            what = n[4:] if n.startswith("set_") else n[6:]
            for g, i in gs.items():
                x, y = field(ip, st, v, i), ip.nv(st, pre["v"].fields[i])
                if i != gs.get(what):
                    ctx.ob(key_of(f, "only", g), same(ip, st, x, y), "%s also changes %s" % (n, g), f.span)
            if what not in gs:
                continue
            x = field(ip, st, v, gs[what])
            if n.startswith("unset_"):
                ctx.ob(key_of(f, "effect"), variant(ip, st, x) == 0, "%s does not clear the setting" % n, f.span)
                continue
            a = args[1] if len(args) > 1 else None
            if isinstance(x, I):
                okv = isinstance(a, I) and st.num.eq(a.lin, x.lin)
            elif variant(ip, st, x) == 1:
                okv = same(ip, st, ip.get_elem(st, x, (1, 0), None), a)
            else:
                pv = M.prov(ip, st, x) if x is not None else set()
                okv = same(ip, st, x, a) or ("arg", 1) in pv and not any(isinstance(z, tuple) and z[0] == "before" for z in pv)
            if isinstance(x, R) and x.root[0] == "L" and x.root[2] == 2:
                okv = True
            ctx.ob(key_of(f, "effect"), okv, "%s does not take over its argument" % n, f.span)


def same(ip, st, x, y):
    if x is None or y is None:
        return False
    x, y = ip.nv(st, x), ip.nv(st, y)
    if x == y:
        return True
    if isinstance(x, I) and isinstance(y, I):
        return st.num.eq(x.lin, y.lin)
    if isinstance(x, A) and x.base is not None and isinstance(y, O) and x.base == y.id:
        return True
    if isinstance(x, A) and isinstance(y, O) and x.fields and all(isinstance(i, int) for i in x.fields):
        ty = ip.p.adt(x.adt) if isinstance(x.adt, str) else None
        return ty is not None and len(x.fields) == len(ty["variants"][0]["fields"]) and \
            all(same(ip, st, z, ip.get_elem(st, y, (x.variant, i), None)) or same_sym(ip, z, y, i) for i, z in x.fields.items())
    return False


def same_sym(ip, z, y, i):
    """z is field i of the symbol y."""
    ids = list(z.sym_ids())
    return len(ids) == 1 and ip.st.info[ids[0]].name[0] == "fld" and int(ip.st.info[ids[0]].name[1]) == y.id and ip.st.info[ids[0]].name[3] == i
