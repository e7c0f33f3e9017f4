"""Shared machinery of the property checks."""
import re
import sys

import build
import facts as FACTS
import interp as IP
from num import Lin, Id, ZERO, ONE
from values import *
from models import M
import models_std
import models_http


UNKNOWN = re.compile(r"\?r\b|\?hv\b|\?r(ok|err|some)")


def tainted(fr):
    """Some value the failed obligation was computed from (a local of the rule
    that states it) comes from a call the analysis does not know."""
    for _ in range(2):
        if fr is None:
            break
        ip = fr.f_locals.get("ip")
        if ip is not None and hasattr(ip, "st"):
            for k, v in list(fr.f_locals.items()):
                for x in (v if isinstance(v, (tuple, list)) else (v,)):
                    try:
                        if isinstance(x, (Val, Lin)) and UNKNOWN.search(x.show(ip.st)):
                            return True
                    except IndexError:
                        # left over from another interpretation
                        pass
        if fr.f_code.co_name not in ("ob", "flag"):
            break
        fr = fr.f_back
    return False


class CheckError(Exception):
    """The check could not be carried out (missing anchor, analysis limit)."""


class Ctx:
    def __init__(self, prop, prog, tier="quick"):
        self.prop = prop
        self.p = prog
        self.tier = tier
        self.viol = {}
        self.oblig = {}
        self.fns = set()
        self.stats = {}
        self.havoc = {}
        self.notes = []
        self.counts = {}

    # --- results
    def ob(self, key, ok, msg="", site=""):
        """One proof obligation / rule instance.  One that fails on the answer
        of a call the analysis does not know is left open, with a note."""
        if not ok and (UNKNOWN.search(msg) or tainted(sys._getframe(1))):
            n = "undecided: %s: %s" % (key, msg[:200])
            if n not in self.notes:
                self.notes.append(n)
            return True
        o = self.oblig.setdefault(key, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
        else:
            v = self.viol.setdefault(key, [])
            t = (msg, site)
            if t not in v:
                v.append(t)
        return ok

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, k, n):
        if self.counts.get(k, 0) < n and not self.viol:
            raise CheckError("only %d %s found, expected at least %d" % (self.counts.get(k, 0), k, n))

    # --- anchors
    def fn(self, name, crate=None, inst=None):
        c = self.p.by_name(name, crate) if crate else self.p.by_name(name)
        c = [f for f in c if f.local]
        if inst is None:
            base = [f for f in c if not f.key.endswith(">") or "<" not in f.key.split("::")[-1]]
            c = base or c
        if not c:
            raise CheckError("no function %s" % name)
        return c[0]

    def adt(self, path):
        a = self.p.adts.get(path)
        if a is None:
            raise CheckError("no type %s" % path)
        return a

    def local_fns(self, crates=None):
        for cn, c in self.p.crates.items():
            if crates is not None and cn not in crates:
                continue
            for f in c.fns.values():
                if f.local and generic_identity(f):
                    yield f

    # --- analysis
    def ip(self, rules=(), **kw):
        ip = IP.Interp(self.p, M, rules, **kw)
        return ip

    def entry(self, ip, fn, setup=None):
        try:
            ex, args = ip.entry(fn, setup)
        except IP.AnalysisLimit as e:
            raise CheckError("analysis limit: %s" % e)
        self.absorb(ip)
        return ex, args

    def absorb(self, ip):
        for k, v in ip.stats.items():
            if isinstance(v, int):
                self.stats[k] = self.stats.get(k, 0) + v
                ip.stats[k] = 0
        self.fns |= set(ip.stats["functions"])
        for k, v in ip.stats["default_names"].items():
            self.havoc[k] = self.havoc.get(k, 0) + v
        ip.stats["default_names"].clear()


def default_build(ctx):
    """Lets the check see the program as built by default (with the HTTP
    client), where that can be compiled."""
    try:
        d, h = build.facts(http=True)
    except build.BuildError as e:
        ctx.notes.append("undecided: %s (HTTP features)" % e)
        return False
    ctx.p = FACTS.Program(d)
    return True


def generic_identity(f):
    return not f.key.split("::")[-1].endswith(">") and "@" not in f.key


def loc(span):
    return str(span)


def site(fn, blk=None, term=None):
    return "%s (%s)" % (fn.name, term.get("sp") if term else fn.span)


def is_ok(v):
    return isinstance(v, A) and v.adt.endswith("Result") and v.variant == 0


def is_err(v):
    return isinstance(v, A) and v.adt.endswith("Result") and v.variant == 1


# ------------------------------------------------------------ body roles
class Roles:
    """Field roles of a struct {state enum, length}, found by type."""

    def __init__(self, ctx, path, kinds):
        self.path = path
        a = ctx.adt(path)
        fs = a["variants"][0]["fields"]
        self.state = self.len = None
        for i, (n, ty, pub) in enumerate(fs):
            e = ctx.p.adts.get(ty)
            if ty == "u64" and self.len is None:
                self.len = i
            elif e is not None and e["k"] == "enum" and self.state is None:
                self.state = i
                self.enum = ty
        if self.state is None or self.len is None:
            raise CheckError("storage fields of %s not found" % path)
        self.kinds = {}
        for vi, v in enumerate(ctx.adt(self.enum)["variants"]):
            if len(v["fields"]) != 1:
                raise CheckError("unexpected storage variant %s" % v["name"])
            t = v["fields"][0][1]
            k = None
            for kk, pat in kinds:
                if pat in t:
                    k = kk
                    break
            if k is None:
                raise CheckError("unexpected storage type %s" % t)
            self.kinds[vi] = k

    def variant(self, kind):
        return [v for v, k in self.kinds.items() if k == kind]


SINK_KINDS = [("ram", "Vec<"), ("file", "fs::File")]
IMAGE_KINDS = [("ram", "Vec<"), ("slice", "ReadSlice<"), ("map", "MemHandle<"), ("file", "Arc<std::fs::File>")]


def sink_roles(ctx):
    return Roles(ctx, "body_image::BodySink", SINK_KINDS)


def image_roles(ctx):
    return Roles(ctx, "body_image::BodyImage", IMAGE_KINDS)


def mk_body(ctx, ip, st, roles, sid, variant, assume=True):
    """A body value in the given storage variant satisfying the invariant."""
    ln = Lin.sym(ip.sym(("len0", Id(sid)), None, (), True))
    store = ip.sym(("store", Id(sid), variant), storage_ty(ctx, roles, variant))
    v = A(roles.path, None, {roles.state: A(roles.enum, variant, {0: ip.make(store, storage_ty(ctx, roles, variant))}),
                             roles.len: I(ln)})
    k = roles.kinds[variant]
    sv = O(store)
    if k == "ram":
        st.num.add_eq(M.lin(ip, st, sv, "bytes") - ln)
        # stored buffers are not empty
        st.num.add_ge(ln - M.lin(ip, st, sv, "len"))
    elif roles.path.endswith("BodySink"):
        st.num.add_eq(M.lin(ip, st, sv, "pos") - ln)
        st.num.add_eq(M.lin(ip, st, sv, "end") - ln)
        st.num.add_eq(M.lin(ip, st, sv, "len") - ln)
        # the physical file may be longer after a failed append
        v = v.with_(roles.state, v.fields[roles.state].with_(0, M.setattrs(ip, st, sv, extra=K("leftover"))))
    else:
        st.num.add_ge(ln - 1)
        if k == "slice":
            st.num.add_eq(M.lin(ip, st, sv, "stop") - M.lin(ip, st, sv, "start") - ln)
            # a slice held by an image has not been read from
            st.num.add_eq(M.lin(ip, st, sv, "pos") - M.lin(ip, st, sv, "start"))
        elif k == "map":
            mm = ip.get_elem(st, sv, (None, "inner"), None)
            st.num.add_eq(M.lin(ip, st, mm, "len") - ln)
    return v


def storage_ty(ctx, roles, variant):
    s = ctx.adt(roles.enum)["variants"][variant]["fields"][0][1]
    for c in ctx.p.crates.values():
        for t in c.types:
            if t is not None and t.s == s:
                return t
    return None


def body_parts(ip, st, roles, v):
    """(kind, storage value, length lin) of a body value, or None if unknown."""
    v = M.rd(ip, st, v)
    v = ip.nv(st, v)
    if not isinstance(v, A) or roles.state not in v.fields:
        return None
    s = ip.nv(st, v.fields[roles.state])
    ln = v.fields.get(roles.len)
    if not isinstance(s, A) or s.variant is None or not isinstance(ln, I):
        return None
    return roles.kinds[s.variant], s.fields.get(0), ln.lin


def body_content(ip, st, roles, v):
    """Content term of a body value."""
    p = body_parts(ip, st, roles, v)
    if p is None:
        return None
    k, sv, ln = p
    if k == "ram":
        return M.cnorm(ip, st, M.attr(ip, st, sv, "flat"))
    if roles.path.endswith("BodySink"):
        return M.cnorm(ip, st, M.content(ip, st, sv))
    if k == "file":
        return T("ck", models_std.inner_file(ip, st, sv), I(ZERO), I(st.num.norm(ln)))
    if k == "slice":
        a, b = M.lin(ip, st, sv, "start"), M.lin(ip, st, sv, "stop")
        return T("ck", M.attr(ip, st, sv, "content"), I(st.num.norm(a)), I(st.num.norm(b - a)))
    mm = ip.get_elem(st, sv, (None, "inner"), None)
    return M.content(ip, st, mm)


def body_size(ip, st, roles, v):
    p = body_parts(ip, st, roles, v)
    if p is None:
        return None
    k, sv, ln = p
    if k == "ram":
        M.cnorm(ip, st, M.attr(ip, st, sv, "flat"))
        return M.clen(ip, st, M.attr(ip, st, sv, "flat"))
    if roles.path.endswith("BodySink"):
        return M.lin(ip, st, sv, "end") if False else M.clen(ip, st, M.cnorm(ip, st, M.content(ip, st, sv)))
    if k == "file":
        return ln
    if k == "slice":
        return M.lin(ip, st, sv, "stop") - M.lin(ip, st, sv, "start")
    mm = ip.get_elem(st, sv, (None, "inner"), None)
    return M.length(ip, st, mm)


# ------------------------------------------------------------- no panics
class NoPanic(IP.Rule):
    """Every assertion, bounds check, explicit panic and allocation reached is
    discharged by the facts on the path."""

    def __init__(self, ctx, prefix, alloc=None, skip=()):
        self.ctx = ctx
        self.prefix = prefix
        self.alloc = alloc
        self.skip = skip

    def flag(self, what, fn, okv, msg, where):
        if any(s(fn) for s in self.skip):
            return
        self.ctx.count("panic sites")
        self.ctx.ob("%s / %s in %s" % (self.prefix, what, pub_owner(fn)), okv, msg, where)

    def on_assert(self, ip, fn, frame, b, st, t, c):
        m = t.get("m", "")
        w = "%s:%s" % (fn.name, t.get("sp", ""))
        if not isinstance(c, B):
            d = ip.decide(st, c)
        else:
            d = ip.decide(st, c)
            if d is None and c.k[0] == "eq" and "overflow" in m:
                d = self.overflow(ip, st, c, bool(t["e"]))
        okv = d is not None and bool(d) == bool(t["e"])
        self.flag(m.replace("overflow-", "overflow of ").lower() or "assertion", fn, okv, "%s is not excluded%s" % (m or "a failed check", shown(ip, c)), w)

    def overflow(self, ip, st, c, want):
        x = c.k[1]
        if len(x.t) == 1 and x.c == -1:
            nm = ip.st.info[x.t[0][0]].name
            if nm[0] == "ovf" and nm[1] == "Add" and nm[4]:
                if st.num.entails_ge(Lin((1 << nm[4]) - 1) - nm[2] - nm[3]):
                    return False
            if nm[0] == "ovf" and nm[1] == "Mul" and nm[4]:
                for a, b in ((nm[2], nm[3]), (nm[3], nm[2])):
                    k = st.num.const(a)
                    if k is not None and st.num.entails_ge(Lin((1 << nm[4]) - 1) - b.scale(k)):
                        return False
        return None

    def on_index(self, ip, cs, st, lo, hi, total):
        good = st.num.entails_ge(hi - lo) and st.num.entails_ge(total - hi) and st.num.entails_ge(lo)
        self.flag("range", cs.fn, good, "range %s..%s of %s bytes may be out of bounds" % (
            st.num.norm(lo).show(ip.st), st.num.norm(hi).show(ip.st), st.num.norm(total).show(ip.st)), cs.where())

    def on_subslice(self, ip, cs, st, a, b, v):
        self.flag("slice of a file", cs.fn, st.num.entails_ge(b - a), "the slice's end may be before its start", cs.where())

    def on_advance(self, ip, cs, st, n, valid):
        pass

    def on_panic_cond(self, ip, cs, st, c, what):
        self.flag(what, cs.fn, ip.decide(st, c) is True, "%s is not excluded%s" % (what, shown(ip, c)), cs.where())

    def on_panic(self, ip, cs, st):
        self.flag("panic", cs.fn, False, "a panic can be reached", cs.where())

    def on_call(self, ip, cs, st):
        if self.alloc and cs.rname.endswith(("::with_capacity", "::reserve", "::reserve_exact")) and cs.args:
            a = cs.args[-1]
            if isinstance(a, I) and not cs.rname.startswith(("alloc::string", "http::")):
                self.flag("allocation", cs.fn, self.alloc(ip, st, a.lin), "up to %s bytes may be allocated" % st.num.norm(a.lin).show(ip.st), cs.where())
        return None


def shown(ip, *vs):
    """Values of a failed condition, for messages."""
    out = []
    for v in vs:
        if hasattr(v, "show"):
            out.append(v.show(ip.st)[:300])
    return " [%s]" % ", ".join(out) if out else ""


def pub_owner(fn):
    """Name used in keys: the function, without private helper names."""
    return fn.name.split("::{closure")[0]
