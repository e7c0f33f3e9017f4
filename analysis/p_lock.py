"""Writer exclusivity: C24."""
from common import *
from graph import *
from models_std import some, NONE
from models import ok, err
from p_body import key_of

FILE = "std::fs::File"
LOCKS = ("std::sync::poison::mutex::Mutex", "std::sync::mutex::Mutex", "std::sync::poison::rwlock::RwLock", "std::sync::rwlock::RwLock")
GUARDS = ("std::sync::poison::mutex::MutexGuard", "std::sync::mutex::MutexGuard", "std::sync::poison::rwlock::RwLockWriteGuard",
          "std::sync::rwlock::RwLockWriteGuard")


def has_file(t):
    return mentions(t, lambda x: x.adt == FILE, ("olio::fs::read::ReadPos", "olio::fs::read::ReadSlice"))


def is_guard(t):
    return t is not None and t.adt in GUARDS and has_file(t)


class Lock(IP.Rule):
    """One lock; ghost "held"; the guarded cell is one place."""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def cell(self, ip):
        return ("H", Id(ip.sym(("cell",), None)))

    def guard(self, ip, t):
        return A(t.adt if t is not None and t.adt else GUARDS[0], None, {"cell": R(self.cell(ip), (), True)}, ip.sym(("guard",)))

    def on_call(self, ip, cs, st):
        n = cs.rname or ""
        m = n.split("::")[-1]
        t = cs.atys[0].strip() if cs.atys and cs.atys[0] is not None else None
        if n.rsplit("::", 1)[0] in LOCKS and has_file(t):
            if m in ("lock", "write"):
                self.ctx.count("locks")
                self.ctx.ob(key_of(self.f, "one lock"), st.g("held") is False, "the lock is requested while already held", cs.where())
                st.setg("held", True)
                gt = cs.dty.args[0] if cs.dty.args else None
                s2 = st.copy()
                pe = A("std::sync::poison::PoisonError", None, {0: self.guard(ip, gt)}, ip.sym(("poison",)))
                return [(st, ok(self.guard(ip, gt))), (s2, err(pe))]
            if m in ("try_lock", "try_write"):
                s2 = st.copy()
                st.setg("held", True)
                gt = cs.dty.args[0] if cs.dty.args else None
                return [(st, ok(self.guard(ip, gt))), (s2, err(ip.make(ip.fresh(s2, cs.frame, cs.block, "busy", None), None)))]
        if n.endswith("PoisonError::into_inner") and isinstance(cs.args[0], A) and 0 in cs.args[0].fields:
            return [(st, cs.args[0].fields[0])]
        if m in ("deref", "deref_mut") and t is not None and is_guard(t):
            v = M.rd(ip, st, cs.args[0])
            if isinstance(v, A) and "cell" in v.fields:
                self.ctx.ob(key_of(self.f, "guarded access"), st.g("held") is True, "the guarded file is used after the lock was released", cs.where())
                return [(st, v.fields["cell"])]
        if cs.rname in ("core::mem::drop",) and is_guard(t):
            st.setg("held", False)
        return None

    def on_drop(self, ip, fn, frame, b, st, t):
        r = ("L", frame, t["p"][0])
        if len(t["p"]) == 1 and r in st.mem and guards(ip, st, st.mem[r]):
            st.setg("held", False)

    def on_open(self, ip, cs, st, flags, path):
        if flags["write"] is not True and flags["append"] is not True:
            return
        self.ctx.count("writable opens")
        self.ctx.ob(key_of(self.f, "opened under the lock"), st.g("held") is True, "the archive is opened for writing without holding the lock", cs.where())
        c = ip.nv(st, ip.read(st, self.cell(ip), (), None))
        none = isinstance(c, A) and c.variant == 0
        if isinstance(c, O):
            none = st.num.const(ip.discr(st, c).lin) == 0
        self.ctx.ob(key_of(self.f, "opened at most once"), none, "the archive is opened for writing although it may already be open", cs.where())


def c24(ctx):
    g = Graph(ctx)
    wf, ww = ctx.fn("barc::BarcFile::writer"), ctx.fn("barc::BarcWriter::write")
    rule = Lock(ctx, wf)
    ip = ctx.ip([rule])

    def setup(ip, st, args):
        st.setg("held", False)
        t = option_file(ctx)
        st.mem[rule.cell(ip)] = ip.make(ip.sym(("cellv",), t), t)
    ex, args = ctx.entry(ip, wf, setup)
    n = 0
    for e in ex:
        st, ret = e.state, ip.nv(e.state, e.ret)
        if is_err(ret):
            continue
        n += 1
        gs = guards(ip, st, ret)
        ctx.ob(key_of(wf, "lock held by the writer"), st.g("held") is True and len(gs) > 0,
               "a writer is handed out that does not hold the lock", wf.span)
        c = ip.nv(st, ip.read(st, rule.cell(ip), (), None))
        d = 1 if isinstance(c, A) and c.variant == 1 else (st.num.const(ip.discr(st, c).lin) if isinstance(c, O) else None)
        ctx.ob(key_of(wf, "file kept under the lock"), d == 1, "a writer is handed out without its file being kept under the lock", wf.span)
    if n == 0:
        raise CheckError("no successful return of BarcFile::writer")
    ctx.counts["writers handed out"] = n
    ctx.ob(key_of(wf, "locks"), ctx.counts.get("locks", 0) + n * 0 > 0, "a writer is handed out without locking", wf.span)
    ctx.ob(key_of(wf, "opens"), ctx.counts.get("writable opens", 0) > 0, "no opening for writing was found in a writer request", wf.span)
    # the only writable opens are those of a writer request
    wset = g.reach([wf])
    for f in ctx.local_fns(("barc",)):
        ctx.fns.add(f.name)
        inside = (f.facts.name, f.key) in wset
        for c in calls(f):
            m = c.rname.split("::")[-1]
            if c.rname in ("std::fs::OpenOptions::write", "std::fs::OpenOptions::append", "std::fs::File::create", "std::fs::File::create_new", "std::fs::write"):
                ctx.ob("%s / %s" % (f.name, m), inside or false_arg(c), "the archive is opened for writing outside a writer request", c.where())
            t0 = c.atys[0] if c.atys else None
            if t0 is None:
                continue
            st_ = t0.strip()
            if m == "try_clone" and st_.adt == FILE:
                ctx.ob("%s / duplicate handle" % f.name, False, "a second handle of the archive leaves the lock", c.where())
            if st_.adt == "core::option::Option" and st_.args and has_file(st_) and t0.k == "ref" and t0.mut and \
                    m in ("take", "replace", "swap", "take_if"):
                ctx.ob("%s / %s" % (f.name, m), False, "the file handle is taken out from under the lock", c.where())
            if c.rname.rsplit("::", 1)[0] in LOCKS and has_file(st_) and m in ("into_inner", "get_mut", "get_cloned", "replace", "set", "data_ptr"):
                ctx.ob("%s / %s" % (f.name, m), False, "the file handle is reached without taking the lock", c.where())
            if m in ("forget", "leak") and is_guard(st_):
                ctx.ob("%s / %s" % (f.name, m), False, "the lock is never released", c.where())
    # structure: the writable handle lives in a lock, the writer in its guard
    bf, bw = ctx.adt("barc::BarcFile"), ctx.adt("barc::BarcWriter")
    for fl in bf["variants"][0]["fields"]:
        if "File" in fl[1]:
            ctx.ob("barc::BarcFile / handle inside the lock", ("Mutex<" in fl[1] or "RwLock<" in fl[1]) and not fl[2],
                   "the archive's handle is stored outside a lock, or publicly: %s" % fl[1])
            ctx.count("locked fields")
    ok_ = False
    for fl in bw["variants"][0]["fields"]:
        if "MutexGuard<" in fl[1] or "RwLockWriteGuard<" in fl[1]:
            ok_ = not fl[2]
        elif "fs::File" in fl[1]:
            ctx.ob("barc::BarcWriter / handle only under the lock", False, "a writer holds the archive's handle outside the lock's guard: %s" % fl[1])
    ctx.ob("barc::BarcWriter / guard", ok_, "a writer does not own the guard of the archive's lock")
    # a writer only writes through its guard
    for f, _ in g.reach([ww]).values():
        for c in calls(f):
            if c.rname in ("std::fs::OpenOptions::open", "std::fs::File::open", "std::fs::File::create"):
                ctx.ob("%s / %s" % (f.name, "opens"), False, "a writer opens a file of its own", c.where())
            if any(is_guard(t) for t in c.atys if t is not None) and c.rname.split("::")[-1] in ("drop", "replace", "take", "swap"):
                ctx.ob("%s / guard" % f.name, False, "a writer gives up the lock while alive", c.where())


def false_arg(c):
    k = c.term["a"][1].get("k") if len(c.term["a"]) > 1 else None
    return isinstance(k, dict) and (k.get("v") or {}).get("int") in (0, "0")


def guards(ip, st, v, d=0):
    v = ip.nv(st, v)
    out = []
    if isinstance(v, A) and d < 5:
        if v.adt in GUARDS:
            return [v]
        for x in v.fields.values():
            out += guards(ip, st, x, d + 1)
    return out


def option_file(ctx):
    for c in ctx.p.crates.values():
        for t in c.types:
            if t is not None and t.adt == "core::option::Option" and t.args and t.args[0].adt == FILE:
                return t
    return None
