"""C10: the readable length of a buffer only covers bytes that were read."""
import graph
from common import *
from interp import Rule
from p_err import LIBS, callers_of, exported, READS

EXTEND = ("bytes::buf::buf_mut::BufMut::advance_mut", "bytes::bytes_mut::BytesMut::set_len", "alloc::vec::Vec::set_len",
          "alloc::string::String::as_mut_vec")
USES = ("write_all", "write", "extend_from_slice", "put_slice", "copy_from_slice", "put", "push", "from", "to_vec", "append_all", "to_owned", "into")


class Init(Rule):
    def __init__(self):
        self.got = {}

    def put(self, fn, what, ok, msg, where):
        k = "%s / %s" % (fn.name, what)
        o = self.got.setdefault(k, [True, msg, where])
        if not ok and o[0]:
            self.got[k] = [False, msg, where]

    def on_advance(self, ip, cs, st, n, valid):
        ok = st.num.entails_ge(valid - n)
        self.put(cs.fn, "extend", ok, "the length grows by %s, of which only %s bytes were read" % (
            st.num.norm(n).show(ip.st), st.num.norm(valid).show(ip.st)), cs.where())

    def on_call(self, ip, cs, st):
        last = (cs.name or "").split("::")[-1]
        if last == "set_len" and len(cs.args) == 2 and isinstance(cs.args[1], I):
            v = M.rd(ip, st, cs.args[0])
            n = M.length(ip, st, v)
            val = M.lin(ip, st, v, "valid") if isinstance(v, A) and "valid" in v.fields else ZERO
            self.put(cs.fn, "extend", n is not None and st.num.entails_ge(n + val - cs.args[1].lin),
                     "the length is set beyond the bytes that were read", cs.where())
        # the spare part of a buffer handed to something that reads it
        if last in USES and cs.atys:
            for a, t in zip(cs.args, cs.atys):
                if t.is_ref() and not t.mut and t.to is not None and t.to.k == "slice" and isinstance(a, S):
                    b = a.base
                    if isinstance(b, tuple) and b[0] == "P" and b[2] and b[2][-1] == (None, "spare"):
                        v = ip.read(st, b[1], b[2][:-1], None)
                        val = M.lin(ip, st, v, "valid")
                        self.put(cs.fn, "use", st.num.entails_ge(val - a.lo - a.ln), "bytes that were never read are used", cs.where())
        return None


def c10(ctx):
    fns = [f for f in ctx.local_fns(LIBS)]
    callers = callers_of(ctx, fns)

    def judge(f, depth):
        r = Init()
        ip = ctx.ip([r], max_disj=200, max_parts=4000)
        ctx.entry(ip, f)
        bad = {k: v for k, v in r.got.items() if not v[0]}
        if bad and not exported(f) and depth < 3:
            up = [g for k, g in sorted(callers.get(f.key, {}).items()) if k != f.key]
            if up:
                got = {}
                for g in up:
                    for k, v in judge(g, depth + 1).items():
                        if k not in got or not v[0]:
                            got[k] = v
                return got
        return r.got

    for f in fns:
        if not any(c.name in EXTEND or (c.name or "").endswith("::chunk_mut") for c in graph.calls(f)):
            continue
        for k, (ok, msg, where) in judge(f, 0).items():
            ctx.count("extensions")
            ctx.ob(k, ok, msg, where)
        for c in graph.calls(f):
            if c.name in EXTEND:
                ctx.count("sites")
    ctx.floor("sites", 1)
