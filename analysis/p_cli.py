"""The command line tool: C34 and C35 (barc-cli)."""
from common import *
from interp import Rule, reached

OPT, RES = "core::option::Option", "core::result::Result"
NONE = A(OPT, 0, {})
PARTS = ("meta", "req-head", "req-body", "res-head", "res-body")
GETS = {"meta": "meta", "req_headers": "req-head", "req_body": "req-body", "res_headers": "res-head", "res_body": "res-body"}
NUMS = ("index", "offset", "count")
MATCHES = "clap::args::arg_matches::ArgMatches::"
SAME = ("as_ref", "as_str", "to_string", "to_owned", "clone", "into", "from", "new", "deref", "as_path", "to_path_buf", "trim", "borrow", "as_os_str")
MAXC = 2**64 - 1
TRACKED = ("values", "reader", "writer", "record", "barcfile", "matches")


def some(v):
    return A(OPT, 1, {0: v})


class Cli(Rule):
    """Answers of the argument parser, archives, standard output and log.

    Ghosts: cmd, "--x" for each flag asked about, failed, said, logger,
    fi/nf (files taken/given), fstate (None, taken, open), eof, seeked,
    nread/nsel (records read/selected), cur (next offset), recoff (offset of
    the record read last), sel (what was put out of that record)."""

    decided = tuple("--" + x for x in PARTS + NUMS) + ("--gzip", "--brotli", "fstate", "eof", "seeked", "sel", "through", "texteq", "canoneq", "canonfail", "meta", "hex", "unflushed")

    def __init__(self, ctx, main):
        self.ctx = ctx
        self.main = main
        self.longs = {}
        self.defined = set()

    # ------------------------------------------------------------- helpers
    def trace(self, ip, st, v):
        place = None
        while isinstance(v, R):
            place = v
            v = ip.read(st, v.root, v.path, None)
        return place, v

    def val(self, ip, st, v, adt):
        v = self.trace(ip, st, v)[1]
        return v if isinstance(v, A) and v.adt == adt else None

    def text(self, ip, st, v):
        v = self.trace(ip, st, v)[1]
        if isinstance(v, S) and isinstance(v.base, C):
            lo, ln = st.num.const(v.lo), st.num.const(v.ln)
            return v.base.b[lo:lo + ln].decode() if lo is not None and ln is not None else None
        return v.b.decode("utf8", "replace") if isinstance(v, C) else None

    def heap(self, ip, st, tag, v):
        root = ("H", Id(ip.sym(("cli",) + tag)))
        st.mem[root] = v
        return R(root, (), False)

    def either(self, ip, cs, st, ok, err=None, fail=True):
        if st.g("failed"):
            # one failure per run, the rest goes well and ends soon
            return [(st, A(RES, 0, {0: ok}))]
        se = st.copy()
        e = ip.fresh(se, cs.frame, cs.block, "failure", cs.dty.args[1] if cs.dty.args and len(cs.dty.args) > 1 else None)
        if fail:
            # nothing but the way the tool ends matters from here
            if not se.g("failed"):
                se.setg("failed", K((cs.rname or "").split("::")[-1]))
            for g in self.decided:
                se.setg(g, K(None))
        if err:
            err(se)
        return [(st, A(RES, 0, {0: ok})), (se, A(RES, 1, {0: O(e)}))]

    def put(self, st, g, v):
        if not st.g("failed"):
            st.setg(g, v)

    def fork(self, ip, st, g):
        """A condition decided once and for all."""
        if st.g("failed"):
            return [(st, TRUE), (st.copy(), FALSE)]
        have = st.g(g)
        if have is not None:
            return [(st, TRUE if have else FALSE)]
        s2 = st.copy()
        st.setg(g, K(True))
        s2.setg(g, K(False))
        return [(st, TRUE), (s2, FALSE)]

    def lin(self, st, g):
        v = st.g(g)
        return v.lin if isinstance(v, I) else v if isinstance(v, Lin) else Lin(v)

    def num(self, ip, name):
        ty = self.tys["u64" if name == "offset" else "usize"]
        return Lin.sym(ip.sym(("num", name), ty, nonneg=True))

    def first(self, ip, st):
        return Lin(0) if st.g("--index") is False else self.num(ip, "index")

    def limit(self, ip, st):
        return Lin(MAXC) if st.g("--count") is False else self.num(ip, "count")

    def ob(self, ip, st, prop, what, ok, text, where):
        if prop != self.ctx.prop or st.g("failed") and (prop == "C34" or what == "same file"):
            return
        if st.g("lost"):
            n = "undecided: %s / %s (%s)" % (st.g("cmd"), what, st.g("lost"))
            if n not in self.ctx.notes:
                self.ctx.notes.append(n)
            return
        self.ctx.ob("%s / %s" % (st.g("cmd"), what), ok, text, where)

    # ------------------------------------------------------------- records
    def select(self, ip, st, rec, where):
        n = rec.fields["n"].lin
        self.ctx.count("selections")
        nread, nsel = self.lin(st, "nread"), self.lin(st, "nsel")
        self.ob(ip, st, "C34", "order", st.num.eq(n, nread), "a record put out is not the one read last", where)
        self.ob(ip, st, "C34", "start", st.num.entails_ge(n - 1 - self.first(ip, st)), "a record before the first one selected is put out", where)
        if st.g("--count") is not False:
            self.ob(ip, st, "C34", "count", st.num.entails_ge(self.limit(ip, st) - nsel - 1), "more records than asked for are put out", where)
        self.put(st, "nsel", I(nsel + 1))

    def expected(self, st):
        outs = [()]
        for p in PARTS:
            g = st.g("--" + p)
            outs = [o + ((p,) if b else ()) for o in outs for b in ((g,) if g is not None else (True, False))]
        return {o or PARTS for o in outs}

    def settle(self, ip, st, where):
        """The record read last has been dealt with."""
        sel = st.g("sel")
        if sel is None or st.g("failed"):
            return
        if sel == "new":
            nread, nsel = self.lin(st, "nread"), self.lin(st, "nsel")
            ok = st.num.entails_ge(self.first(ip, st) - nread) or st.num.entails_ge(nsel - self.limit(ip, st))
            self.ob(ip, st, "C34", "skipped", ok, "a selected record is passed over", where)
        elif st.g("cmd") == "cat":
            exp = self.expected(st)
            got = () if sel == "head" else sel
            self.ob(ip, st, "C34", "parts", exp == {got}, "parts put out: %s; asked for: %s" % (" ".join(got) or "none", " ".join(min(exp)) or "none"), where)
        self.put(st, "sel", K(None))

    def close(self, ip, st, where):
        """The file taken last has been dealt with."""
        fs = st.g("fstate")
        if fs is None or st.g("failed"):
            return
        self.ctx.count("files")
        if fs == "taken":
            self.ob(ip, st, "C34", "files", False, "an input file is passed over", where)
            return
        self.settle(ip, st, where)
        ok = st.g("eof") or st.num.entails_ge(self.lin(st, "nsel") - self.limit(ip, st))
        self.ob(ip, st, "C34", "until end", ok, "an input file is left before its end with fewer records than asked for", where)
        self.put(st, "fstate", K(None))

    def take(self, ip, cs, st, none=True):
        """Next input file."""
        if st.g("failed"):
            # there may be more files, which go well
            s = st.copy()
            v = A("argstr", None, {"flag": K("file"), "cut": K(0), "ix": I(self.lin(st, "fi"))})
            return [(st, None), (s, self.heap(ip, s, ("file",), v))]
        self.close(ip, st, cs.where())
        outs = []
        fi = self.lin(st, "fi")
        if none:
            se = st.copy()
            if ip.assume(se, B("eq", fi - self.nf)):
                se.setg("through", K(True))
                outs.append((se, None))
        if ip.assume(st, B("ge", self.nf - fi - 1)):
            self.put(st, "fi", I(fi + 1))
            self.put(st, "fstate", K("taken"))
            for g in ("texteq", "canoneq", "canonfail", "meta"):
                self.put(st, g, K(None))
            outs.append((st, self.heap(ip, st, ("file",), A("argstr", None, {"flag": K("file"), "cut": K(0), "ix": I(fi)}))))
        return outs

    def done(self, ip, st, where):
        """The tool ends with success."""
        self.ctx.count("ends")
        self.ob(ip, st, "C35", "failure", not st.g("failed"), "the tool ends with success after an error (%s)" % st.g("failed"), where)
        if st.g("failed"):
            return
        self.ob(ip, st, "C35", "buffered", not st.g("unflushed"), "output is left to a buffer, whose errors on being dropped are ignored", where)
        if st.g("cmd") in ("cat", "cp"):
            self.close(ip, st, where)
            ok = st.g("through") or st.num.entails_ge(self.lin(st, "fi") - self.nf)
            self.ob(ip, st, "C34", "files", ok, "the tool ends with success before the last input file", where)
            self.ob(ip, st, "C35", "nothing done", ok, "the tool ends with success without having processed its input", where)

    # --------------------------------------------------------------- calls
    def on_call(self, ip, cs, st):
        o = self.known(ip, cs, st)
        if o is None and "fmt" not in (cs.rname or "") and not self.own(ip, cs):
            for a in cs.args:
                v = self.trace(ip, st, a)[1]
                if isinstance(v, A) and v.adt in TRACKED and not (cs.rname or "").endswith(("mem::drop", "::unwrap")):
                    st.setg("lost", K(cs.rname))
        return o

    def on_default(self, ip, cs, st):
        # what is run by something unknown is not followed
        if "fmt" not in (cs.rname or "") and not (cs.rname or "").endswith(("mem::drop", "::unwrap")):
            for a in cs.args:
                for v in reached(ip, st, a):
                    if v.adt in TRACKED or isinstance(v.adt, tuple) and v.adt[0] == "closure":
                        n = "undecided: %s after %s" % (st.g("cmd"), cs.rname)
                        if n not in self.ctx.notes:
                            self.ctx.notes.append(n)
                        return False

    def own(self, ip, cs):
        g = ip.p.lookup(cs.key, cs.fn.facts) if cs.key else None
        return g is not None

    def known(self, ip, cs, st):
        n, r = cs.name or "", cs.rname or ""
        m = n.split("::")[-1]
        where = cs.where()
        a = cs.args
        if "log::LevelFilter" in r:
            return [(st, TRUE)]
        if r == "log::max_level":
            return None
        if r.startswith("log::__private_api"):
            lv = [self.trace(ip, st, x)[1] for x in a]
            lv = [x for x in lv if isinstance(x, A) and x.adt == "log::Level"]
            # shown by default up to Info
            if st.g("logger") and (not lv or lv[0].variant is None or lv[0].variant <= 2):
                st.setg("said", K(True))
            return [(st, UNIT)]
        if r == "std::io::stdio::_eprint":
            st.setg("said", K(True))
            return [(st, UNIT)]
        if r == "std::io::stdio::_print":
            self.printed(ip, st, a[0], where)
            return [(st, UNIT)]
        if r == "body_image::Tunables::new":
            return [(st, O(ip.sym(("tunables",), cs.dty)))]
        if r == "piccolog::setup_logger":
            st.setg("logger", K(True))
            return [(st, A(RES, 0, {0: UNIT}))]
        if r == "std::process::exit":
            code = st.num.const(a[0].lin) if isinstance(a[0], I) else None
            if st.g("failed"):
                self.ctx.count("exits")
                self.ob(ip, st, "C35", "status", code is not None and code % 256 != 0, "exit status after an error is %s" % code, where)
                self.ob(ip, st, "C35", "message", st.g("said"), "the tool ends without a message after an error (%s)" % st.g("failed"), where)
            elif code == 0:
                self.done(ip, st, where)
            return []
        if r.startswith("clap::"):
            return self.clap(ip, cs, st, r, m)
        if r in ("std::io::stdio::stdout", "std::io::stdio::stderr"):
            return [(st, A(r.split("::")[-1], None, {}))]
        if m == "lock" and a and (self.val(ip, st, a[0], "stdout") or self.val(ip, st, a[0], "stderr")):
            return [(st, self.trace(ip, st, a[0])[1])]
        if "io::buffered::" in r and m in ("new", "with_capacity") and "riter" in r:
            return [(st, A("bufout", None, {"to": self.trace(ip, st, a[-1])[1]}))]
        if m == "flush" and a:
            v = self.trace(ip, st, a[0])[1]
            if isinstance(v, A) and v.adt in ("bufout", "stdout"):
                o = self.either(ip, cs, st, UNIT)
                o[0][0].setg("unflushed", K(False))
                return o
        o = self.archive(ip, cs, st, r, m, where)
        if o is not None:
            return o
        o = self.strings(ip, cs, st, r, m)
        if o is not None:
            return o
        if a and self.val(ip, st, a[0], "values"):
            if m in ("into_iter", "by_ref"):
                return [(st, a[0])]
            if m == "len":
                return [(st, I(self.nf))]
            if m in ("take", "skip") and isinstance(a[1], I):
                v = self.val(ip, st, a[0], "values")
                if m == "skip":
                    self.ob(ip, st, "C34", "files", st.num.eq(a[1].lin, Lin(0)), "input files are passed over", where)
                    return [(st, v)]
                return [(st, A("values", None, {"upto": a[1]}))]
            if m == "next":
                upto = self.val(ip, st, a[0], "values").fields.get("upto")
                if upto is not None and not st.g("failed"):
                    outs, fi = [], self.lin(st, "fi")
                    s = st.copy()
                    if ip.assume(s, B("ge", fi - upto.lin)):
                        outs.append((s, NONE))
                    if ip.assume(st, B("ge", upto.lin - fi - 1)):
                        outs += [(s, some(x) if x is not None else NONE) for s, x in self.take(ip, cs, st)]
                    return outs
                return [(s, some(x) if x is not None else NONE) for s, x in self.take(ip, cs, st)]
            if m in ("for_each", "try_for_each"):
                return self.each(ip, cs, st, m)
        return None

    def each(self, ip, cs, st, m):
        """Internal iteration, over one or two files."""
        outs, work = [], [st]
        for k in (1, 2):
            nxt = []
            for s in work:
                for s1, x in self.take(ip, cs, s, k > 1):
                    if x is None:
                        outs.append((s1, UNIT if m == "for_each" else A(RES, 0, {0: UNIT})))
                        continue
                    for s2, o in ip.call_closure(cs, s1, cs.args[1], [x]):
                        o = ip.nv(s2, o)
                        if m == "for_each" or isinstance(o, A) and o.variant == 0:
                            nxt.append(s2)
                        elif isinstance(o, A) and o.variant == 1:
                            outs.append((s2, o))
                        else:
                            s2.setg("lost", K(m))
                            outs.append((s2, o))
            work = nxt
        for s in work:
            for s1, x in self.take(ip, cs, s):
                if x is None:
                    outs.append((s1, UNIT if m == "for_each" else A(RES, 0, {0: UNIT})))
        return outs

    def clap(self, ip, cs, st, r, m):
        a = cs.args
        if r == "clap::args::arg::Arg::with_name":
            n = self.text(ip, st, a[0])
            self.defined.add(n)
            return [(st, A("arg", None, {"name": K(n)}))]
        if r.startswith("clap::args::arg::Arg::"):
            v = self.val(ip, st, a[0], "arg")
            if v is not None:
                if m == "long":
                    self.longs[v.fields["name"].x] = self.text(ip, st, a[1])
                return [(st, v)]
            return None
        if r.startswith("clap::app::App::") and m.startswith("get_matches"):
            if cs.dty.adt == RES:
                return None
            return [(st, A("matches", None, {}))]
        if not r.startswith(MATCHES):
            return None
        name = self.text(ip, st, a[1]) if len(a) > 1 else None
        flag = self.longs.get(name, name)
        if m in ("subcommand_name", "subcommand"):
            outs = []
            for c in ("cat", "cp", "record", "other"):
                if st.g("cmd") not in (None, c):
                    continue
                s = st.copy()
                s.setg("cmd", K(c))
                v = C(c.encode())
                sub = some(self.heap(ip, s, ("matches",), A("matches", None, {})))
                outs.append((s, some(v) if m == "subcommand_name" else A("tuple", None, {0: v, 1: sub})))
            return outs
        if m == "subcommand_matches":
            outs = []
            for c in ("cat", "cp", "record", "other"):
                if st.g("cmd") not in (None, c):
                    continue
                s = st.copy()
                s.setg("cmd", K(c))
                outs.append((s, some(self.heap(ip, s, ("matches",), A("matches", None, {}))) if name == c else NONE))
            return outs
        if m == "occurrences_of":
            if flag in PARTS + NUMS:
                return None
            return [(st, I(Lin.sym(ip.fresh(st, cs.frame, cs.block, "occurrences", self.tys["u64"], nonneg=True))))]
        if name is None:
            return None
        if name not in self.defined:
            # never present
            return [(st, FALSE if m == "is_present" else NONE)]
        if m == "is_present":
            if flag == "offset" and st.g("--index") or flag == "index" and st.g("--offset"):
                st.setg("--" + flag, K(False))
            return self.fork(ip, st, "--" + flag)
        if m == "values_of":
            if name in self.longs:
                return None
            return [(st, some(A("values", None, {})))]
        if m == "value_of":
            if name not in self.longs:
                return [(st, some(self.heap(ip, st, ("arg", name), A("argstr", None, {"flag": K(name), "cut": K(0)}))))]
            if flag == "offset" and st.g("--index") or flag == "index" and st.g("--offset"):
                st.setg("--" + flag, K(False))
            outs = []
            for s, b in self.fork(ip, st, "--" + flag):
                outs.append((s, some(self.heap(ip, s, ("arg", flag), A("argstr", None, {"flag": K(flag), "cut": K(0)}))) if b == TRUE else NONE))
            return outs
        return None

    def strings(self, ip, cs, st, r, m):
        a = cs.args
        if not a:
            return None
        place, v = self.trace(ip, st, a[0])
        adt = v.adt if isinstance(v, A) else None
        if adt == "canon" and m in ("eq", "ne") and self.val(ip, st, a[1], "canon"):
            w = self.val(ip, st, a[1], "canon")
            if v.fields["flag"] == w.fields["flag"]:
                return [(st, TRUE if m == "eq" else FALSE)]
            return [(s, b if m == "eq" else FALSE if b == TRUE else TRUE) for s, b in self.fork(ip, st, "canoneq")]
        if adt != "argstr":
            return None
        flag, cut = v.fields["flag"].x, v.fields["cut"].x
        if m in ("eq", "ne") and len(a) > 1:
            w = self.val(ip, st, a[1], "argstr")
            if w is not None:
                return [(s, b if m == "eq" else FALSE if b == TRUE else TRUE) for s, b in self.fork(ip, st, "texteq")]
        if r == "std::fs::canonicalize" or m == "canonicalize":
            return self.either(ip, cs, st, A("canon", None, {"flag": v.fields["flag"]}), lambda s: s.setg("canonfail", K(True)), fail=False)
        if r in ("std::fs::metadata", "std::fs::File::open", "std::fs::symlink_metadata") or m == "metadata":
            st.setg("meta", K(True))
            return None
        if m in SAME:
            return [(st, place if place is not None else v)] if cs.dty.k == "ref" else [(st, v)]
        if m == "starts_with" and self.text(ip, st, a[1]) == "0x":
            return self.fork(ip, st, "hex")
        if m == "strip_prefix" and self.text(ip, st, a[1]) == "0x":
            outs = []
            for s, b in self.fork(ip, st, "hex"):
                outs.append((s, some(self.heap(ip, s, ("cut", flag), v.with_("cut", K(2)))) if b == TRUE else NONE))
            return outs
        if m in ("trim_start_matches", "trim_left_matches") and self.text(ip, st, a[1]) == "0x":
            return [(s, self.heap(ip, s, ("cut", flag, b), v.with_("cut", K(2 if b == TRUE else 0)))) for s, b in self.fork(ip, st, "hex")]
        if m == "index":
            x = self.trace(ip, st, a[1])[1]
            lo = x.fields.get(0) if isinstance(x, A) and "RangeFrom" in str(x.adt) else None
            k = st.num.const(lo.lin) if isinstance(lo, I) else None
            return [(st, self.heap(ip, st, ("cut", flag, k), v.with_("cut", K(None if k is None else cut + k))))]
        if m in ("parse", "from_str", "from_str_radix"):
            self.ctx.count("numbers")
            radix = st.num.const(a[1].lin) if m == "from_str_radix" else 10
            hexa = st.g("hex") and flag == "offset"
            good = cut == 2 and radix == 16 if hexa else cut == 0 and radix == 10
            if good:
                ok = I(self.num(ip, flag))
            elif hexa and cut == 0 and radix == 10:
                return self.either(ip, cs, st, UNIT)[1:]
            else:
                ok = I(Lin.sym(ip.fresh(st, cs.frame, cs.block, ("misread", flag), cs.dty.args[0], nonneg=True)))
            return self.either(ip, cs, st, ok)
        return None

    def archive(self, ip, cs, st, r, m, where):
        a = cs.args
        if r == "barc::BarcFile::new":
            return [(st, A("barcfile", None, {"path": self.trace(ip, st, a[0])[1]}))]
        if not a:
            return None
        v = self.trace(ip, st, a[0])[1]
        adt = v.adt if isinstance(v, A) else None
        if adt == "barcfile" and m == "reader":
            p = v.fields["path"]
            ok = isinstance(p, A) and p.adt == "argstr" and p.fields["flag"].x == "file" and "ix" in p.fields and st.num.eq(p.fields["ix"].lin + 1, self.lin(st, "fi"))
            self.ob(ip, st, "C34", "input", ok, "the archive read is not the input file next in turn", where)
            self.put(st, "fstate", K("open"))
            for g, x in (("nread", I(0)), ("nsel", I(0)), ("cur", I(0)), ("recoff", I(0)), ("sel", K(None)), ("eof", K(False)), ("seeked", K(False))):
                self.put(st, g, x)
            return self.either(ip, cs, st, A("reader", None, {}))
        if adt == "barcfile" and m == "writer":
            p = v.fields["path"]
            self.ctx.count("writers")
            ok = isinstance(p, A) and p.adt == "argstr" and p.fields["flag"].x != "file"
            self.ob(ip, st, "C34", "output", ok, "the archive written is not the output file given", where)
            if not st.g("meta"):
                differ = st.g("canoneq") is False or st.g("canonfail") and st.g("texteq") is False
                self.ob(ip, st, "C35", "same file", differ, "the output file is opened without ruling out that it is the input file (%s)" % (
                    "same path" if st.g("texteq") else "the same file under another path" if not st.g("canonfail") else "same path of a file not there"), where)
            for g in ("texteq", "canoneq", "canonfail", "meta"):
                self.put(st, g, K(None))
            return self.either(ip, cs, st, A("writer", None, {}))
        if adt == "reader":
            if m == "seek":
                x = a[1]
                ok = st.g("--offset") is not False and isinstance(x, I) and st.num.eq(x.lin, self.num(ip, "offset"))
                self.ob(ip, st, "C34", "offset", ok, "the position gone to is not the offset asked for", where)
                self.put(st, "seeked", K(True))
                self.put(st, "cur", I(x.lin) if isinstance(x, I) else I(0))
                return self.either(ip, cs, st, UNIT)
            if m == "offset":
                return [(st, I(self.lin(st, "cur")))]
            if m == "read":
                self.settle(ip, st, where)
                if st.g("--offset") is not False:
                    self.ob(ip, st, "C34", "offset", st.g("seeked"), "records are read without going to the offset asked for", where)
                outs = self.either(ip, cs, st, NONE)
                if st.g("failed"):
                    return outs
                s = st.copy()
                self.put(st, "eof", K(True))
                self.put(st, "sel", K(None))
                n = self.lin(s, "nread") + 1
                self.put(s, "nread", I(n))
                self.put(s, "recoff", I(self.lin(s, "cur")))
                self.put(s, "cur", I(Lin.sym(ip.fresh(s, cs.frame, cs.block, "next offset", self.tys["u64"], nonneg=True))))
                self.put(s, "sel", K("new"))
                outs.append((s, A(RES, 0, {0: some(A("record", None, {"n": I(n)}))})))
                return outs
            return None
        if adt == "writer" and m == "write":
            rec = self.val(ip, st, a[1], "record")
            self.ob(ip, st, "C34", "record", rec is not None, "what is written is not a record read", where)
            if rec is not None:
                self.select(ip, st, rec, where)
            self.ob(ip, st, "C34", "once", st.g("sel") == "new", "a record is written more than once", where)
            self.put(st, "sel", K("written"))
            return self.either(ip, cs, st, I(Lin.sym(ip.fresh(st, cs.frame, cs.block, "written at", self.tys["u64"], nonneg=True))))
        if adt == "record" and m in GETS:
            return [(st, self.heap(ip, st, ("part", m), A("part", None, {"kind": K(GETS[m]), "n": v.fields["n"]})))]
        if r in ("barc::write_headers", "barc::write_body"):
            pt = self.val(ip, st, a[2], "part")
            to = self.trace(ip, st, a[0])[1]
            self.ob(ip, st, "C34", "part", pt is not None, "what is printed is not a part of a record read", where)
            if pt is not None:
                sel = st.g("sel")
                if sel == "new":
                    self.select(ip, st, pt, where)
                    sel = ()
                elif sel == "head":
                    sel = ()
                self.ob(ip, st, "C34", "order", st.num.eq(pt.fields["n"].lin, self.lin(st, "nread")), "a record put out is not the one read last", where)
                if isinstance(sel, tuple):
                    if len(sel) > 6:
                        raise CheckError("analysis limit: parts of one record")
                    self.put(st, "sel", K(sel + (pt.fields["kind"].x,)))
            if isinstance(to, A):
                self.ob(ip, st, "C34", "output", to.adt != "stderr", "a part is printed to standard error", where)
                if to.adt == "bufout":
                    self.put(st, "unflushed", K(True))
            return self.either(ip, cs, st, I(Lin.sym(ip.fresh(st, cs.frame, cs.block, "bytes", self.tys["usize"], nonneg=True))))
        return None

    def printed(self, ip, st, x, where):
        vs = []

        def walk(t):
            if isinstance(t, T):
                if t.op == "farg":
                    if t.args[1].x in ("lower_hex", "upper_hex"):
                        vs.append(t.args[0])
                    return
                for y in t.args:
                    walk(y)
        walk(M.content(ip, st, x))
        if not vs or st.g("fstate") != "open":
            return
        v = vs[0]
        self.ctx.count("offsets")
        off = self.lin(st, "recoff")
        self.ob(ip, st, "C34", "offset shown", isinstance(v, I) and st.num.eq(v.lin, off), "the offset shown is not that of the record", where)
        if st.g("sel") == "new":
            self.select(ip, st, A("record", None, {"n": I(self.lin(st, "nread"))}), where)
            self.put(st, "sel", K("head"))


def run(ctx):
    f = [f for f in ctx.local_fns(("barc-bin",)) if f.name.split("::")[-1] == "main"]
    if len(f) != 1:
        raise CheckError("main not found")
    f = f[0]
    rule = Cli(ctx, f)
    rule.tys = scalar_tys(ctx)
    # start and count with all parts, and parts with all records
    for cmd, preset in (("cat", PARTS), ("cat", NUMS), ("cp", ("gzip", "brotli")), ("cp", NUMS), ("record", ())):
        ip = ctx.ip([rule], max_disj=4000, max_parts=20000)

        def setup(ip, st, args):
            rule.nf = Lin.sym(ip.sym(("files given",), rule.tys["usize"], nonneg=True))
            for g in list(rule.decided) + ["failed", "said", "logger", "lost"]:
                st.setg(g, K(None))
            st.setg("cmd", K(cmd))
            for x in preset:
                st.setg("--" + x, K(False))
            for g in ("fi", "nread", "nsel", "cur", "recoff"):
                st.setg(g, I(0))
            ip.assume(st, B("eq" if preset is NUMS else "ge", rule.nf - 1))
        ex, _ = ctx.entry(ip, f, setup)
        for e in ex:
            r = ip.nv(e.state, e.ret)
            if isinstance(r, A) and r.adt == RES and r.variant == 1:
                ctx.count("exits")
                ctx.ob("%s / status" % cmd, True)
                continue
            if cmd != "record":
                rule.done(ip, e.state, f.span)


def scalar_tys(ctx):
    out = {}
    for f in ctx.local_fns(("barc", "barc-bin", "body_image")):
        for t in f.locals:
            if t.s in ("u64", "usize"):
                out[t.s] = t
    return out


def c34(ctx):
    run(ctx)
    ctx.floor("ends", 1)


def c35(ctx):
    run(ctx)
    ctx.floor("ends", 1)
