"""Effects on files and paths: C07, C11."""
from common import *
from graph import *

FILE = "std::fs::File"
POSITIONED = ("olio::fs::read::ReadPos", "olio::fs::read::ReadSlice")
WRAP = ("alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::boxed::Box", "alloc::rcs::rc::Rc")
MOVES = {"read", "read_to_end", "read_exact", "read_to_string", "read_vectored", "read_buf", "read_buf_exact", "bytes", "take", "chain",
         "seek", "rewind", "stream_len", "seek_relative", "write", "write_all", "write_vectored", "write_fmt", "write_all_vectored",
         "set_len", "set_permissions", "set_times", "set_modified", "write_at", "write_all_at", "copy"}
HARMLESS = {"flush", "stream_position", "metadata", "sync_all", "sync_data", "read_at", "read_exact_at", "by_ref"}
IMAGE_TYPES = ("body_image::BodyImage", "body_image::BodyReader", "body_image::ExplodedImage", "body_image::Dialog", "barc::Record",
               "barc::BarcReader")
OWNERS = ("body_image::BodySink", "barc::BarcWriter")


def is_file(t):
    """File, or a reference or shared pointer to one."""
    n = 0
    while t is not None and n < 6:
        if t.adt == FILE:
            return True
        if t.k in ("ref", "ptr"):
            t = t.to
        elif t.adt in WRAP and t.args:
            t = t.args[0]
        else:
            return False
        n += 1
    return False


def contains_image(ctx, path, seen=None):
    """A type holding an image, or a share of its file."""
    seen = seen if seen is not None else set()
    if path in IMAGE_TYPES:
        return True
    if path in seen or path in OWNERS or path not in ctx.p.adts:
        return False
    seen.add(path)
    if not path.split("::")[0] in ("body_image", "barc", "body_image_futio"):
        return False
    for v in ctx.p.adts[path]["variants"]:
        for f in v["fields"]:
            s = f[1]
            if "ReadSlice<" in s or "ReadPos<" in s or "Arc<std::fs::File>" in s or "MemHandle<" in s:
                return True
            for q in ctx.p.adts:
                if q.startswith(("body_image", "barc")) and re_word(q.split("::")[-1], s) and contains_image(ctx, q, seen):
                    return True
    return False


def re_word(w, s):
    import re
    return re.search(r"(^|[^A-Za-z0-9_])%s($|[^A-Za-z0-9_])" % re.escape(w), s) is not None


def owner(t):
    return mentions(t, lambda x: x.adt in OWNERS)


def c07(ctx):
    default_build(ctx)
    g = Graph(ctx)
    img = {}

    def image_ty(t):
        def pred(x):
            if x.adt is None:
                return False
            if x.adt not in img:
                img[x.adt] = contains_image(ctx, x.adt)
            return img[x.adt] or x.adt in POSITIONED
        return mentions(t, pred)
    roots = []
    for f in ctx.local_fns(("body_image", "barc", "body_image_futio", "barc-bin")):
        tys = [f.locals[i] for i in range(0, f.argc + 1)]
        if any(owner(t) for t in tys[1:]) or "::{closure" in f.name or "CompressStrategy" in f.name:
            continue
        if any(image_ty(t) for t in tys) and not writer_side(f):
            roots.append(f)
    names = {f.name for f in roots}
    for n in ("body_image::BodyImage::reader", "body_image::BodyImage::write_to", "barc::BarcReader::read", "barc::BarcFile::reader",
              "body_image::BodyImage::clone"):
        if n not in names and ctx.p.by_name(n):
            roots.extend(x for x in ctx.p.by_name(n) if x.local)
    seen = g.reach(roots, lambda f: any(owner(f.locals[i]) for i in range(1, f.argc + 1)) or
                   any(owner(f.locals[0]) for _ in (0,)))
    ctx.counts["read-side entry functions"] = len(roots)
    ctx.counts["read-side functions"] = len(seen)
    for f, pred in seen.values():
        ctx.fns.add(f.name)
        effects(ctx, g, seen, f)
    ctx.floor("read-side entry functions", 20)
    ctx.floor("positioned reads", 2)
    # nowhere in the workspace is a file handle duplicated or rebuilt
    for f in ctx.local_fns():
        for c in calls(f):
            m = c.rname.split("::")[-1]
            if m == "try_clone" and c.atys and is_file(c.atys[0]):
                ctx.ob("%s / duplicate handle" % f.name, False, "a second handle shares the position of the first", c.where())
            if m in ("from_raw_fd", "from_raw_handle") or c.rname.startswith("libc::"):
                ctx.ob("%s / raw handle" % f.name, False, "a file is reached by its raw handle", c.where())
            if "MmapMut" in c.rname or m in ("map_mut", "map_copy", "make_mut") and "mmap" in c.rname.lower():
                ctx.ob("%s / writable map" % f.name, False, "a file is mapped for writing", c.where())


def writer_side(f):
    """Takes the archive's file by plain reference: part of writing."""
    for i in range(1, f.argc + 1):
        t = f.locals[i]
        if t.k in ("ref", "ptr") and t.to is not None and t.to.adt == FILE:
            return True
    return False


def effects(ctx, g, seen, f):
    for c in calls(f):
        m = c.rname.split("::")[-1]
        ext = not g.targets(c)
        for i, t in enumerate(c.atys):
            if t is None:
                continue
            if is_file(t) and ext and m in MOVES:
                ctx.ob("%s / %s on a file" % (f.name, m), False,
                       "a shared file's own position or content is used (%s), reached by %s" % (c.rname, g.path(seen, f)), c.where())
            if t.strip().adt in POSITIONED and m in ("read", "read_exact", "read_to_end", "seek", "copy", "subslice", "read_vectored"):
                ctx.count("positioned reads")
                ctx.ob("%s / %s" % (f.name, m), True)
        if ext and c.dty is not None and reader_over_file(c.dty):
            ctx.ob("%s / reader over a file" % f.name, False,
                   "%s reads a shared file at its own position" % c.rname, c.where())


PLAIN = ("core::", "alloc::rcs", "alloc::sync", "alloc::boxed", "std::sync", "alloc::vec", "std::fs::", "tempfile::")


def reader_over_file(t, d=0):
    """An adaptor type directly over a file (BufReader<File>, Take<&File>)."""
    if t is None or d > 6 or t.adt in POSITIONED:
        return False
    if t.adt and t.args and not t.adt.startswith(PLAIN) and any(is_file(x) for x in t.args if x is not None):
        return True
    subs = list(t.args or ())
    if t.to is not None:
        subs.append(t.to)
    return any(reader_over_file(x, d + 1) for x in subs)


# ------------------------------------------------------------------ C11
PURE = {"canonicalize", "metadata", "symlink_metadata", "read_dir", "read_link", "exists", "try_exists", "is_file", "is_dir", "len",
        "sync_all", "sync_data", "try_clone", "file_type", "modified", "permissions", "is_symlink", "read", "read_to_string", "path"}
OPTS = {"new", "read", "write", "append", "truncate", "create", "create_new", "open", "options", "mode", "custom_flags"}
FS = ("std::fs::", "std::os::unix::fs::", "tokio::fs::", "tempfile::", "std::os::fd::", "memmap::", "libc::", "nix::", "std::process::Command")
MMAP_OK = ("memmap::Mmap::map", "memmap::MmapOptions::")
TEMP_SINKS = {"tempfile::file::tempfile_in": 0, "tempfile::tempfile_in": 0}


class Opens(IP.Rule):
    def __init__(self, ctx, f, mode):
        self.ctx, self.f, self.mode = ctx, f, mode

    def on_open(self, ip, cs, st, flags, path):
        ctx = self.ctx
        ctx.count("opens")
        n = self.f.name
        if self.mode == "writer":
            ctx.ob("%s / never truncated" % n, flags["truncate"] is False and flags["create_new"] in (False, None),
                   "the archive may be truncated when opened", cs.where())
        else:
            ctx.ob("%s / read only" % n, flags["read"] is True and not any(flags[x] is not False for x in ("write", "append", "truncate", "create", "create_new")),
                   "a file is opened other than read-only outside the request for a writer", cs.where())
        pv = M.prov(ip, st, path)
        if self.f.name.startswith("barc::"):
            ctx.ob("%s / path" % n, pv <= {("arg", 0)} and len(pv) == 1, "the file opened is not the archive's own path", cs.where())


def c11(ctx):
    default_build(ctx)
    g = Graph(ctx)
    wr = ctx.fn("barc::BarcFile::writer")
    wset = g.reach([wr])
    opening = []
    temps = []
    for f in ctx.local_fns():
        ctx.fns.add(f.name)
        for c in calls(f):
            n = c.rname
            m = n.split("::")[-1]
            if n in TEMP_SINKS or n.startswith("tempfile::") and m == "tempfile_in":
                temps.append(c)
                continue
            isopen = m in ("open", "create", "create_new", "options") and (n.startswith("std::fs::File::") or n.startswith("std::fs::OpenOptions"))
            if n.startswith("std::fs::OpenOptions::") and m in OPTS:
                if m == "open":
                    opening.append(f)
                ctx.ob("%s / %s" % (f.name, m), True)
                continue
            if n == "std::fs::File::open":
                ctx.ob("%s / open" % f.name, True)
                ctx.count("opens")
                continue
            if n.startswith("<std::fs::") or n.startswith(MMAP_OK):
                continue
            recv = c.atys and c.atys[0] is not None and is_file(c.atys[0])
            if recv and m in ("set_len", "set_permissions", "set_times", "set_modified"):
                ctx.ob("%s / %s" % (f.name, m), False, "a file is truncated or altered by %s" % n, c.where())
                continue
            if n.startswith(FS) or n.startswith("std::path::Path::") and m in ("remove",):
                if n.startswith("std::fs::") and m in PURE:
                    ctx.ob("%s / %s" % (f.name, m), True)
                    continue
                if n.startswith("memmap::") or n.startswith("std::os::fd::"):
                    continue
                ctx.ob("%s / %s" % (f.name, m), False, "%s has an effect on the file system outside those allowed" % n, c.where())
    # who may open for writing
    done = set()
    for f in opening:
        if f.key in done:
            continue
        done.add(f.key)
        if f.coroutine:
            continue
        inw = (f.facts.name, f.key) in wset
        callers = [x for x in ctx.local_fns() if f in g.succ(x)] if f.name != wr.name else []
        mode = "writer" if inw else "reader"
        if inw and f.name != wr.name:
            # shared helper: analysed from its public entry points below
            continue
        ctx.entry(ctx.ip([Opens(ctx, f, mode)]), f)
    if wr.key not in done:
        ctx.entry(ctx.ip([Opens(ctx, wr, "writer")]), wr)
    rd = ctx.fn("barc::BarcFile::reader")
    if rd.key not in done:
        ctx.entry(ctx.ip([Opens(ctx, rd, "reader")]), rd)
    # only a request for a writer reaches the opening for writing
    openers = {c for k, (c, _) in wset.items() if any(x.rname in ("std::fs::OpenOptions::open",) for x in calls(c))}
    for f in ctx.local_fns():
        for h in g.succ(f):
            if h in openers and (f.facts.name, f.key) not in wset and h is not wr:
                r2 = g.reach([rd])
                ok2 = (f.facts.name, f.key) in r2
                ctx.ob("%s / opens through %s" % (f.name, h.name), ok2, "a file is opened outside a request for a writer or reader", f.span)
            if h is wr:
                ctx.count("writer requests")
    for f, _ in g.reach([ctx.fn("barc::BarcFile::new"), ctx.fn("barc::BarcReader::read")]).values():
        ctx.ob("%s / no opening" % f.name, not any(c.rname.startswith("std::fs::OpenOptions::open") for c in calls(f)),
               "a file is opened although neither a reader nor a writer was requested", f.span)
    # temp files: only in the configured directory
    ctx.counts["temp files"] = len(temps)
    work = [(c, TEMP_SINKS.get(c.rname, 0)) for c in temps]
    seen = set()
    while work:
        c, i = work.pop()
        for src in sources(ctx, c.fn, c.term["a"][i]):
            if src[0] == "arg":
                k = (c.fn.name, src[1])
                ctx.ob("%s / directory" % c.fn.name, True)
                if k in seen:
                    continue
                seen.add(k)
                for h in ctx.local_fns():
                    for c2 in calls(h):
                        if c2.rname == c.fn.name and len(c2.term["a"]) >= src[1]:
                            work.append((c2, src[1] - 1))
            elif src[0] == "up":
                ctx.ob("%s / directory" % c.fn.name, True)
            else:
                ctx.ob("%s / directory" % c.fn.name, src[1].endswith("::temp_dir") and not src[1].startswith("std::env"),
                       "a temporary file is made in a directory taken from %s, not the configured one" % src[1], c.where())
    ctx.floor("temp files", 1)
    ctx.floor("opens", 2)


THRU = {"as_ref", "deref", "borrow", "into", "from", "clone", "as_path", "to_path_buf", "to_owned", "by_ref", "as_os_str", "new", "as_deref", "unwrap", "expect"}


def sources(ctx, f, o, seen=None):
    """Where an operand's value comes from: arguments, calls, constants."""
    seen = seen if seen is not None else set()
    pl = o.get("m") or o.get("c")
    if pl is None:
        k = o.get("k", {})
        return {("const", str(k.get("def") or k.get("v") or k)[:80])}
    l = pl[0]
    if l in seen:
        return set()
    seen.add(l)
    out = set()
    if 1 <= l <= f.argc:
        if l == 1 and ("::{closure" in f.name):
            return {("up", f.name)}
        out.add(("arg", l))
    for b in f.blocks:
        for s in b["s"]:
            if "r" in s and s["p"][0] == l:
                r = s["r"]
                for x in operands(r):
                    out |= sources(ctx, f, x, seen)
        t = b["t"]
        if t["k"] == "call" and t["d"][0] == l:
            k = t["f"].get("k") if isinstance(t["f"], dict) else None
            fn = k.get("fn") if isinstance(k, dict) else None
            n = ((fn.get("r") or {}).get("name") or fn["name"]) if fn else "?"
            if n.split("::")[-1] in THRU and not n.startswith("std::env") and t["a"]:
                for x in t["a"][:1]:
                    out |= sources(ctx, f, x, seen)
            else:
                out.add(("call", n))
    return out


def operands(r):
    out = []
    if "use" in r:
        out.append(r["use"])
    if "ref" in r:
        out.append({"c": r["ref"]})
    if "rawptr" in r:
        out.append({"c": r["rawptr"]})
    if "cast" in r:
        out.append(r.get("a") or r.get("o") or r["cast"])
    if "agg" in r:
        out.extend(r["agg"])
    return [x for x in out if isinstance(x, dict)]
