"""Type-level guarantees: C13 (compile witnesses and queries over signatures)."""
import fcntl
import json
import os
import re
import shutil
import subprocess

import build
from common import *
from graph import mentions

DIR = os.path.join(build.VERIF, "witness")
UNKNOWN = {"E0412", "E0432", "E0433", "E0425", "E0599", "E0107", "E0423", "E0574", "E0560", "E0061", "E0603"}
FILEISH = ("std::fs::File", "olio::fs::read::ReadSlice", "olio::fs::read::ReadPos")
IMAGES = ("body_image::BodyImage", "body_image::BodySink", "body_image::ExplodedImage", "body_image::BodyReader")
CLOSED = ("body_image::BodyImage", "body_image::BodySink", "body_image::Tunables", "body_image::Tuner", "body_image::Dialog",
          "body_image_futio::tune::FutioTunables", "body_image_futio::tune::FutioTuner", "barc::BarcFile", "barc::BarcWriter", "barc::BarcReader")


def compile_all(stamp=""):
    """{witness: [(code, line, message)]} with the current working tree."""
    tgt = os.path.join(build.BUILD, "wtarget")
    work = os.path.join(build.BUILD, "witness")
    os.makedirs(build.BUILD, exist_ok=True)
    with open(os.path.join(build.BUILD, "wlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.isdir(work):
            shutil.rmtree(work)
        shutil.copytree(DIR, work, ignore=shutil.ignore_patterns("Cargo.lock", "__pycache__"))
        shutil.copy(os.path.join(build.REPO, "Cargo.lock"), os.path.join(work, "Cargo.lock"))
        mark = os.path.join(build.BUILD, "wstamp")
        if not os.path.exists(mark) or open(mark).read() != stamp:
            # other sources than last time: do not rely on file times
            for sub in (".fingerprint", "build"):
                fp = os.path.join(tgt, "debug", sub)
                for d in os.listdir(fp) if os.path.isdir(fp) else ():
                    if d.startswith(build.MEMBERS):
                        shutil.rmtree(os.path.join(fp, d))
            with open(mark, "w") as fh:
                fh.write(stamp)
        e = build.env()
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTFLAGS"] = "-Awarnings"
        r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=work, env=e,
                           capture_output=True, text=True, timeout=800)
    out = {}
    seen = set()
    for l in r.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] != "witness" and "bin" in d["target"]["kind"]:
            seen.add(d["target"]["name"])
        if d.get("reason") != "compiler-message" or d["message"].get("level") != "error":
            continue
        t = d["target"]["name"]
        if "bin" not in d["target"]["kind"]:
            raise CheckError("the crates do not compile: %s" % d["message"]["message"])
        code = (d["message"].get("code") or {}).get("code")
        if code is None and d["message"]["message"].startswith("aborting"):
            continue
        sp = [s["line_start"] for s in d["message"]["spans"] if s.get("is_primary")]
        out.setdefault(t, []).append((code, sp[0] if sp else 0, d["message"]["message"]))
    for t in seen:
        out.setdefault(t, [])
    if not out:
        raise CheckError("the witnesses were not compiled: %s" % r.stderr[-400:])
    return out


def c13(ctx):
    res = compile_all(getattr(ctx, "facts_hash", ""))
    src = os.path.join(DIR, "src", "bin")
    for fn in sorted(os.listdir(src)):
        n = fn[:-3]
        with open(os.path.join(src, fn)) as fh:
            lines = fh.read().split("\n")
        if n not in res:
            raise CheckError("witness %s was not compiled" % n)
        if n == "pos":
            bad = {}
            for code, ln, msg in res[n]:
                bad.setdefault(ln, []).append((code, msg))
            for i, l in enumerate(lines, 1):
                m = re.match(r"\s*(send|sync)::<(.*)>\(\);", l)
                if not m:
                    continue
                if bad.get(i) and all(c in UNKNOWN for c, _ in bad[i]):
                    ctx.notes.append("undecided: %s of %s (%s)" % (m.group(1), m.group(2), bad[i][0][1]))
                    continue
                ctx.count("thread-safety witnesses")
                ctx.ob("%s / %s" % (m.group(2), "Send" if m.group(1) == "send" else "Sync"), i not in bad,
                       "%s: %s" % (m.group(2), bad[i][0][1] if i in bad else ""), "witness")
            continue
        code = re.match(r"// expect (E\d+)", lines[0]).group(1)
        here = [i for i, l in enumerate(lines, 1) if "// HERE" in l][0]
        es = res[n]
        okv = any(c == code and ln == here for c, ln, _ in es)
        other = [x for x in es if not (x[0] == code and x[1] == here)]
        if not okv and other:
            ctx.notes.append("undecided: %s (%s)" % (n, other[0][2]))
            continue
        ctx.count("compile-fail witnesses")
        ctx.ob("witness %s" % n, okv, "a program that must be rejected (%s) compiles: %s" % (code, lines[here - 1].strip()), fn)
    # signatures: no safe way from a file to an image
    for f in ctx.local_fns(("body_image", "barc", "body_image_futio")):
        if "::{closure" in f.name or not (f.pub or f.impl_trait):
            continue
        if f.impl_trait and f.impl_trait.startswith("core::clone"):
            continue
        par = [f.locals[i] for i in range(1, f.argc + 1)]
        if any(mentions(t, lambda x: x.adt in FILEISH) for t in par) and mentions(f.locals[0], lambda x: x.adt in IMAGES) and reachable(ctx, f):
            ctx.count("image constructors over files")
            ctx.ob("%s / unsafe" % f.name, f.unsafe, "an image can be made over an arbitrary file in safe code", f.span)
    for p in CLOSED:
        a = ctx.p.adts.get(p)
        if a is None:
            continue
        for v in a["variants"]:
            for fl in v["fields"]:
                ctx.ob("%s / %s private" % (p, fl[0]), not fl[2], "%s can be built from parts: %s is public" % (p, fl[0]))
    ctx.floor("thread-safety witnesses", 20)
    ctx.floor("compile-fail witnesses", 5)


def reachable(ctx, f):
    """Nameable from outside: a trait method or an inherent one of a public type."""
    if f.impl_trait:
        return True
    if f.impl_self and f.impl_self in ctx.p.adts:
        return bool(ctx.p.adts[f.impl_self].get("pub"))
    return f.pub
