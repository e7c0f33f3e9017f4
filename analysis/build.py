"""Builds the fact extractor and extracts program facts from /repo's working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
CRATES = "body_image,barc,body_image_futio,barc_cli,piccolog"
# debug assertions off: nothing may rely on them; overflow stays a panic site
RUSTFLAGS = "-Zmir-opt-level=0 -Awarnings -Cdebug-assertions=off -Coverflow-checks=on"
MEMBERS = ("barc", "body-image", "body_image", "piccolog")


class BuildError(Exception):
    pass


def _files(root, exts, skip=("target", ".git", ".build")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(exts) or f in ("Cargo.toml", "Cargo.lock"):
                out.append(os.path.join(d, f))
    return out


def digest(paths, base):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, base).encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def flags():
    """Cargo flags of the project's own build."""
    sh = ". /opt/vp/env.sh >/dev/null 2>&1; for f in \"${FLAGS[@]}\"; do echo \"$f\"; done"
    r = subprocess.run(["bash", "-c", sh], capture_output=True, text=True)
    fl = [x for x in r.stdout.split("\n") if x]
    if not fl:
        fl = ["--workspace", "--offline", "--locked", "--no-default-features", "--features",
              "barc/mmap,barc/brotli,body-image/mmap,body-image-futio/mmap,body-image-futio/brotli,barc-cli/mmap,barc-cli/brotli"]
    return fl


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_")
         or k in ("CARGO_HOME",)}
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise BuildError("%s failed" % what)
    return r.stdout


def driver():
    src = os.path.join(VERIF, "driver")
    h = digest(_files(src, (".rs",)), src)
    tgt = os.path.join(BUILD, "driver")
    binp = os.path.join(tgt, "debug", "mirfacts")
    stamp = os.path.join(tgt, "stamp")
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h:
        return binp, h
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    run(["cargo", "build", "--offline"], src, e, "fact extractor build")
    with open(stamp, "w") as fh:
        fh.write(h)
    return binp, h


def http_flags():
    """Cargo flags of the default build (with the HTTP client), the TLS
    connector being replaced by a stand-in.  The resolution is kept aside."""
    d = os.path.join(BUILD, "lens")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return ["--workspace", "--offline", "-Zunstable-options",
            "--config", "patch.crates-io.hyper-tls.path=%r" % os.path.join(VERIF, "lens", "hyper-tls"),
            "--config", "resolver.lockfile-path=%r" % os.path.join(d, "Cargo.lock")]


def facts(http=False):
    """Directory with facts for the current working tree, as the project is
    built for its tests or with its default features."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binp, dh = driver()
        fl = http_flags() if http else flags()
        h = hashlib.sha256((digest(_files(REPO, (".rs",)), REPO) + dh + RUSTFLAGS + " ".join(fl)).encode()).hexdigest()[:24]
        base = os.path.join(BUILD, "facts")
        out = os.path.join(base, h)
        if os.path.exists(os.path.join(out, "done")):
            os.utime(out)
            return out, h
        tgt = os.path.join(BUILD, "target-http" if http else "target")
        # force the workspace members through the extractor again (either target layout)
        for sub in (".fingerprint", "build"):
            fp = os.path.join(tgt, "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(MEMBERS):
                        shutil.rmtree(os.path.join(fp, d))
        tmp = out + ".tmp"
        if os.path.isdir(tmp):
            shutil.rmtree(tmp)
        os.makedirs(tmp)
        e = env()
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
        e["CARGO_TARGET_DIR"] = tgt
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        e["MIRFACTS_OUT"] = tmp
        e["MIRFACTS_CRATES"] = CRATES
        e["RUSTC_WORKSPACE_WRAPPER"] = binp
        e["RUSTFLAGS"] = RUSTFLAGS
        t = time.time()
        run(["cargo", "check"] + fl, REPO, e, "fact extraction")
        for need in ("body_image.json", "barc.json", "body_image_futio.json", "barc-bin.json", "piccolog.json"):
            if not os.path.exists(os.path.join(tmp, need)):
                raise BuildError("fact extraction produced no %s" % need)
        with open(os.path.join(tmp, "done"), "w") as fh:
            fh.write("%.1f" % (time.time() - t))
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
        old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in old[:-10]:
            if os.path.isdir(d) and d != out:
                shutil.rmtree(d)
            elif os.path.isfile(d):
                os.unlink(d)
        return out, h


if __name__ == "__main__":
    t = time.time()
    try:
        d, h = facts()
    except BuildError as ex:
        sys.stderr.write("error: %s\n" % ex)
        sys.exit(2)
    # compile the dependencies of the type witnesses once
    import p_types
    try:
        p_types.compile_all(h)
    except Exception as ex:
        sys.stderr.write("warning: %s\n" % ex)
    try:
        facts(http=True)
    except BuildError as ex:
        sys.stderr.write("warning: %s\n" % ex)
    print("facts %s (%.1fs)" % (d, time.time() - t))
