#!/usr/bin/env python3
"""Builds the simulator for one property from /repo's current working tree.

Objects are cached by content hash under /verif/build (never in git), so a
fresh checkout builds everything and a second run builds only what changed.
"""
import concurrent.futures, hashlib, os, subprocess, sys, json

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = ["-std=c++14", "-g1", "-fno-rtti", "-w", "-I%s/src" % REPO,
          "-I/usr/include/minizip", "-I/usr/include/uriparser", "-DKML_SIM=1"]
VARIANTS = {
    "asan": dict(repo=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
                 sim=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 link=["-fsanitize=address"]),
    # Thread simulation: every load, store and function entry of library code
    # is a scheduling point.
    "sched": dict(repo=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=edge,no-prune,trace-pc-guard,trace-loads,trace-stores"],
                  sim=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], link=["-fsanitize=address"]),
    # Allocation failure: the C engines' allocator is wrapped at link time.
    "alloc": dict(repo=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
                  sim=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
                  link=["-fsanitize=address", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]),
}
LIBS = ["/usr/lib/x86_64-linux-gnu/libexpat.a", "/usr/lib/x86_64-linux-gnu/libminizip.a",
        "/usr/lib/x86_64-linux-gnu/libz.a", "-luriparser", "-ldl", "-lpthread"]
REPO_DIRS = ["base", "dom", "engine", "convenience", "regionator", "xsd"]
EXTRA_C = ["base/contrib/minizip/unzip.c", "base/contrib/minizip/iomem_simple.c"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    out = []
    for d in REPO_DIRS:
        base = os.path.join(REPO, "src/kml", d)
        for f in sorted(os.listdir(base)):
            if f.endswith(".cc") and f not in ("file_win32.cc",):
                out.append(os.path.join(base, f))
    for f in EXTRA_C:
        p = os.path.join(REPO, "src/kml", f)
        if os.path.exists(p):
            out.append(p)
    return out


def headers_hash():
    items = []
    for root, _, files in os.walk(os.path.join(REPO, "src/kml")):
        for f in files:
            if f.endswith((".h", ".hpp", ".inc")):
                items.append(os.path.join(root, f))
    return sha(*[x for p in sorted(items) for x in (p, read(p))])


def sim_headers_hash():
    d = os.path.join(VERIF, "sim")
    return sha(*[x for f in sorted(os.listdir(d)) if f.endswith(".h") for x in (f, read(os.path.join(d, f)))])


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    cc = "clang" if src.endswith(".c") else "clang++"
    fl = [f for f in flags if not (src.endswith(".c") and (f.startswith("-std=c++") or f == "-fno-rtti"))]
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run([cc] + fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return "%s:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:])
    os.rename(tmp, obj)
    return None


LOCALES = [("de_DE", "UTF-8"), ("fr_FR", "UTF-8"), ("tr_TR", "UTF-8"), ("hi_IN", "UTF-8"), ("de_DE", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("ru_RU", "KOI8-R")]


def locales():
    """Compiles the C locales the simulated application switches between."""
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    for lang, charset in LOCALES:
        out = os.path.join(d, "%s.%s" % (lang, charset))
        if os.path.isdir(out):
            continue
        tmp = out + ".%d.tmp" % os.getpid()
        try:
            subprocess.run(["localedef", "--no-archive", "-c", "-f", charset, "-i", lang, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except OSError:
            return
        if os.path.isdir(tmp):
            try:
                os.rename(tmp, out)
            except OSError:
                pass


def build(prop, variant):
    v = VARIANTS[variant]
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    hh, sh = headers_hash(), sim_headers_hash()
    jobs = []
    for src in repo_sources():
        flags = COMMON + v["repo"]
        key = sha(src, read(src), hh, " ".join(flags))
        jobs.append((src, os.path.join(objdir, key + ".o"), flags))
    simdir = os.path.join(VERIF, "sim")
    sims = [os.path.join(simdir, f) for f in sorted(os.listdir(simdir)) if f.endswith(".cc")]
    sims.append(os.path.join(simdir, "props", prop + ".cc"))
    for src in sims:
        flags = COMMON + v["sim"] + ["-I" + simdir, "-DSIM_VARIANT_" + variant.upper() + "=1", '-DSIM_LOCALES="%s"' % os.path.join(BUILD, "locale")]
        if os.path.basename(src).startswith("rtti_"):
            flags = [f for f in flags if f != "-fno-rtti"]
        key = sha(src, read(src), hh, sh, " ".join(flags))
        jobs.append((src, os.path.join(objdir, key + ".o"), flags))
    if prop == "C22":
        locales()
    # Largest sources first for a shorter critical path.
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(compile_one, order) if e]
    if errs:
        raise BuildError("\n".join(errs))
    exe = os.path.join(BUILD, "bin", sha(prop, variant, *([j[1] for j in jobs] + v["link"] + LIBS)), "sim_" + prop)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++", "-fuse-ld=bfd"] + v["link"] + ["-o", tmp] + [j[1] for j in jobs] + LIBS + ["-rdynamic"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("link:\n" + r.stdout.decode(errors="replace")[-6000:])
        os.rename(tmp, exe)
    return exe


def prune(limit_mb=3000):
    """Keep the cache bounded: drop the oldest files."""
    items = []
    for root, _, files in os.walk(BUILD):
        if "/locale" in root:
            continue
        for f in files:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            items.append((st.st_mtime, st.st_size, p))
    total = sum(i[1] for i in items)
    for _, size, p in sorted(items):
        if total <= limit_mb * 1e6:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        total -= size


if __name__ == "__main__":
    import props as P
    if sys.argv[1] == "--all":
        for p in sorted(P.PROPS):
            try:
                print(build(p, P.PROPS[p]["variant"]))
            except BuildError as e:
                print(e, file=sys.stderr)
                sys.exit(2)
        sys.exit(0)
    prop = sys.argv[1]
    try:
        print(build(prop, sys.argv[2] if len(sys.argv) > 2 else P.PROPS[prop]["variant"]))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
