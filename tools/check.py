#!/usr/bin/env python3
"""Build the harness of one property from /repo's current working tree and run it.

usage: check.py ID [quick|thorough] [extra harness args...]     |     check.py --build-all
Objects are cached under /verif/build by a hash of everything that goes into them, so a warm cache never hides a change."""
import glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CXX = "g++"
DEFS = ["-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
BASE = [CXX, "-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address", "-pthread", *DEFS,
        "-I" + os.path.join(ROOT, "shims"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "src")]
COVER = ["-fsanitize-coverage=trace-pc,trace-cmp"]  # everything but the runtime, for the guided phase
GROUPS = {"common": ["src/common/src"], "dcommon": ["src/decoders/common/src"], "oem": ["src/decoders/oem/src"]}


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p, "/").encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def headers():
    out = []
    for d in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(ROOT, "shims"), os.path.join(ROOT, "src")):
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith((".hpp", ".h", ".inl", ".ipp"))]
    return out


def repo_headers():
    return [p for p in headers() if not p.startswith(os.path.join(ROOT, "src"))]


def sources(groups):
    out = []
    for g in groups:
        for d in GROUPS[g]:
            for r, _, fs in os.walk(os.path.join(REPO, d)):
                if "/test" in r[len(REPO):]:
                    continue
                out += [os.path.join(r, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def compile_one(src, key, flags):
    h = hashlib.sha256((key + " ".join(flags) + src).encode())
    with open(src, "rb") as f:
        h.update(f.read())
    obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        p = subprocess.run([*flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("compiling %s failed:\n%s" % (src, p.stdout[-6000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def harness_src(pid):
    m = glob.glob(os.path.join(ROOT, "src", pid.lower() + "_*.cpp"))
    if len(m) != 1:
        raise RuntimeError("no harness for " + pid)
    return m[0]


def meta(src):
    groups, extra, san = ["common", "dcommon", "oem"], [], "address"
    with open(src) as f:
        for line in f.readlines()[:12]:
            if line.startswith("// LIBS:"):
                groups = [g for g in line[8:].split() if g != "none"]
            if line.startswith("// FLAGS:"):
                extra = line[9:].split()
            if line.startswith("// SANITIZER:"):
                san = line[13:].strip()
    return groups, extra, san


def guided(pid):
    """size of the coverage-guided phase of the thorough tier, as a share of the random phase (directive: '// GUIDED: 0.5')"""
    with open(harness_src(pid)) as f:
        for line in f.readlines()[:12]:
            if line.startswith("// GUIDED:"):
                return float(line[10:])
    return 0.25


def build(pids, cover=False):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    key_all, key_repo = digest(headers()), digest(repo_headers())
    key_pbt = digest([os.path.join(ROOT, "src", "pbt.hpp")])
    jobs, plans = {}, {}
    order = []

    def want(src, key, flags):
        k = (src, tuple(flags))
        if k not in jobs:
            jobs[k] = key
            order.append(k)
        return k

    for pid in pids:
        s = harness_src(pid)
        groups, extra, san = meta(s)
        base = ["-fsanitize=" + san if f == "-fsanitize=address" else f for f in BASE]
        flags = COVER if cover else []
        ks = [want(s, key_all, base + extra + flags)]
        ks.append(want(os.path.join(ROOT, "src", "pbt.cpp"), key_pbt, base))
        ks += [want(x, key_repo, base + flags) for x in sorted(sources(groups), key=lambda p: -os.path.getsize(p))]
        plans[pid] = (ks, san)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {k: ex.submit(compile_one, k[0], jobs[k], list(k[1])) for k in order}
        objs = {k: f.result() for k, f in futs.items()}
    bins = {}
    for pid, (ks, san) in plans.items():
        o = [objs[k] for k in ks]
        h = hashlib.sha256("\n".join(o).encode()).hexdigest()[:16]
        stem = pid + ("-guided" if cover else "")
        out = os.path.join(BUILD, "%s.%s" % (stem, h))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, stem + ".*")):
                if os.path.isfile(old):
                    os.remove(old)
            p = subprocess.run([CXX, "-fsanitize=" + san, "-pthread", *o, "-lspdlog", "-lfmt", "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise RuntimeError("link failed:\n" + p.stdout[-4000:])
        bins[pid] = out
    return bins


def prune():
    """keep the cache bounded"""
    fs = sorted(glob.glob(os.path.join(BUILD, "obj", "*")), key=os.path.getmtime, reverse=True)
    for f in fs[400:]:
        os.remove(f)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "--build-all":
            t = time.time()
            ids = sorted({os.path.basename(p).split("_")[0].upper() for p in glob.glob(os.path.join(ROOT, "src", "c[0-9]*_*.cpp"))})
            build(ids)
            print("built %d harnesses in %.0f s" % (len(ids), time.time() - t))
            return 0
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
        extra = [a for a in sys.argv[2:] if a not in ("quick", "thorough")]
        t = time.time()
        b = build([pid])[pid]
        prune()
        print("built %s in %.1f s" % (pid, time.time() - t), flush=True)
    except RuntimeError as e:
        print("BUILD ERROR:", e)
        return 3
    seed = os.environ.get("VERIF_SEED", "1")
    rc = subprocess.run([b, *extra, "--seed", seed, "--tier", tier, "--root", ROOT]).returncode
    share = guided(pid)
    if rc or not share or (tier != "thorough" and "--guided-too" not in sys.argv) or "--replay" in sys.argv or "--case" in sys.argv:
        return rc
    try:
        g = build([pid], True)[pid]
    except RuntimeError as e:
        print("BUILD ERROR:", e)
        return 3
    return subprocess.run([g, *extra, "--seed", seed, "--tier", tier, "--root", ROOT, "--guided", str(share)]).returncode


if __name__ == "__main__":
    sys.exit(main())
