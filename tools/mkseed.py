#!/usr/bin/env python3
"""Make planted bugs: mkseed.py FILE.py [ID...]. FILE.py holds SEEDS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks, flags='', sources=None)].
For each: in a scratch copy of /repo apply the edit, check that it touches only lines of the original repository, builds, passes the tests, and that the demonstration
passes without and fails with it; then write /verif/seeded/<id>/ and run the check of its property against the copy."""
import json, os, runpy, shutil, subprocess, sys
ROOT = "/verif"; BASE = "396edd5"; SCR = "/tmp/seedrepo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]; only = set(sys.argv[2:])
    shutil.rmtree(SCR, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", SCR])
    for s in seeds:
        if only and s["id"] not in only: continue
        sh("git checkout -q -- . ", cwd=SCR)
        bad = None
        for path, old, new in s["edits"]:
            p = os.path.join(SCR, path); t = open(p).read()
            if t.count(old) != 1: bad = "%s: %d occurrences of %r" % (path, t.count(old), old[:60]); break
            open(p, "w").write(t.replace(old, new))
        if bad: print(s["id"], "EDIT", bad); continue
        diff = sh("git diff", cwd=SCR).stdout
        # removed lines must be lines of the original repository
        for path in {e[0] for e in s["edits"]}:
            orig = set(subprocess.run(["git", "show", BASE + ":" + path], cwd=SCR, stdout=subprocess.PIPE, text=True).stdout.splitlines())
            d = sh("git diff -U0 -- " + path, cwd=SCR).stdout
            rem = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not [l for l in rem if l in orig and l.strip()]: print(s["id"], "WARNING: no original line changed in", path)
            for l in rem:
                if l not in orig: print(s["id"], "WARNING: not an original line:", l.strip()[:100])
        D = os.path.join(ROOT, "seeded", s["id"]); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        shutil.copytree(ROOT + "/shims", D + "/shims"); shutil.copy(ROOT + "/tools/seed/demo.hpp", D)
        demo = open(ROOT + "/tools/seed/demo.sh").read().replace("FLAGS", s.get("flags", "")).replace("SOURCES", s.get("sources") or "src/common/src src/decoders/common/src src/decoders/oem/src")
        open(D + "/demo.sh", "w").write(demo); os.chmod(D + "/demo.sh", 0o755)
        open(D + "/demo.cpp", "w").write('#include "demo.hpp"\n' + s["demo"].strip() + "\n")
        open(D + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % D, cwd="/repo"); r1 = sh("bash %s/demo.sh" % D, cwd=SCR)
        # the stable tests, built from the copy
        b = sh("cmake -S /opt/vp/partial -B %s/_build2 -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null && cmake --build %s/_build2 -j8 && cd %s/_build2 && ctest 2>&1 | tail -3" % (SCR, SCR, SCR, SCR))
        okb = "100% tests passed" in b.stdout
        c = sh("VERIF_REPO=%s VERIF_EVIDENCE_OFF=1 timeout 900 python3 %s/tools/check.py %s quick" % (SCR, ROOT, s["property"]))
        caught = c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout
        print(s["id"], s["property"], "demo clean=%d bug=%d" % (r0.returncode, r1.returncode), "tests=%s" % okb, "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, flush=True)
        if r0.returncode or not r1.returncode: print(r0.stdout[-1500:], "\n--- bug:", r1.stdout[-800:])
        if not okb: print(b.stdout[-600:])
        if not caught: print(c.stdout[-500:])
        else: print("   ", next((l for l in c.stdout.splitlines() if l.startswith("[")), "")[:250])
    shutil.rmtree(SCR, ignore_errors=True)
main()
