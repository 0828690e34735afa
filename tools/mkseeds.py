#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.seed (edits, meta, demo) and the demonstration kit.

A .seed file: header lines 'property:', 'needs:', 'breaks:', optional 'flags:' / 'limit:' / 'args:', then sections
'=== FILE path', each with '<<<<' old '====' new '>>>>' blocks, and '=== DEMO' with the text of demo.cpp.
usage: mkseeds.py [id...] ; with --try it also builds, tests and demonstrates each one in a scratch copy of /repo
"""
import json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
REPO = "/repo"

def parse(p):
    t = open(p).read()
    head, *rest = re.split(r"^=== ", t, flags=re.M)
    meta = {}
    for l in head.strip().splitlines():
        k, v = l.split(":", 1)
        meta[k.strip()] = v.strip()
    files, demo = {}, ""
    for r in rest:
        first, body = r.split("\n", 1)
        if first.startswith("FILE "):
            ed = re.findall(r"<<<<\n(.*?)====\n(.*?)>>>>", body, flags=re.S)
            files.setdefault(first[5:].strip(), []).extend(ed)
        elif first.startswith("DEMO"):
            demo = body
    return meta, files, demo

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    sh("cp -a %s/. %s/repo" % (REPO, d))
    sh("mkdir -p %s/vp && cp -a /opt/vp/cmake %s/vp/" % (d, d))
    p = d + "/vp/cmake/CMakeLists.txt"
    s = open(p).read().replace("set(REPO /repo)", "set(REPO %s/repo)" % d)
    open(p, "w").write(s)
    shutil.rmtree(d + "/repo/_build", ignore_errors=True)
    return d

def build_test(d):
    r = sh("CC=gcc CXX=g++ cmake -S %s/vp/cmake -B %s/repo/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C %s/repo/_build" % (d, d, d))
    if r.returncode:
        return "build failed\n" + r.stdout[-1500:] + r.stderr[-1500:]
    tmp = tempfile.mkdtemp(prefix="t-", dir=d)
    r = sh("TMPDIR=%s ctest --test-dir %s/repo/_build -j8 --timeout 300" % (tmp, d))
    return "" if r.returncode == 0 else "tests failed\n" + r.stdout[-1500:]

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or sorted(f[:-5] for f in os.listdir(H + "/seeds") if f.endswith(".seed"))
    for i in ids:
        meta, files, demo = parse("%s/seeds/%s.seed" % (H, i))
        d = scratch()
        try:
            r = d + "/repo"
            for f, eds in files.items():
                s = open(r + "/" + f).read()
                for a, b in eds:
                    assert s.count(a) == 1, (i, f, s.count(a), a)
                    s = s.replace(a, b)
                open(r + "/" + f, "w").write(s)
            diff = sh("git -C %s diff" % r).stdout
            out = "%s/seeded/%s" % (V, i)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            open(out + "/meta.json", "a").write("\n")
            shutil.copy(H + "/seedkit/kit.sh", out)
            shutil.copy(H + "/seedkit/kit.hpp", out)
            if "pybind11" in demo:
                shutil.copytree(os.path.dirname(H) + "/model/include/pybind11", out + "/stub/pybind11", dirs_exist_ok=True)
            shutil.copytree(H + "/seedkit/stub", out + "/stub", dirs_exist_ok=True)
            open(out + "/demo.cpp", "w").write(demo)
            lim = "LIMIT=%s\n" % meta["limit"] if "limit" in meta else ""
            open(out + "/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/kit.sh"\n%sbuild_demo %s\nrun_demo %s\n' % (lim, meta.get("flags", ""), meta.get("args", "")))
            os.chmod(out + "/demo.sh", 0o755)
            if "--try" in sys.argv:
                def demo_run():
                    d2 = tempfile.mkdtemp(prefix="demo-", dir=d)
                    sh("cp -a %s/. %s && mv %s/patch.diff %s/meta.json %s/" % (out, d2, d2, d2, d))
                    return sh("bash %s/demo.sh" % d2, cwd=r)
                bt = build_test(d)
                bad = demo_run()
                sh("git -C %s checkout -- ." % r)
                good = demo_run()
                ok = not bt and bad.returncode != 0 and good.returncode == 0
                print(i, "OK" if ok else "NOT OK", "patched rc", bad.returncode, "clean rc", good.returncode, bt)
                print("   patched says:", (bad.stdout + bad.stderr).strip().splitlines()[-2:])
                if good.returncode:
                    print("   clean says:", (good.stdout + good.stderr)[-1500:])
                sys.stdout.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)
main()
