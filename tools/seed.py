#!/usr/bin/env python3
"""seed.py ID [--check]: verifies /verif/seeded/ID in a scratch copy of /repo (builds, tests pass, demo passes clean and
fails patched) and reports whether the property's check catches it.  seed.py --new ID PROP file 'old' 'new' ... makes patch.diff."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(d):
    # RelWithDebInfo like /opt/vp, in a build folder of the copy
    r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ "
           "-DSRTC_BUILD_TESTS=ON -DSRTC_BUILD_TOOLS=ON -DCMAKE_PROJECT_srtc_INCLUDE=/opt/vp/cmake/offline.cmake "
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest && "
           "cmake --build _build -j8 --target srtc srtc_publish srtc_subscribe srtc_test", d)
    return r
def demo(sid, d):
    t = tempfile.mkdtemp(prefix="demo", dir="/tmp")
    for f in os.listdir(os.path.join(HERE, "seeded", sid)):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(HERE, "seeded", sid, f), t)
    try:
        r = sh("timeout 300 bash %s/demo.sh" % t, d)
    finally:
        shutil.rmtree(t)
    return r
def main():
    sid = sys.argv[1]
    sd = os.path.join(HERE, "seeded", sid)
    base = "/tmp/seedbase"
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    if not os.path.exists(base + "/.head") or open(base + "/.head").read() != head:
        shutil.rmtree(base, ignore_errors=True)
        sh("git clone -q /repo %s" % base, "/tmp")
        r = build(base)
        if r.returncode: print(r.stdout[-2000:]); sys.exit(1)
        open(base + "/.head", "w").write(head)
    r = demo(sid, base)
    print("clean demo:", r.returncode, r.stdout[-600:] if r.returncode else "")
    ok = r.returncode == 0
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh("cp -a %s/. %s" % (base, d), "/tmp")
        shutil.rmtree(d + "/_build")
        r = sh("git apply %s/patch.diff" % sd, d)
        if r.returncode: print("patch does not apply", r.stdout); sys.exit(1)
        r = build(d)
        if r.returncode: print("does not build", r.stdout[-3000:]); sys.exit(1)
        r = sh("timeout 600 ctest --test-dir _build -j8 --timeout 100", d)
        print("tests:", [l for l in r.stdout.splitlines() if "tests passed" in l])
        ok = ok and r.returncode == 0
        r = demo(sid, d)
        print("patched demo:", r.returncode, r.stdout[-400:])
        ok = ok and r.returncode != 0
        print("VALID" if ok else "INVALID")
        props = [json.load(open(sd + "/meta.json"))["property"]] + sys.argv[2:]
        for p in props:
            if p.startswith("-"): continue
            r = sh("SRTC_REPO=%s python3 check.py %s quick" % (d, p), HERE)
            print("check", p, "->", r.returncode, "\n".join(r.stdout.splitlines()[-4:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
def new():
    sid, prop = sys.argv[2], sys.argv[3]
    a = sys.argv[4:]
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    sh("git clone -q /repo %s/r" % d, "/tmp")
    for i in range(0, len(a), 3):
        p = os.path.join(d, "r", a[i]); s = open(p).read()
        if s.count(a[i + 1]) < 1: print("NOT FOUND", a[i + 1]); sys.exit(1)
        if s.count(a[i + 1]) > 1: print("warning: several matches, first replaced")
        open(p, "w").write(s.replace(a[i + 1], a[i + 2], 1))
    sd = os.path.join(HERE, "seeded", sid); os.makedirs(sd, exist_ok=True)
    open(sd + "/patch.diff", "w").write(sh("git diff", d + "/r").stdout)
    if not os.path.exists(sd + "/meta.json"):
        json.dump({"property": prop, "needs": "", "what_it_breaks": ""}, open(sd + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
if sys.argv[1] == "--new": new()
else: main()
