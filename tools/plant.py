"""Authoring aid for seeded/: plant(id, prop, edits, demo, needs, breaks, extra) writes seeded/<id>/
after confirming in /repo (edited, tested, restored) that the change builds, passes the stable tests,
and that the demonstration tells the two apart."""
import json, os, subprocess, sys, shutil
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
DEMO_SH = '''#!/bin/bash
# cwd: /repo. Exit 0 when the behaviour is right, 1 when it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
printf '#define VERSION_MAJOR 0\\n#define VERSION_MINOR 1\\n#define HAVE_UNISTD_H\\n' > "$t/config.h"
I="-I$t -Isrc -Isrc/device -Isrc/panel -Isrc/model1052 -Isrc/model1442 -Isrc/model1443 -Isrc/model2030 -Isrc/model2050 -Isrc/model2415 -Isrc/model2844 -I/usr/include/SDL2"
gcc -w -g -O0 -fpermissive @FLAGS@ $I -o "$t/demo" "$d/demo.c" -lm -Wl,--unresolved-symbols=ignore-all || { echo "demo does not build"; exit 0; }
cd "$t" || exit 0
timeout 60 ./demo
r=$?
[ $r -eq 0 ] && echo "demo: ok" || echo "demo: broken ($r)"
[ $r -eq 0 ]
'''
def plant(bid, prop, edits, demo, needs, breaks, extra=(), flags="-fsanitize=address,bounds -fno-sanitize-recover=all", check=True):
    d = "%s/seeded/%s" % (V, bid)
    assert not sh("git -C %s status --porcelain -uno" % R).stdout.strip(), "repo not clean"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for n, t in extra: open(d + "/" + n, "w").write(t)
    open(d + "/demo.c", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("@FLAGS@", flags)); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh("ASAN_OPTIONS=detect_leaks=0 bash %s/demo.sh" % d, cwd=R)
    if r.returncode: print(bid, "demo FAILS on unchanged tree:", r.stdout.decode()[-1500:]); ok = False
    try:
        for f, old, new in edits:
            p = R + "/" + f; s = open(p, newline="").read()
            assert s.count(old) == 1, (bid, f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(sh("git -C %s diff" % R).stdout)
        if check:
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            j = json.load(open("/tmp/plant.json"))
            miss = BASE - set(j["passed"]) if BASE else None
            print(bid, "tests passed", len(j["passed"]), "baseline missing", len(miss) if miss is not None else "?")
            if (miss and len(miss)) or len(j["passed"]) < 908: ok = False; print("   TESTS DETECT", list(miss)[:3])
        r = sh("bash %s/demo.sh" % d, cwd=R)
        if r.returncode == 0: print(bid, "demo does not see the change", r.stdout.decode()[-500:]); ok = False
        c = sh("true" if os.environ.get("NOCHECK") else "python3 lib/vk.py %s" % prop, cwd=V)
        print(bid, "check exit", c.returncode, c.stdout.decode()[-400:].strip())
    finally:
        sh("git -C %s checkout -- ." % R)
    if check: sh("bash /opt/vp/build.sh")
    print(bid, "KEPT" if ok else "NOT OK")
    if not ok: shutil.rmtree(d)
    return ok
