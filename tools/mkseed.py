"""mkseed.py SPEC.py: makes /verif/seeded/<id> from a spec and confirms it.

The spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)],
DEMO (C++ source), SRCS (repo .cc files the demo links), SHIM (bool).
Confirmed in a scratch copy: applies, builds, stable tests pass, the demo
passes without and fails with the patch.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {"SRCS": [], "SHIM": False, "EXTRA": "", "FILES": {}}
exec(open(sys.argv[1]).read(), g)
d = os.path.join(V, "seeded", g["ID"])
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
with open(d + "/demo.cc", "w") as f:
    f.write(g["DEMO"])
for n, t in g["FILES"].items():
    with open(os.path.join(d, n), "w") as f:
        f.write(t)
inc = ""
if g["SHIM"]:
    shutil.copytree(V + "/shim", d + "/shim")
    inc = '-I"$D/shim" '
with open(d + "/demo.sh", "w") as f:
    f.write("""#!/bin/bash
# Run with cwd = the repository.  Exit 0: the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
ABSL=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | grep -v -e test -e mock -e pool)
%sclang++-18 -std=c++17 -O1 -g -fsanitize=address -include cstdint -Wno-everything %s-I"$T" -I. \\
  "$D/demo.cc" %s \\
  -Wl,--as-needed $ABSL -lprotobuf -lpthread %s -o "$T/demo" || exit 3
cd "$T"
ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
""" % ("" if not g.get("PROTO") else 'protoc -I. --cpp_out="$T" mpact/sim/proto/component_data.proto || exit 3\n',
       inc, " ".join(g["SRCS"] + (['"$T"/mpact/sim/proto/component_data.pb.cc'] if g.get("PROTO") else [])), g["EXTRA"]))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
          open(d + "/meta.json", "w"), indent=1)
fail = []
try:
    for p, old, new in g["EDITS"]:
        q = "/repo/" + p
        s = open(q).read()
        assert s.count(old) == 1, (p, s.count(old))
        open(q, "w").write(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: fail.append("build: " + r.stdout[-1500:])
    else:
        r = sh("bash /opt/vp/test.sh /tmp/mkseed.json >/dev/null; cat /tmp/mkseed.json")
        j = json.loads(r.stdout)
        base = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(j)
        nf = [k for k in ("failed",) if j.get(k)]
        if nf: fail.append("tests fail: " + str(j["failed"])[:500])
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode in (0, 3): fail.append("demo with patch: rc %d %s" % (r.returncode, r.stdout[-1500:]))
        else: print("demo with patch rc", r.returncode, r.stdout.strip()[-200:])
        if "--check" in sys.argv:
            r = sh("python3 check.py %s quick" % g["PROPERTY"], cwd=V)
            print("CHECK rc", r.returncode, "\n".join(r.stdout.splitlines()[-12:]))
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
r = sh("bash %s/demo.sh" % d, cwd="/repo")
if r.returncode: fail.append("demo without patch: rc %d %s" % (r.returncode, r.stdout[-1500:]))
print(g["ID"], "OK" if not fail else "REJECTED\n" + "\n".join(fail))
if fail: shutil.rmtree(d)
