"""Builds harnesses from /repo's working tree, with a content-checked cache."""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))
CXX = "clang++-18"
GEN = os.path.join(OUT, "gen")

BASE_FLAGS = [
    "-std=c++17", "-include", "cstdint", "-Wno-everything",
    "-I" + os.path.join(VERIF, "shim"),
    "-I" + os.path.join(VERIF, "lib"),
    "-I" + REPO, "-I" + GEN,
    "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
]
ASAN = ["-O1", "-fsanitize=address", "-fno-sanitize-address-use-after-scope"]
PLAIN = ["-O1"]
TSAN = ["-O1", "-fsanitize=thread"]
MODES = {"asan": ASAN, "plain": PLAIN, "tsan": TSAN}

_hash_cache = {}


def file_hash(p):
    if p not in _hash_cache:
        try:
            with open(p, "rb") as f:
                _hash_cache[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash_cache[p] = None
    return _hash_cache[p]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def parse_deps(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    # No spaces in our paths (one pdf aside, which nothing includes).
    return [d for d in t.split() if not d.startswith("/usr/")]


def compile_one(src, mode="asan", extra=()):
    """Returns (object path or None, log)."""
    flags = BASE_FLAGS + MODES[mode] + list(extra)
    tag = hashlib.sha256((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:16]
    obj = os.path.join(OUT, "obj", mode,
                       os.path.basename(src).rsplit(".", 1)[0] + "-" + tag + ".o")
    meta = obj + ".json"
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            with open(meta) as f:
                m = json.load(f)
            if all(file_hash(p) == h for p, h in m.items()):
                return obj, ""
        except (OSError, ValueError):
            pass
    tmp = obj + ".tmp%d" % os.getpid()
    r = run([CXX] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp])
    if r.returncode != 0:
        for p in (tmp, tmp + ".d"):
            if os.path.exists(p):
                os.remove(p)
        return None, r.stdout
    deps = parse_deps(tmp + ".d")
    os.remove(tmp + ".d")
    with open(meta + ".tmp", "w") as f:
        json.dump({p: file_hash(p) for p in deps}, f)
    os.replace(tmp, obj)
    os.replace(meta + ".tmp", meta)
    return obj, ""


def gen_proto():
    """component_data.pb.{h,cc} from /repo's .proto."""
    src = os.path.join(REPO, "mpact/sim/proto/component_data.proto")
    dst = os.path.join(GEN, "mpact/sim/proto/component_data.pb.cc")
    stamp = dst + ".stamp"
    h = file_hash(src)
    if h and os.path.exists(stamp) and open(stamp).read() == h:
        return dst
    os.makedirs(GEN, exist_ok=True)
    r = run(["protoc", "-I" + REPO, "--cpp_out=" + GEN,
             "mpact/sim/proto/component_data.proto"])
    if r.returncode != 0:
        print(r.stdout, file=sys.stderr)
        return None
    with open(stamp, "w") as f:
        f.write(h)
    return dst


SHIM_DEC = os.path.join(VERIF, "shim_decoder")
DEC_EXTRA = ["-include", "verif_decoder_prelude.h", "-I" + SHIM_DEC]
GRAMMARS = {
    "BinFormat": "mpact::sim::decoder::bin_format::generated",
    "InstructionSet": "sim::machine_description::instruction_set::generated",
    "ProtoFormat": "mpact::sim::decoder::proto_fmt::generated",
}


def gen_parsers():
    """<Grammar>{Lexer,Parser}.h from /repo's grammars."""
    tool = os.path.join(VERIF, "lib", "miniantlr.py")
    out = os.path.join(GEN, "mpact/sim/decoder")
    os.makedirs(out, exist_ok=True)
    for g, ns in GRAMMARS.items():
        src = os.path.join(REPO, "mpact/sim/decoder", g + ".g4")
        stamp = os.path.join(out, g + ".stamp")
        key = "%s %s" % (file_hash(src), file_hash(tool))
        if os.path.exists(stamp) and open(stamp).read() == key:
            continue
        r = run([sys.executable, tool, src, ns, out])
        if r.returncode != 0:
            raise RuntimeError("cannot generate the parser for %s:\n%s" % (g, r.stdout))
        for n in ("Lexer.h", "Parser.h"):
            _hash_cache.pop(os.path.join(out, g + n), None)
        with open(stamp, "w") as f:
            f.write(key)


def gen_pch(name, text, flags, deps=()):
    """A precompiled header for code compiled while a check runs."""
    d = os.path.join(OUT, "pch")
    os.makedirs(d, exist_ok=True)
    h = os.path.join(d, name + ".h")
    p = os.path.join(d, name + ".pch")
    key = hashlib.sha256(repr((text, flags)).encode())
    for top in [os.path.join(VERIF, "shim")] + list(deps):
        for root, f in sorted((r, f) for r, _, fs in os.walk(top) for f in fs):
            if not f.endswith(".h") and top in deps:
                continue
            key.update((file_hash(os.path.join(root, f)) or "").encode())
    key = key.hexdigest()
    if os.path.exists(p) and os.path.exists(p + ".key") and open(p + ".key").read() == key:
        return p
    with open(h, "w") as f:
        f.write(text)
    r = run([CXX] + flags + ["-x", "c++-header", h, "-o", p + ".new"])
    if r.returncode != 0:
        raise RuntimeError("cannot build %s:\n%s" % (h, r.stdout))
    os.replace(p + ".new", p)
    with open(p + ".key", "w") as f:
        f.write(key)
    return p


def lib_sources(pkgs):
    srcs = []
    for p in pkgs:
        d = os.path.join(REPO, "mpact/sim", p)
        for n in sorted(os.listdir(d)):
            if n.endswith(".cc") and not n.endswith("_main.cc"):
                srcs.append(os.path.join(d, n))
    return srcs


def absl_libs():
    d = "/usr/lib/x86_64-linux-gnu"
    libs = sorted(n for n in os.listdir(d)
                  if n.startswith("libabsl_") and n.endswith(".so")
                  and "test" not in n and "mock" not in n and "pool" not in n
                  and "benchmark" not in n)
    return ["-Wl,--as-needed"] + ["-l" + n[3:-3] for n in libs]


def build(name, sources, pkgs=("generic",), mode="asan", proto=True, extra=(),
          libs=(), lib_files=None):
    """Builds OUT/bin/<name>; returns its path, or raises RuntimeError.

    Sources of /repo's packages go in an archive: one that does not compile
    matters only if the harness needs it.
    """
    lib = lib_sources(pkgs) if lib_files is None else [
        os.path.join(REPO, "mpact/sim", f) for f in lib_files]
    pb = gen_proto() if proto else None
    jobs = [(s, True) for s in sources]
    jobs += [(s, False) for s in lib]
    if pb:
        jobs.append((pb, False))
    logs = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], mode, extra), jobs))
    objs, ar = [], []
    for (src, need), (obj, log) in zip(jobs, res):
        if obj is None:
            logs[src] = log
            if need:
                raise RuntimeError("cannot compile %s:\n%s" % (src, log[-6000:]))
            continue
        (objs if need else ar).append(obj)
    bindir = os.path.join(OUT, "bin", mode)
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, name)
    key = hashlib.sha256()
    for o in objs + ar:
        key.update((o + (file_hash(o) or "")).encode())
    key.update(repr((mode, libs)).encode())
    key = key.hexdigest()
    stamp = exe + ".key"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    arf = exe + ".a"
    if os.path.exists(arf):
        os.remove(arf)
    if ar:
        r = run(["ar", "rcs", arf] + ar)
        if r.returncode != 0:
            raise RuntimeError(r.stdout)
    cmd = [CXX] + MODES[mode] + objs + ([arf] if ar else []) + absl_libs() + \
        ["-lprotobuf", "-lpthread"] + list(libs) + ["-o", exe + ".new"]
    r = run(cmd)
    if r.returncode != 0:
        m = "cannot link %s:\n%s" % (name, r.stdout[-4000:])
        for s, l in logs.items():
            m += "\n(not compiled: %s)\n%s" % (s, l[-3000:])
        raise RuntimeError(m)
    os.replace(exe + ".new", exe)
    with open(stamp, "w") as f:
        f.write(key)
    return exe
