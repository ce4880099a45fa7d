#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] | --replay FILE | --build-all

Builds the property's harness from /repo's working tree and runs it.
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import build  # noqa: E402
import registry  # noqa: E402

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:"
                    "allocator_may_return_null=1:detect_odr_violation=0:"
                    "max_allocation_size_mb=2048:"
                    "detect_stack_use_after_return=0:symbolize=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1",
    "LC_ALL": "C.UTF-8",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        ok = True
        for pid in sorted(registry.CHECKS):
            t = time.time()
            try:
                registry.build_check(pid)
            except RuntimeError as e:
                print("%s: %s" % (pid, e), file=sys.stderr)
                ok = False
            print("%s built in %.1f s" % (pid, time.time() - t), flush=True)
        return 0 if ok else 2
    env = dict(os.environ)
    env.update(ENV)
    tmp = os.path.join(build.OUT, "tmp")
    os.makedirs(tmp, exist_ok=True)
    if args and args[0] == "--replay":
        path = os.path.abspath(args[1])
        with open(path) as f:
            pid = f.readline().split()[1]
        exe = registry.build_check(pid)
        return subprocess.call([exe, "--property", pid, "--replay", path,
                                "--tmp", tmp, "--known",
                                os.path.join(VERIF, "KNOWN_FINDINGS.txt")],
                               env=env)
    pid = args[0]
    tier = args[1] if len(args) > 1 and args[1] in ("quick", "thorough") else \
        os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit():
        seed = "1"
    t0 = time.time()
    try:
        exe = registry.build_check(pid)
    except RuntimeError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    tb = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    rc = subprocess.call(
        [exe, "--property", pid, "--tier", tier, "--seed", seed, "--out", ev,
         "--replay-dir", os.path.join(VERIF, "evidence", "replays"),
         "--known", os.path.join(VERIF, "KNOWN_FINDINGS.txt"), "--tmp", tmp] +
        [a for a in args[1:] if a not in ("quick", "thorough")],
        env=env)
    if os.path.exists(ev):
        with open(ev) as f:
            d = json.load(f)
        d["coverage"]["build_s"] = round(tb, 1)
        d["wall_s"] = round(time.time() - t0, 2)
        d["assumptions"] = registry.CHECKS[pid].get("assumptions", []) + [
            "absl/log, absl/base/no_destructor.h and (where used) ELFIO, RE2 and "
            "the ANTLR runtime are replaced by stand-ins in /verif/shim."]
        with open(ev, "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")
    return rc


if __name__ == "__main__":
    sys.exit(main())
