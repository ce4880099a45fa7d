"""mutate.py LANES PERFILE [SEED]: mutation campaign over scratch copies.

Each lane is a copy of /repo and of committed /verif under /tmp/mut; a mutant
of a file is judged by the checks of the properties anchored there.  Writes
/tmp/mut/log.jsonl.  A development tool: no check uses it.
"""
import json, os, random, re, subprocess, sys, threading, queue, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "mpact/sim/generic/"; D = "mpact/sim/decoder/"; M = "mpact/sim/util/memory/"
FILES = {
 G+"data_buffer.h": ["C01", "C02"], G+"data_buffer.cc": ["C01"], G+"ref_count.h": ["C01"],
 G+"delay_line.h": ["C02"], G+"function_delay_line.h": ["C02"], G+"arch_state.cc": ["C02","C03"],
 G+"register.h": ["C03"], G+"register.cc": ["C03"], G+"state_item.h": ["C03"], G+"state_item_base.cc": ["C03"],
 G+"status_register.h": ["C03"], G+"control_register.h": ["C03"], G+"control_register.cc": ["C03"],
 G+"devnull_operand.h": ["C03"], G+"wrapper_operand.h": ["C03"],
 G+"immediate_operand.h": ["C04"], G+"literal_operand.h": ["C04"],
 G+"fifo.h": ["C05"], G+"fifo.cc": ["C05"], G+"token_fifo.h": ["C05"], G+"token_fifo.cc": ["C05"], G+"fifo_with_notify.h": ["C05"],
 G+"program_error.h": ["C06"], G+"program_error.cc": ["C06"],
 G+"component.h": ["C07"], G+"component.cc": ["C07"], G+"config.h": ["C07"], G+"counters.h": ["C07"], G+"counters_base.h": ["C07"],
 G+"resource_bitset.h": ["C08"], G+"simple_resource.h": ["C08"], G+"simple_resource.cc": ["C08"], G+"simple_resource_operand.h": ["C08"],
 G+"complex_resource.h": ["C09"], G+"complex_resource.cc": ["C09"], G+"complex_resource_operand.h": ["C09"], G+"complex_resource_operand.cc": ["C09"],
 G+"decode_cache.h": ["C10"], G+"decode_cache.cc": ["C10"],
 G+"instruction.h": ["C11"], G+"instruction.cc": ["C11"], G+"instruction_helpers.h": ["C11"],
 G+"action_point_manager_base.h": ["C12"], G+"action_point_manager_base.cc": ["C12"], G+"breakpoint_manager.h": ["C12"], G+"breakpoint_manager.cc": ["C12"],
 G+"type_helpers.h": ["C13"], G+"signed_type.h": ["C13"], G+"variant_helper.h": ["C13","C07"],
 D+"extract.cc": ["C14"], D+"template_expression.cc": ["C15"], D+"template_expression.h": ["C15"],
 D+"format_name.cc": ["C16"], D+"resource.cc": ["C16"], D+"resource.h": ["C16"],
 M+"flat_memory.cc": ["C17"], M+"flat_memory.h": ["C17"], M+"flat_demand_memory.cc": ["C17"], M+"flat_demand_memory.h": ["C17"],
 M+"tagged_flat_demand_memory.cc": ["C18"], M+"tagged_flat_demand_memory.h": ["C18"], M+"tagged_to_untagged_memory_transactor.cc": ["C18", "C24"],
 M+"memory_watcher.cc": ["C19"], M+"tagged_memory_watcher.cc": ["C19"],
 M+"atomic_memory.cc": ["C20"], M+"atomic_tagged_memory.cc": ["C20"],
 M+"single_initiator_router.cc": ["C21"], M+"single_initiator_router.h": ["C21"], M+"memory_router.cc": ["C21"],
 M+"cache.cc": ["C22", "C24"], M+"cache.h": ["C22"],
 M+"memory_use_profiler.cc": ["C23"], M+"memory_use_profiler.h": ["C23"],
}
if os.environ.get("MUT_EXTRA"):
    exec(open(os.environ["MUT_EXTRA"]).read())
SUBS = [
 (r"(?<![<\-])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![>\-])>(?![>=])(?= )", ">="), (r">=", ">"),
 (r"==", "!="), (r"!=", "=="), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"),
 (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[(\s])!(?=\w)", ""), (r"(?<= )<<(?= \w)", ">>"), (r"(?<= )>>(?= )", "<<"),
 (r"(?<= )&(?= )", "|"), (r"(?<= )\|(?= )", "&"), (r"(?<= )\*(?= )", "+"), (r"(?<= )/(?= )", "*"),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
 (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\buint64_t\b", "uint32_t"), (r"\bint64_t\b", "int32_t"),
 (r"\buint32_t\b", "uint16_t"), (r"\bsize_t\b", "uint8_t"),
 (r"\+\+", "--"), (r"\+=", "-="), (r"\|=", "="), (r"&=", "="), (r"(?<=[\w)])\.second\b", ".first"),
 (r"\bIncRef\b", "ref_count"), (r"\bDecRef\b", "ref_count"), (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"),
 (r"\blower_bound\b", "upper_bound"), (r"\bpush_back\b", "emplace_front"), (r"/ 2\b", "/ 3"), (r"\b8\b", "4"), (r"\bnullptr\b", "this"),
]


def mutants(path):
    lines = open("/repo/" + path).read().split("\n")
    out = []
    inc = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "namespace", "using ", "template", "static_assert", "LOG", "<<", "ABSL")):
            continue
        code = l.split("//")[0]
        for rx, rep in SUBS:
            for m in re.finditer(rx, code):
                if code.count('"', 0, m.start()) % 2: continue
                n = code[:m.start()] + rep + code[m.end():]
                if n != l: out.append((i, n))
        if s.endswith(";") and code.count("(") == code.count(")") and code.count("{") == code.count("}") and not re.match(r"(return\b|auto\b|const\b|class\b|struct\b|enum\b|friend\b|virtual\b|explicit\b|private|public|~|[\w:<>,*& ]+\boverride|using\b|break|case)", s) and (i == 0 or re.search(r"[;{}:]\s*(//.*)?$|^\s*//", lines[i-1])):
            out.append((i, re.match(r"\s*", l).group() + ";"))
        m = re.match(r"(\s*(?:\} else )?if \()(.*)(\) (?:\{|return.*|continue;|break;))$", code.rstrip())
        if m:
            out.append((i, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)))
            out.append((i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
    return lines, out


def sh(c, t=None, **kw):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -9, "timeout"


lock = threading.Lock()


def lane(k, q):
    base = "/tmp/mut/%d" % k
    sh("mkdir -p %s && rm -rf %s/verif %s/repo && git clone -q /verif %s/verif && git clone -q /repo %s/repo && mkdir -p %s/build && cp -a /verif/_build/. %s/build/" % ((base,)*7))
    env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_BUILD=base + "/build", VERIF_SEED="1", VERIF_TIER="quick", PBT_SHRINK_S="0")
    while True:
        try: path, i, new, old = q.get_nowait()
        except queue.Empty: return
        p = base + "/repo/" + path
        orig = open("/repo/" + path).read()
        ls = orig.split("\n"); ls[i] = new
        open(p, "w").write("\n".join(ls))
        res = "SURVIVED"; det = ""
        for pid in FILES[path]:
            rc, o = sh("nice -n 5 python3 check.py %s" % pid, 400, cwd=base + "/verif", env=env)
            if rc == 1: res = "killed:" + pid; break
            if rc == 2: res = "nocompile"; det = o[-300:]; break
            if rc != 0: res = "rc%d" % rc; det = o[-300:]
        if res == "nocompile" and "error" not in det: pass
        open(p, "w").write(orig)
        with lock:
            with open("/tmp/mut/log.jsonl", "a") as f:
                f.write(json.dumps({"file": path, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res, "det": det if res.startswith("rc") else ""}) + "\n")


if __name__ == "__main__":
    # --log FILE: do what is not in that log of an earlier run, after its survivors.
    done, again = set(), []
    if "--log" in sys.argv:
        k = sys.argv.index("--log")
        for l in open(sys.argv[k + 1]):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
            if d["res"] == "SURVIVED":
                src = open("/repo/" + d["file"]).read().split("\n")
                for i in sorted(range(len(src)), key=lambda i: abs(i - d["line"] + 1)):
                    if src[i].strip() == d["old"]:
                        again.append((d["file"], i, src[i].replace(d["old"], d["new"]), src[i]))
                        break
        del sys.argv[k:k + 2]
    lanes, per = int(sys.argv[1]), int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    only = sys.argv[4:] 
    os.makedirs("/tmp/mut", exist_ok=True)
    allm = []
    for path in FILES:
        if only and not any(o in path for o in only): continue
        ls, ms = mutants(path)
        rng = random.Random("%d%s" % (seed, path))
        rng.shuffle(ms)
        n = 0
        n = min(len(ms), max(4, min(per, len(ms) // 6)))
        for i, new in ms[:n]:
            allm.append((path, i, new, ls[i]))
    random.Random(seed).shuffle(allm)
    allm = again + [m for m in allm if (m[0], m[1] + 1, m[2].strip()) not in done]
    print(len(allm), "mutants", flush=True)
    q = queue.Queue()
    for m in allm: q.put(m)
    ts = [threading.Thread(target=lane, args=(k, q)) for k in range(lanes)]
    for t in ts: t.start()
    for t in ts: t.join()
    print("finished")
