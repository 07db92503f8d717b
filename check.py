#!/usr/bin/env python3
"""Driver: builds /repo's current tree with the simulator, runs the seeded search,
gates, minimises and reports violations, replays known findings, writes evidence.

  check.py PROP [quick|thorough]     run a check (exit 0 / exit 1 + VIOLATION line)
  check.py replay FILE               run one trace in a fresh process
  check.py determinism [PROP...]     event-log hashes across processes and job counts
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, HERE)
from table import CHECKS, SIM_REAL

JOBS = max(1, min(8, os.cpu_count() or 1))
WARN = ["-w"]
ENV = dict(os.environ)
for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "CFLAGS", "LDFLAGS", "CPPFLAGS", "LD_PRELOAD"):
    ENV.pop(k, None)
ENV["LC_ALL"] = "C"


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    raise SystemExit(code)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", env=ENV, **kw)


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        die("building: " + what)
    return r


# ---------------------------------------------------------------- building

FLAVOUR = {
    "seq": "-g -fno-omit-frame-pointer -fsanitize=address",
    "conc": "-g -fno-omit-frame-pointer -fsanitize=thread -fno-builtin",
}
# What an uninitialised local variable holds, and the optimiser's level, are part of the simulated environment:
# the runs of the last quarter of every batch execute in the second build.
VARIANT = {
    "pattern": "-O1 -ftrivial-auto-var-init=pattern",
    "zero": "-O2 -ftrivial-auto-var-init=zero",
}
PARTS = 8


def variant_of(run, chunk):
    return "zero" if run // chunk >= PARTS * 3 // 4 else "pattern"


def build(props, work):
    """Returns {prop: {variant: binary}}."""
    out = {p: {} for p in props}
    jobs = [(f, v) for f in ("seq", "conc") for v in VARIANT if any(CHECKS[p]["flavour"] == f for p in props)]
    with ThreadPoolExecutor(len(jobs)) as ex:
        for fut in [ex.submit(build_one, props, work, f, v, out) for f, v in jobs]:
            fut.result()
    return out


def build_one(props, work, flavour, variant, out):
    mine = [p for p in props if CHECKS[p]["flavour"] == flavour]
    cflags = FLAVOUR[flavour] + " " + VARIANT[variant]
    bdir = os.path.join(work, flavour + "-" + variant)
    lib = os.path.join(bdir, "libbfdev.a")
    # the code generators run at build time and must not be instrumented for the simulator
    cfg = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DBFDEV_STRICT=OFF", "-DBFDEV_EXAMPLES=OFF",
           "-DBFDEV_TESTSUITE=OFF", "-DBFDEV_ASAN=OFF", "-DBFDEV_UBSAN=OFF", "-DBFDEV_GCOV=OFF",
           "-DCMAKE_C_FLAGS=" + cflags + " -w"]
    must(cfg, "cmake configure")
    must(["ninja", "-C", bdir, "bfdev_static"], "library (%s)" % flavour)
    inc = ["-I" + os.path.join(HERE, "sim"), "-I%s/include" % REPO, "-I%s/generated" % bdir,
           "-I%s/arch/generic/include" % REPO]
    hflags = ["-std=gnu11"] + WARN + cflags.split()
    plain = [f for f in hflags if not f.startswith("-fsanitize") and f != "-fno-builtin"]
    core = ["core.c"] + (["conc.c"] if flavour == "conc" else [])
    srcs = sorted({s for p in mine for s in CHECKS[p]["src"]})

    def cc(src):
        obj = os.path.join(bdir, "h_" + src[:-2] + ".o")
        # the simulator core and the coroutine runtime are never instrumented themselves
        flags = hflags if flavour == "seq" or src not in core else plain
        must(["gcc"] + flags + inc + ["-c", os.path.join(HERE, "sim", src), "-o", obj], src)
        return obj
    with ThreadPoolExecutor(JOBS) as ex:
        objs = dict(zip(core + srcs, ex.map(cc, core + srcs)))
    reg = os.path.join(bdir, "reg.c")
    names = []
    for s in srcs:
        text = open(os.path.join(HERE, "sim", s)).read()
        names += re.findall(r"^const sim_workload (\w+)\s*=", text, re.M)
    with open(reg, "w") as f:
        f.write('#include "sim.h"\n')
        for n in names:
            f.write("extern const sim_workload %s;\n" % n)
        f.write("const sim_workload *const sim_workloads[] = { %s NULL };\n" % "".join("&%s, " % n for n in names))
    exe = os.path.join(work, "sim_%s_%s" % (flavour, variant))
    link = ["gcc"] + (["-fsanitize=address"] if flavour == "seq" else []) + \
           ["-Wl,--wrap=rand", "-w"] + inc + [reg] + list(objs.values()) + ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lm", "-o", exe]
    if flavour == "conc":
        link.insert(1, "-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove")
    must(link, "link " + bdir)
    for p in mine:
        out[p][variant] = exe


# ---------------------------------------------------------------- traces

def trace_variant(path):
    """The build a trace is to be executed in: its first line says so."""
    m = re.match(r"# build=(\w+)", open(path, encoding="latin-1").readline())
    return m.group(1) if m else "pattern"


def load_trace(path):
    """The last run of the file; runs before it are kept verbatim in the head."""
    head, cfg, ops = [], {}, []
    lines = open(path).read().splitlines(True)
    last = max(i for i, l in enumerate(lines) if l.startswith("workload "))
    head += lines[:last]
    for line in lines[last:]:
        if line.startswith("cfg "):
            f = line.split()
            cfg[int(f[1])] = (int(f[2]), line.split("#")[1].strip() if "#" in line else "")
        elif line.startswith("op "):
            f = line.split("#")
            ops.append(([int(x) for x in f[0].split()[1:]], f[1].strip() if len(f) > 1 else ""))
        else:
            head.append(line)
    return head, cfg, ops


def dump_trace(t, path):
    head, cfg, ops = t
    with open(path, "w") as f:
        f.writelines(head)
        for i in sorted(cfg):
            f.write("cfg %d %d # %s\n" % (i, cfg[i][0], cfg[i][1]))
        for v, n in ops:
            f.write("op %s # %s\n" % (" ".join(map(str, v)), n))


def run_trace(exe, path, timeout=200):
    """-> (class or None, hash, msg, output); class 'error:..' if the harness itself failed"""
    try:
        r = subprocess.run([exe, "exec", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=ENV, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return "error:timeout", "", "", ""
    out = r.stdout.decode("latin-1")
    m = re.search(r"SIM-RESULT violation prop=\S+ run=\S+ class=(\S+) hash=(\S+) msg=(.*)", out)
    if m:
        return m.group(1), m.group(2), m.group(3), out
    m = re.search(r"SIM-RESULT ok hash=(\S+)", out)
    if m and r.returncode == 0:
        return None, m.group(1), "", out
    return "error:exit%d" % r.returncode, "", "", out


def minimise(exe, trace, cls, work, budget=60.0):
    t0 = time.time()
    tmp = os.path.join(work, "min.trace")
    head, cfg, ops = trace
    tried = 0

    def fails(c, o):
        nonlocal tried
        tried += 1
        dump_trace((head, c, o), tmp)
        return run_trace(exe, tmp)[0] == cls

    def left():
        return time.time() - t0 < budget
    # drop operations (ddmin)
    n = 2
    while len(ops) > 1 and left():
        size = max(1, len(ops) // n)
        hit = False
        i = 0
        while i < len(ops) and left():
            cand = ops[:i] + ops[i + size:]
            if cand and fails(cfg, cand):
                ops = cand
                hit = True
            else:
                i += size
        if hit:
            n = max(2, n // 2) if size > 1 else n
            continue
        if size == 1:
            break
        n = min(len(ops), n * 2)
    # drop faults, shrink arguments and configuration
    for i in range(len(ops)):
        v, nm = ops[i]
        for j in [len(v) - 2] + list(range(1, len(v))):
            if not left():
                break
            if j == len(v) - 2:
                cands = [-1]
                if v[j] == -1:
                    continue
            elif j == len(v) - 1:
                cands = [0] if v[len(v) - 2] == -1 else [1]
            else:
                cands = [0, 1, v[j] // 2] if abs(v[j]) > 3 else [0, 1]
            for c in cands:
                if c == v[j] or abs(c) > abs(v[j]) and j != len(v) - 2:
                    continue
                w = list(v)
                w[j] = c
                if fails(cfg, ops[:i] + [(w, nm)] + ops[i + 1:]):
                    v = w
                    ops[i] = (v, nm)
                    break
    for k in list(cfg):
        for c in (0, 1, cfg[k][0] // 2):
            if left() and abs(c) < abs(cfg[k][0]):
                alt = dict(cfg)
                alt[k] = (c, cfg[k][1])
                if fails(alt, ops):
                    cfg = alt
                    break
    return (head, cfg, ops), tried


# ---------------------------------------------------------------- one check

def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop and k["status"] == "known"]


def run_check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, ".build"))
    try:
        return _run_check(prop, tier, seed, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run_check(prop, tier, seed, spec, work, t0):
    exes = build([prop], work)[prop]
    t_build = time.time() - t0
    kf_lines = []
    for k in known_findings(prop):
        kt = os.path.join(HERE, k["trace"])
        exe = exes[trace_variant(kt)]
        cls, h, msg, out = run_trace(exe, kt)
        if cls == k["class"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            kf_lines.append(k["id"])
        elif cls is None:
            print("NOTE known finding %s of %s no longer reproduces" % (k["id"], prop), flush=True)
        elif cls.startswith("error:"):
            die("known-finding replay failed: " + cls)
        else:
            return report(prop, tier, seed, exe, work, kt, None, t0)
    runs = spec[tier]
    limit = spec.get("limit_" + tier, 240 if tier == "quick" else 7200)
    chunk = (runs + PARTS - 1) // PARTS
    t1 = time.time()
    procs = []
    for w in range(PARTS):
        exe = exes[variant_of(w * chunk, chunk)]
        pre = os.path.join(work, "w%d" % w)
        cmd = [exe, "run", prop, str(seed), str(w * chunk), str(chunk), "1" if tier == "thorough" else "0", "0", pre, str(limit)]
        log = open(pre + ".log", "wb")
        procs.append((w, pre, subprocess.Popen(cmd, stdout=log, stderr=log, env=ENV, cwd=work)))
    viols, errors = [], []
    for w, pre, p in procs:
        try:
            p.wait(timeout=limit + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            errors.append("worker %d stuck" % w)
            continue
        out = open(pre + ".log", "rb").read().decode("latin-1")
        m = re.search(r"SIM-RESULT violation prop=\S+ run=(-?\d+) class=(\S+) hash=(\S+) msg=(.*)", out)
        if m:
            viols.append((int(m.group(1)), m.group(2), m.group(4)))
        elif p.returncode != 0 or "SIM-RESULT ok" not in out:
            sys.stdout.write(out[-3000:])
            errors.append("worker %d exited %d" % (w, p.returncode))
    search_s = time.time() - t1
    stats, faults, probes = {}, {}, {}
    hashes, nontrivial = set(), set()
    cov = bytearray()
    for w, pre, p in procs:
        if not os.path.exists(pre + ".stats"):
            continue
        for line in open(pre + ".stats"):
            k, v = line.rsplit(" ", 1)
            d = faults if k.startswith("fault.") else probes if k.startswith("probe.") else stats
            k = k.split(".", 1)[1] if d is not stats else k
            d[k] = d.get(k, 0) + int(v)
        data = open(pre + ".hashes", "rb").read()
        for h, f in struct.iter_unpack("QQ", data):
            hashes.add(h)
            if f:
                nontrivial.add(h)
        c = open(pre + ".cov", "rb").read()
        if not cov:
            cov = int.from_bytes(c, "little")
        else:
            cov |= int.from_bytes(c, "little")
    states = bin(cov).count("1") if cov else 0
    done = stats.get("runs", 0)
    sample = subprocess.run([exes["pattern"], "gen", prop, str(seed), "0", "1" if tier == "thorough" else "0", "1"],
                            stdout=subprocess.PIPE, env=ENV).stdout.decode("latin-1").splitlines()
    violation = None
    if errors and not viols:
        die("; ".join(errors))
    if viols:
        violation = settle(prop, tier, seed, exes, work, chunk, sorted(viols))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(nontrivial),
            "rule": "One evaluation is one simulated run: a trace (configuration, operations, fault windows"
                    + (", preemption schedule" if spec["flavour"] == "conc" else "") +
                    ") drawn from one PRNG seeded by VERIF_SEED and the run index, executed against the real code with its "
                    "reference model. A run is non-trivial when at least one injected fault or adverse event fired inside "
                    "it; distinct by the hash of its complete event log.",
            "samples": sample[:60],
            "distinct_event_logs": len(hashes),
            "distinct_states": states,
            "distinct_states_measure": spec.get("measure", "abstract state after each operation (model size, capacity or "
                                               "shape of the structure, operation kind, fault fired), hashed into a 2^23-bit map"),
            "operations": stats.get("ops", 0),
            "fault_injecting_runs": stats.get("fault_runs", 0),
            "fault_free_runs": stats.get("fault_free_runs", 0),
            "faults_fired": faults,
            "rare_condition_probes": probes,
            "simulated_time_s": stats.get("simns", 0) / 1e9,
            "search_s": round(search_s, 2), "build_s": round(t_build, 2),
            "runs_per_hour": int(done / search_s * 3600) if search_s else 0,
            "seeds_per_hour": int(done / search_s * 3600) if search_s else 0,
            "components_real": spec.get("real", SIM_REAL),
            "components_stubbed": spec.get("stub", "none"),
            "known_findings_reproduced": kf_lines,
        },
        "assumptions": spec.get("assume", []) + ["sampled, not exhaustive: a clean batch is evidence, not proof"],
        "wall_s": round(time.time() - t0, 2), "violations": 0,
    }
    if violation:
        return report(prop, tier, seed, exes[trace_variant(violation[0])], work, violation[0], violation[1], t0, ev)
    write_evidence(prop, ev)
    print("OK property=%s tier=%s runs=%d distinct_nontrivial=%d states=%d faults=%d wall=%.1fs" %
          (prop, tier, done, len(nontrivial), states, sum(faults.values()), time.time() - t0))
    return 0


def write_evidence(prop, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def settle(prop, tier, seed, exes, work, chunk, viols):
    """Pick the violation to report: the first whose trace reproduces identically in fresh processes; else the
    first that does so together with the runs before it (state the library keeps between runs); else one that
    violates the property in every execution although its event log differs (undefined behaviour in the code)."""
    trace = os.path.join(work, "v.trace")

    def gen(first, count):
        variant = variant_of(first, chunk)
        g = subprocess.run([exes[variant], "gen", prop, str(seed), str(first), "1" if tier == "thorough" else "0", "0", str(count)],
                           stdout=subprocess.PIPE, env=ENV)
        return "# build=%s\n" % variant + g.stdout.decode("latin-1")

    def twice(text):
        open(trace, "w", encoding="latin-1").write(text)
        exe = exes[trace_variant(trace)]
        a, b = run_trace(exe, trace), run_trace(exe, trace)
        bad = a[0] and b[0] and not a[0].startswith("error:") and not b[0].startswith("error:")
        return bool(bad), bool(bad) and a[:2] == b[:2]
    unstable = None
    for run, cls, msg in viols:
        text = gen(run, 1)
        bad, same = twice(text)
        if same:
            return trace, run
        if bad and unstable is None:
            unstable = (text, run)
    for run, cls, msg in viols:
        back, start = 1, run - run % chunk
        while unstable is None and run > start:
            first = max(start, run - back)
            bad, same = twice(gen(first, run - first + 1))
            if same:
                head, *parts = gen(first, run - first + 1).split("# VERIF_SEED=")
                parts = ["# VERIF_SEED=" + x for x in parts]
                before, this, t1, n = parts[:-1], parts[-1], time.time(), 2
                while before and time.time() - t1 < 60:    # drop earlier runs that are not needed
                    size, i, hit = max(1, len(before) // n), 0, False
                    while i < len(before) and time.time() - t1 < 60:
                        cand = before[:i] + before[i + size:]
                        if twice(head + "".join(cand) + this)[1]:
                            before, hit = cand, True
                        else:
                            i += size
                    if size == 1 and not hit:
                        break
                    n = 2 if hit else min(len(before), n * 2) or 1
                twice(head + "".join(before) + this)
                print("the violation needs %d earlier run(s) in the same process" % len(before))
                return trace, run
            if first == start:
                break
            back *= 4
    if unstable:
        open(trace, "w", encoding="latin-1").write(unstable[0])
        return trace, unstable[1]
    die("violation of %s (run %s, %s) did not reproduce in fresh processes" % (prop, viols[0][0], viols[0][1]), 3)


def report(prop, tier, seed, exe, work, trace, run, t0, ev=None):
    """Gate (same trace twice, fresh processes), minimise, replay the minimised file twice."""
    a = run_trace(exe, trace)
    b = run_trace(exe, trace)
    if a[0] is None or b[0] is None or a[0].startswith("error:") or b[0].startswith("error:"):
        sys.stdout.write(a[3][-2000:])
        die("violation of %s (run %s) did not reproduce identically: %s %s / %s %s" % (prop, run, a[0], a[1], b[0], b[1]), 3)
    if a[:2] != b[:2]:
        print("NOTE the property is violated in every execution, but the event logs differ: the code's behaviour here is undefined")
    small, tried = minimise(exe, load_trace(trace), a[0], work)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s.trace" % (prop, a[1]))
    dump_trace(small, path)
    c = run_trace(exe, path)
    d = run_trace(exe, path)
    if c[0] != a[0] or c[:2] != d[:2]:
        dump_trace(load_trace(trace), path)
        c = a
    print("violation class=%s run=%s VERIF_SEED=%s event-log=%s" % (c[0], run, seed, c[1]))
    print("  " + c[2])
    tail = [l for l in c[3].splitlines() if l.strip() and "SIM-RESULT" not in l]
    for l in tail[:14]:
        print("  | " + l[:200])
    print("  minimised to %d operation(s) in %d executions:" % (len(load_trace(path)[2]), tried))
    for l in open(path).read().splitlines()[:40]:
        print("    " + l)
    if ev is None:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "known-finding replay changed behaviour", "samples": []},
              "assumptions": []}
    ev["violations"] = 1
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["coverage"]["violation"] = {"class": c[0], "message": c[2], "replay": path, "run": run}
    write_evidence(prop, ev)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 64
    if argv[1] == "replay":
        prop = None
        for line in open(argv[2]):
            if line.startswith("workload "):
                prop = line.split()[1]
        os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
        work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(HERE, ".build"))
        try:
            exe = build([prop], work)[prop][trace_variant(argv[2])]
            cls, h, msg, out = run_trace(exe, os.path.abspath(argv[2]))
            sys.stdout.write(out)
            print("class=%s hash=%s" % (cls, h))
            return 0 if cls is None else 1 if not cls.startswith("error:") else 3
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if argv[1] == "determinism":
        return determinism(argv[2:] or sorted(CHECKS))
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in CHECKS:
        die("unknown property " + prop)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check(prop, tier, seed)


def determinism(props):
    """Every run's event-log hash must not depend on the process, on what ran before it
    in the same process, or on how many processes run at once."""
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="det-", dir=os.path.join(HERE, ".build"))
    bad = 0
    try:
        exes = build(props, work)
        for p in props:
            for seed in range(1, 6):
                n = 240

                def part(variant, a, c):
                    r = subprocess.run([exes[p][variant], "hash", p, str(seed), str(a), str(c), "0"], stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, env=ENV)
                    return [l for l in r.stdout.decode("latin-1").splitlines() if re.match(r"\d+ [0-9a-f]{16}$", l)]
                logs = {}
                for v in VARIANT:
                    whole = logs[v] = part(v, 0, n)
                    with ThreadPoolExecutor(8) as ex:
                        pieces = sum(ex.map(lambda k: part(v, k * 10, 10), range(n // 10)), [])
                    ok = whole == pieces and len(whole) == n
                    # what a program does may not depend on what it left uninitialised (where preemption points
                    # are memory accesses, the optimiser moves them and the logs differ legitimately)
                    if CHECKS[p]["flavour"] == "seq" and whole != logs["pattern"]:
                        ok, pieces = False, logs["pattern"]
                    bad += not ok
                    if not ok:
                        diff = [(a, b) for a, b in zip(whole, pieces) if a != b][:3]
                        print("%s seed %d %s: DIFFERS %s (%d/%d lines)" % (p, seed, v, diff, len(whole), len(pieces)))
            print("%s: %s" % (p, "event logs identical" if not bad else "see above"), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
