#!/usr/bin/env python3
"""check.py ID [quick|thorough]        run the check of one property
   check.py ID replay FILE [san|opt]   re-run one recorded case
Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUTDIR = os.environ.get("VERIF_OUT", VERIF)          # evidence, replays and builds (scratch runs redirect it)
CXX = "clang++-18"
BASE = ["-std=c++17", "-stdlib=libc++", "-w", "-include", f"{VERIF}/engine/scalar_prefix.h",
        f"-I{REPO}", f"-I{VERIF}/engine", "-mavx2"]
FLAVOURS = {
    "opt": ["-O2"],
    "san": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
            "-ftrivial-auto-var-init=pattern"],
    "fuzz": ["-O1", "-g", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all", "-DPBT_FUZZER=1"],
}
# properties about threads: the instrumented build uses the thread sanitizer, and there is no coverage-guided run
THREADED = {"C47"}
TSAN = ["-O1", "-g", "-fsanitize=thread", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]


def flags(pid, fl):
    return TSAN if fl == "san" and pid in THREADED else FLAVOURS[fl]


LINK = {"opt": [], "san": [], "fuzz": ["-l:libstdc++.so.6"]}   # the libFuzzer runtime is built against libstdc++
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:exitcode=99:max_allocation_size_mb=2048:hard_rss_limit_mb=3000:"
                        "allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=0:max_malloc_fill_size=4096",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=98",
           TSAN_OPTIONS="exitcode=96:halt_on_error=1:report_signal_unsafe=0")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_key(pid, flavour):
    h = hashlib.sha256()
    files = [f"{VERIF}/props/{pid}.cpp"] + sorted(glob.glob(f"{VERIF}/engine/*.h"))
    for root, _, names in sorted(os.walk(f"{REPO}/cmmcore")):
        files += [os.path.join(root, n) for n in sorted(names) if n.endswith((".h", ".hpp", ".inl", ".cpp", ".hh"))]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr((BASE, flags(pid, flavour))).encode())
    return h.hexdigest()[:24]


def build(pid, flavours):
    out = {}
    procs = []
    d = f"{OUTDIR}/.build/{pid}"
    os.makedirs(d, exist_ok=True)
    for fl in flavours:
        key = tree_key(pid, fl)
        path = f"{d}/{fl}-{key}"
        out[fl] = path
        if os.path.exists(path):
            continue
        for old in glob.glob(f"{d}/{fl}-*"):
            os.unlink(old)
        cmd = [CXX] + BASE + flags(pid, fl) + [f"{VERIF}/props/{pid}.cpp", "-o", path + ".tmp"] + LINK[fl]
        procs.append((fl, path, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)))
    for fl, path, p in procs:
        o = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            log(o[-6000:])
            log(f"{pid}: the {fl} harness does not build against {REPO}")
            sys.exit(2)
        os.rename(path + ".tmp", path)
    return out


def known(pid):
    f = f"{VERIF}/known_findings.json"
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid and k.get("status") == "open"]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier == "replay":
        fl = sys.argv[4] if len(sys.argv) > 4 else "san"
        b = build(pid, [fl])
        sys.exit(subprocess.run([b[fl], "--replay", sys.argv[3]], env=ENV).returncode)
    if tier not in ("quick", "thorough"):
        log("unknown tier", tier)
        sys.exit(2)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(f"{OUTDIR}/evidence", exist_ok=True)
    os.makedirs(f"{OUTDIR}/replays", exist_ok=True)
    ev_path = f"{OUTDIR}/evidence/{pid}.json"
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    thorough = tier == "thorough"
    bins = build(pid, ["opt", "san"] + (["fuzz"] if thorough and pid not in THREADED else []))
    build_s = time.time() - t0
    spec = subprocess.run([bins["opt"], "--spec"], env=ENV, capture_output=True, text=True).stdout.split()
    _, qc, tc, sdiv = spec
    cases = int(tc if thorough else qc)
    # committed regression inputs (seconds long), including witnesses of repaired defects
    violations, messages, replays, runs = [], [], [], []
    regress = sorted(glob.glob(f"{VERIF}/regress/{pid}/*.replay"))
    n_reg = 0
    for r in regress:
        for fl in ("san", "opt"):
            n_reg += 1
            p = subprocess.run([bins[fl], "--replay", r], env=ENV, capture_output=True, text=True)
            if p.returncode == 1:
                dst = f"{OUTDIR}/replays/{pid}-{os.path.basename(r)}"
                shutil.copy(r, dst)
                violations.append(dst)
                messages.append(p.stdout)
                break
            elif p.returncode != 0:
                log(p.stdout, p.stderr)
                sys.exit(2)
    kf_lines = []
    for k in known(pid):
        w = f"{VERIF}/{k['witness']}"
        p = subprocess.run([bins["san"], "--strict", "--replay", w], env=ENV, capture_output=True, text=True)
        if p.returncode == 1:
            kf_lines.append(f"KNOWN-FINDING: property={pid} {k['id']} {k['what_fails']}")
    wall = 2000 if thorough else 240
    for fl in ("san", "opt"):
        if violations:
            break
        n = cases if fl == "opt" else max(64, cases // int(sdiv))
        js = f"{OUTDIR}/.build/{pid}/{fl}.json"
        if os.path.exists(js):
            os.unlink(js)
        rp = f"{OUTDIR}/replays/{pid}-{fl}-seed{seed}.replay"
        if os.path.exists(rp):
            os.unlink(rp)
        cmd = [bins[fl], "--tag", fl, "--seed", str(seed * 2 + (fl == "san")), "--cases", str(n), "--wall", str(wall),
               "--out", js, "--replay-out", rp] + (["--thorough"] if thorough else [])
        p = subprocess.run(cmd, env=ENV)
        if p.returncode not in (0, 1) or not os.path.exists(js):
            log(f"{pid}: runner ended with {p.returncode}")
            sys.exit(2)
        r = json.load(open(js))
        runs.append(r)
        if r["flaky"]:
            log(f"{pid}: {r['flaky']}")
        if r["violations"]:
            violations.append(rp)
            messages.append(r["message"])
    fuzz = None
    if thorough and not violations and pid not in THREADED:
        fuzz, v, m = run_fuzz(pid, bins, seed)
        violations += v
        messages += m
    ev = evidence(pid, tier, seed, runs, fuzz, violations, messages, n_reg, kf_lines, build_s, time.time() - t0)
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for l in kf_lines:
        print(l)
    if violations:
        for m in messages:
            log(m)
        print(f"VIOLATION property={pid} replay={violations[0]}", flush=True)
        sys.exit(1)
    c = ev["coverage"]
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={c['evaluations']} "
          f"distinct_nontrivial={c['distinct_nontrivial']} wall={ev['wall_s']:.1f}s search={sum(r['search_s'] for r in runs):.1f}s maxcase={max(r['max_case_cpu_ms'] for r in runs):.1f}ms", flush=True)
    sys.exit(0)


def run_fuzz(pid, bins, seed):
    """coverage-guided campaign over the same property: bytes are decoded into the same choices."""
    d = f"{OUTDIR}/.build/{pid}/fuzz"
    shutil.rmtree(d, ignore_errors=True)
    procs = []
    secs = int(os.environ.get("VERIF_FUZZ_SECS", "240"))
    n = min(8, os.cpu_count() or 1)
    for i in range(n):
        c = f"{d}/c{i}"
        os.makedirs(c)
        if i % 2:   # half the jobs start from a few random non-empty inputs, half from nothing
            for k in range(4):
                with open(f"{c}/s{k}", "wb") as f:
                    f.write(hashlib.shake_256(f"{seed}/{i}/{k}".encode()).digest(300 * (k + 1)))
        cmd = [bins["fuzz"], f"-seed={seed * 100 + i + 1}", f"-max_total_time={secs}", "-max_len=3000", "-len_control=20",
               "-timeout=60", "-rss_limit_mb=3000", "-detect_leaks=0", "-print_final_stats=1", f"-artifact_prefix={d}/a{i}-", c]
        env = dict(ENV, PBT_SCRATCH=f"{d}/scratch.{i}")
        procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(f"{d}/log{i}", "wb")))
    runs, v, m = 0, [], []
    for i, p in enumerate(procs):
        p.wait()
        with open(f"{d}/log{i}", "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - 20000))
            txt = f.read().decode(errors="replace")
        for line in txt.splitlines():
            if "number_of_executed_units" in line:
                runs += int(line.split(":")[-1])
    corpus = sum(len(os.listdir(f"{d}/c{i}")) for i in range(n))
    for a in sorted(glob.glob(f"{d}/a*")):
        rp = f"{OUTDIR}/replays/{pid}-fuzz-seed{seed}.replay"
        p = subprocess.run([bins["san"], "--tag", "fuzz", "--seed", str(seed), "--bytes", a, "--replay-out", rp],
                           env=ENV, capture_output=True, text=True)
        if p.returncode == 1:
            v.append(rp)
            m.append(p.stdout)
            break
    res = {"jobs": n, "seconds_each": secs, "executions": runs, "corpus_inputs": corpus,
           "artifacts": len(glob.glob(f"{d}/a*"))}
    shutil.rmtree(d, ignore_errors=True)
    return res, v, m


def evidence(pid, tier, seed, runs, fuzz, violations, messages, n_reg, kf, build_s, wall):
    labels = {}
    for r in runs:
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
    ass = {"mechanism": "float results are compared with tolerances stated in the harness"}
    cov = {
        "evaluations": sum(r["evaluations"] for r in runs),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
        "rule": runs[0]["rule"] if runs else "only the committed regression inputs were run, one of them failed",
        "samples": [s for r in runs for s in r["samples"]][:6] or ["(no sample: the run ended at its first case)"],
        "planned_cases": sum(r["planned"] for r in runs),
        "discarded": sum(r["discarded"] for r in runs),
        "regression_replays": n_reg,
        "classes": labels,
        "per_build": [{k: r[k] for k in ("tag", "evaluations", "planned", "nontrivial", "max_case_cpu_ms", "search_s")} for r in runs],
        "build_s": round(build_s, 2),
        "known_findings_reported": kf,
    }
    if fuzz:
        cov["coverage_guided"] = fuzz
    if messages:
        cov["violation_messages"] = [m[:2000] for m in messages]
    return {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": ["the portable (non-SIMD) code path selected by engine/scalar_prefix.h, the one /opt/vp/build.sh builds",
                            "clang 18 with libc++; reference computations in the harness are themselves correct"],
            "wall_s": round(wall, 2), "violations": len(violations)}


if __name__ == "__main__":
    main()
