#!/usr/bin/env python3
"""check.py <PROPERTY> | --setup | --replay FILE

Builds /repo's current sources with sanitizers together with the harness in
src/, runs the scenarios of the property (jobs.py), judges what the monitors
observed, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CXX = "clang++"
COMMON = ["-std=gnu++17", "-g1", "-fno-omit-frame-pointer", "-pthread", "-w", "-I" + REPO, "-I" + os.path.join(HERE, "src")]
FLAVOURS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "vg": ["-O1"],           # run under valgrind's memcheck
    "fuzz": ["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"],
}
LINK = {"asan": [], "tsan": [], "vg": [], "fuzz": ["-fsanitize=fuzzer"]}

class HarnessError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def lib_sources():
    return sorted(glob.glob(REPO + "/*.cpp")) + sorted(glob.glob(REPO + "/values/*.cpp"))

def build(flavour, units):
    """returns the path of the executable made of the library and src/<units>.cpp"""
    flags = COMMON + FLAVOURS[flavour]
    hdrs = sorted(glob.glob(REPO + "/*.hpp") + glob.glob(REPO + "/values/*.hpp"))
    hh = sha(*[p.replace(REPO, "") .encode() + read(p) for p in hdrs])
    vh = sha(*[read(p) for p in sorted(glob.glob(HERE + "/src/*.hpp"))])
    syms = os.path.join(HERE, "redefine.syms")
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    jobs, objs = [], []
    for src in lib_sources():
        o = os.path.join(out, "lib-%s-%s.o" % (os.path.basename(src)[:-4], sha(" ".join(flags), hh, read(src), read(syms))))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, o, True))
    # The I/O layer stays invisible to TSan: its bookkeeping must not order the library's threads.
    # (last in the link, so that its copies of inline functions are not the ones that are kept)
    for u in sorted(units, key=lambda u: u == "iol"):
        src = os.path.join(HERE, "src", u + ".cpp")
        uf = COMMON + ["-O1", "-DVF_TSAN"] if flavour == "tsan" and u == "iol" else flags
        o = os.path.join(out, "vf-%s-%s.o" % (u, sha(" ".join(uf), hh, vh, read(src))))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, o, False))
    def one(j):
        src, o, lib = j
        tmp = o + ".%d.tmp" % os.getpid()
        uf = COMMON + ["-O1", "-DVF_TSAN"] if flavour == "tsan" and src.endswith("/src/iol.cpp") else flags
        r = subprocess.run([CXX] + uf + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("compiling %s failed:\n%s" % (src, r.stderr[-3000:]))
        if lib:
            r = subprocess.run(["objcopy", "--redefine-syms=" + syms, tmp], capture_output=True, text=True)
            if r.returncode:
                raise HarnessError("objcopy failed: " + r.stderr)
        os.rename(tmp, o)
    with concurrent.futures.ThreadPoolExecutor(max(4, os.cpu_count() or 4)) as ex:
        list(ex.map(one, jobs))
    exe = os.path.join(out, "h-" + sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + LINK[flavour] + objs + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("linking failed:\n" + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe

# ---------------------------------------------------------------- sanitizer reports
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+?):(\d+)(?::\d+)?(?:\s|$)|#\d+ (.+?) (\S+?):(\d+)(?::\d+)? \(")
def frames(text):
    r = []
    for m in FRAME.finditer(text):
        fn, path = (m.group(1), m.group(2)) if m.group(1) else (m.group(4), m.group(5))
        r.append((re.sub(r"\(.*", "", fn), path))
    return r
def is_lib(path):
    return path.startswith(REPO + "/")
def is_user(path):
    return is_lib(path) or path.startswith(HERE + "/src/") and not path.endswith("/iol.cpp")
def short(fn):
    return fn.replace("DowowNetwork::", "")

def asan_key(log):
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", log)
    lib = [short(f) for f, p in frames(log) if is_lib(p)]
    if m:
        return "asan:%s:%s" % (m.group(2), lib[0] if lib else "?")
    m = re.search(r"runtime error: (.*)", log)
    if m:
        return "ubsan:%s:%s" % (re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:60], lib[0] if lib else "?")
    return None

def tsan_reports(log):
    """(key, text) of each report that involves the library"""
    out = []
    for block in re.split(r"^={10,}$", log, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: (.+?)(?: \(pid=\d+\))?$", block, re.M)
        if not m:
            continue
        kind = m.group(1).strip()
        # Closing an eventfd after its wake-up was received is not ordered, for TSan, with the write
        # that sent it; the discipline of descriptors is judged by R01 from the calls themselves.
        if re.search(r"Location is file descriptor", block):
            continue
        stacks, cur = [], None
        for line in block.splitlines():
            if re.match(r"\s*#\d+", line):
                if cur is not None:
                    cur.append(line)
            elif line.strip():
                cur = []
                stacks.append((line.strip(), cur))
        tops = []
        for head, lines in stacks:
            if not re.search(r"(Read|Write|read|write|Atomic|atomic|Previous|acquired|double lock|unlock|destroy)", head):
                continue
            # the access is the library's if its innermost frame of ours is (and not, say, a handler of the harness)
            user = [(short(f), p) for f, p in frames("\n".join(lines)) if is_user(p)]
            tops.append(user[0][0] if user and is_lib(user[0][1]) else "-")
        if all(t == "-" for t in tops):
            continue
        out.append(("tsan:%s:%s" % (kind, "|".join(sorted(set(tops[:2])))), block.strip()[:6000]))
    return out

def vg_reports(log):
    """(key, text) of each report of memcheck below the library or the harness (what the library returned and the harness judged)"""
    out = []
    for block in re.split(r"^==\d+== *$", log, flags=re.M):
        lines = [re.sub(r"^==\d+== ?", "", l) for l in block.splitlines() if re.match(r"==\d+==", l)]
        st = [re.match(r"\s+(?:at|by) 0x[0-9A-F]+: (.+?) \((?:in )?(.+?)(?::(\d+))?\)$", l) for l in lines]
        if not lines or not any(st):
            continue
        # memcheck prints base names only: the library's functions are known by their namespace
        first = next((m.group(1) for m in st if m and (m.group(1).startswith("DowowNetwork::") or re.match(r"(s_\w+|vf|sc)\.[ch]pp$", os.path.basename(m.group(2))))), None)
        if first is None:
            continue
        kind = re.sub(r"0x[0-9A-F]+|\b\d+\b", "N", next(l for l, m in zip(lines, st) if not m).strip())[:70]
        out.append(("vg:%s:%s" % (kind, short(re.sub(r"\(.*", "", first))), "\n".join(lines)[:6000]))
    return out

# ---------------------------------------------------------------- running
class Run:
    pass

def run_job(exe, job, seed, limit):
    r = Run()
    r.job, r.seed = job, seed
    r.viol, r.incon, r.res, r.fdv = [], [], None, []
    tmp = tempfile.mkdtemp(prefix="vfrun")
    env = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
    lp = os.path.join(tmp, "san")
    env["ASAN_OPTIONS"] = "log_path=%s:detect_leaks=1:exitcode=66:abort_on_error=0:handle_abort=0:allocator_may_return_null=0:strict_string_checks=1:check_initialization_order=1:print_stats=0:malloc_context_size=12" % lp
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=%s" % lp
    env["LSAN_OPTIONS"] = "exitcode=0:print_suppressions=0"
    env["TSAN_OPTIONS"] = "log_path=%s:halt_on_error=0:exitcode=0:history_size=4:io_sync=0:second_deadlock_stack=1:detect_deadlocks=%d:report_signal_unsafe=0:die_after_fork=0" % (lp, 1 if job.get("deadlocks") else 0)
    env["TMPDIR"] = "/tmp"
    cmd = [exe, "--scenario", job["scenario"], "--seed", str(seed), "--n", str(job["n"]), "--limit", str(limit)]
    if job.get("rest"):
        cmd += ["--rest", "1"]
    if job["flavour"] == "vg":
        cmd = ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--num-callers=25", "--fair-sched=yes", "--track-origins=no",
               "--error-limit=no", "--log-file=%s.%%p" % lp] + cmd
    r.cmd = cmd
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmp, start_new_session=True)
        try:
            out, err = p.communicate(timeout=limit + 60)
            timed = False
        except subprocess.TimeoutExpired:
            timed = True
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        r.wall = time.time() - t0
        r.rc = p.returncode
        r.err = err.decode("latin-1")[-4000:]
        log = "".join(read(f).decode("latin-1") for f in sorted(glob.glob(lp + "*")))
        for line in out.decode("latin-1").splitlines():
            if line.startswith("RESULT "):
                r.res = json.loads(line[7:])
        if r.res:
            for v in r.res["violations"]:
                r.viol.append((v["key"], v["text"] + ("\n" + log[:6000] if v["key"].startswith("leak:") else "")))
            r.incon += r.res["inconclusive"]
            r.fdv = r.res["fd_violations"]
        if job["flavour"] == "tsan":
            seen = set()
            for k, t in tsan_reports(log):
                if k not in seen:
                    seen.add(k)
                    r.viol.append((k, t))
        if job["flavour"] == "vg":
            seen = set()
            for k, t in vg_reports(log):
                if k not in seen:
                    seen.add(k)
                    r.viol.append((k, t))
        if not r.res:
            k = asan_key(log)
            if k:
                r.viol.append((k, log[:8000]))
            elif timed:
                r.incon.append("no result within %d s" % (limit + 60))
            elif r.rc == -signal.SIGKILL:
                r.incon.append("killed (out of memory?)")
            elif r.rc is not None and r.rc < 0:
                r.viol.append(("crash:" + signal.Signals(-r.rc).name, (r.err + "\n" + log)[:8000]))
            elif r.rc == 66:
                r.viol.append(("asan:unparsed", log[:8000]))
            else:
                raise HarnessError("%s ended with %s and no result: %s %s" % (" ".join(cmd), r.rc, r.err, log[:2000]))
        elif r.rc not in (0, 1, 3) and job["flavour"] != "tsan":
            raise HarnessError("%s ended with %s: %s" % (" ".join(cmd), r.rc, r.err))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        # scratch directories of a killed process
    return r

def cleanup_scratch():
    now = time.time()
    for d in glob.glob("/tmp/vf??????"):
        try:
            if now - os.stat(d).st_mtime > 3600:
                shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass

def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)

def known_match(known, prop, scenario, key):
    for k in known["findings"]:
        if k["property"] == prop and k["scenario"] == scenario and re.fullmatch(k["key"], key):
            return k
    return None

def main():
    import jobs as J
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    spec = J.PROPS[prop]
    t0 = time.time()
    cleanup_scratch()
    joblist = [dict(j, rest=True) if spec.get("fds") else j for j in spec["jobs"](tier)]
    known = load_known()
    exes = {}
    for fl in sorted({j["flavour"] for j in joblist}):
        exes[fl] = build(fl, spec["units"])
    tb = time.time() - t0
    todo = []
    for j in joblist:
        for i in range(j["runs"]):
            todo.append((j, seed0 * 1000 + 1 + i))
    limit = spec.get("limit", 120 if tier == "quick" else 600)
    workers = spec.get("workers", 8)
    stop = threading.Event()
    results, failures, knownhits, notes = [], [], {}, []
    lock = threading.Lock()
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "100000"))
    skipped = [0]

    def judge(r):
        bad = []
        for key, text in r.viol:
            if key.startswith("tsan:") and not spec.get("races"):
                continue
            if spec.get("only") and r.job["scenario"] not in spec.get("own", ()) and not re.match(spec["only"], key):
                continue
            k = known_match(known, prop, r.job["scenario"], key)
            if k:
                knownhits[k["id"]] = k
            else:
                bad.append((key, text))
        if spec.get("fds"):
            for v in r.fdv:
                k = known_match(known, prop, r.job["scenario"], "fd:" + v)
                if k:
                    knownhits[k["id"]] = k
                else:
                    bad.append(("fd:" + v, v))
        return bad

    def work(item):
        j, seed = item
        if stop.is_set():
            return
        if time.time() - t0 > budget:
            skipped[0] += 1
            return
        for attempt in (0, 1):
            r = run_job(exes[j["flavour"]], j, seed, limit)
            bad = judge(r)
            if bad:
                with lock:
                    failures.append((r, bad))
                stop.set()
                break
            if not r.incon:
                break
            with lock:
                notes.append("%s seed %d: %s" % (j["scenario"], seed, "; ".join(r.incon)[:300]))
            if r.res and r.res["evaluations"]:
                break
        with lock:
            results.append(r)

    err = None
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(work, t) for t in todo]
        for f in futs:
            try:
                f.result()
            except HarnessError as e:
                err = err or e
                stop.set()
    evals = sum(r.res["evaluations"] for r in results if r.res)
    hashes = set()
    extra_distinct = 0
    counts, samples, per = {}, [], {}
    for r in results:
        if not r.res:
            continue
        hs = r.res["hashes"]
        hashes.update((r.job["scenario"], h) for h in hs)
        for k, v in r.res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for s in r.res["samples"]:
            if len(samples) < 8:
                samples.append("%s seed %d: %s" % (r.job["scenario"], r.seed, s))
        p = per.setdefault(r.job["scenario"] + "/" + r.job["flavour"], {"runs": 0, "evaluations": 0, "wall_s": 0})
        p["runs"] += 1; p["evaluations"] += r.res["evaluations"]; p["wall_s"] = round(p["wall_s"] + r.wall, 1)
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
            "samples": samples or ["(none)"], "observed": dict(sorted(counts.items())), "scenarios": per,
            "inconclusive": notes[:20], "skipped_for_time": skipped[0], "known_findings_seen": sorted(knownhits),
        },
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(knownhits.values(), key=lambda k: k["id"]):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if failures:
        r, bad = failures[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, sha(r.job["scenario"], r.seed, bad[0][0])[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "scenario": r.job["scenario"], "flavour": r.job["flavour"], "seed": r.seed, "n": r.job["n"],
                       "units": spec["units"], "violations": [{"key": k, "text": t} for k, t in bad], "stderr": r.err,
                       "how": "python3 %s/check.py --replay %s" % (HERE, path)}, f, indent=1)
        for k, t in bad[:3]:
            print("%s (%s seed %d): %s\n%s" % (prop, r.job["scenario"], r.seed, k, t[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if err:
        print("HARNESS ERROR: %s" % err, file=sys.stderr)
        return 2
    if evals == 0:
        print("HARNESS ERROR: nothing was observed: %s" % notes[:3], file=sys.stderr)
        return 2
    print("%s: held on %d evaluations (%d distinct), %d runs, %.1f s (build %.1f s)%s" %
          (prop, evals, len(hashes), len(results), time.time() - t0, tb, ", inconclusive runs: %d" % len(notes) if notes else ""))
    return 0

def setup():
    import jobs as J
    done = set()
    for p, spec in J.PROPS.items():
        for fl in sorted({j["flavour"] for j in spec["jobs"]("quick")}):
            k = (fl, tuple(spec["units"]))
            if k not in done:
                done.add(k)
                build(fl, spec["units"])
    print("built %d executables" % len(done))
    return 0

def replay(path):
    d = json.load(open(path))
    exe = build(d["flavour"], d["units"])
    for i in range(5):
        r = run_job(exe, {"scenario": d["scenario"], "flavour": d["flavour"], "n": d["n"], "rest": d["property"] == "R01"}, d["seed"], 300)
        print("attempt %d: %s" % (i, [k for k, _ in r.viol] + r.fdv + r.incon or "no violation"))
        for k, t in r.viol[:3]:
            print(k, t[:3000])
        if r.viol or r.fdv:
            return 1
    return 0

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    try:
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main())
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
