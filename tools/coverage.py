#!/usr/bin/env python3
"""Which lines of /repo the workloads of all checks reach together (not a check; prints the lines nobody executes).
usage: coverage.py [PROPERTY...]"""
import concurrent.futures, glob, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check, jobs
check.BUILD = os.environ.get("VERIF_BUILD", "/tmp/covbuild")
cov = ["-fprofile-instr-generate", "-fcoverage-mapping", "-fprofile-update=atomic"]
check.FLAVOURS["cov"] = ["-O1"] + cov
check.LINK["cov"] = []
out = tempfile.mkdtemp(prefix="cov")
work, exes = [], {}
for id, p in jobs.PROPS.items():
    if sys.argv[1:] and id not in sys.argv[1:]: continue
    for j in p["jobs"]("quick"):
        if j["flavour"] != "asan": continue
        u = tuple(p["units"])
        if u not in exes: exes[u] = check.build("cov", list(u))
        work.append((exes[u], j))
def one(w):
    exe, j = w
    env = dict(os.environ, LLVM_PROFILE_FILE=out + "/%p.profraw", **j.get("env", {}))
    d = tempfile.mkdtemp(prefix="covrun")
    try:
        subprocess.run([exe, "--scenario", j["scenario"], "--seed", "1001", "--n", str(max(1, min(j["n"], 20)))], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    except subprocess.TimeoutExpired:
        print("timeout:", j["scenario"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
with concurrent.futures.ThreadPoolExecutor(6) as ex: list(ex.map(one, work))
prof = out + "/all.profdata"
raws = glob.glob(out + "/*.profraw")
subprocess.run(["llvm-profdata-18", "merge", "-o", prof] + raws, check=True)
objs = list(exes.values())
args = [objs[0]] + [a for o in objs[1:] for a in ("-object", o)]
src = sorted(glob.glob(check.REPO + "/*.cpp") + glob.glob(check.REPO + "/values/*.cpp") + glob.glob(check.REPO + "/*.hpp") + glob.glob(check.REPO + "/values/*.hpp"))
print(len(raws), "runs")
print(subprocess.run(["llvm-cov-18", "report", "-instr-profile", prof] + args + src, capture_output=True, text=True).stdout)
txt = subprocess.run(["llvm-cov-18", "show", "-instr-profile", prof] + args + src, capture_output=True, text=True).stdout
f = None
for l in txt.splitlines():
    if l.startswith("/"): f = l
    c = l.split("|")
    if len(c) >= 3 and c[1].strip() == "0": print(f, c[0].strip(), "|".join(c[2:]))
shutil.rmtree(out)
