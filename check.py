#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and decide one property with it.

  check.py <property>          quick or thorough by VERIF_TIER, seed from VERIF_SEED
  check.py --replay FILE       re-execute a replay file
  check.py --build             build every binary (setup)
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIBRA_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")

COMMON = ["src/linear_gkr/prime_field.cpp", "src/linear_gkr/polynomial.cpp"]
STACKS = {
    "linear": (1, ["src/linear_gkr/verifier_fast_track.cpp", "src/linear_gkr/prover_fast_track.cpp"]),
    "traditional": (2, ["src/traditional_gkr/verifier_traditional.cpp", "src/traditional_gkr/prover_clogc.cpp"]),
    "parallel": (4, ["src/linear_gkr/verifier_fast_para_track.cpp", "src/linear_gkr/prover_fast_para_track.cpp"]),
    "zk": (5, ["src/linear_gkr/zk_verifier.cpp", "src/linear_gkr/zk_prover.cpp", "src/VPD/inputvpd.cpp", "src/VPD/vpdR.cpp", "src/VPD/vpd_test.cpp"]),
    "dataparallel": (3, ["src/traditional_gkr/verifier_bc_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp"]),
}
PROGRAM = {"zk": "src/linear_gkr/main_zk.cpp", "parallel": "src/linear_gkr/main_fast_para_track.cpp", "linear": "src/linear_gkr/main_fast_track.cpp", "traditional": "src/traditional_gkr/bclogc.cpp", "dataparallel": "src/traditional_gkr/bc_clogc.cpp"}
MODES = {
    "opt": ["-O2"],
    "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
FLAGS = ["-std=c++11", "-march=native", "-DLIBRA_SIM", "-w"]
LIBS = ["-lgmp", "-lgmpxx", "-ldl"]

ALL3 = ["linear", "traditional", "dataparallel"]
# property -> jobs: (stack, mode, quick runs, thorough runs)
Q, QA, T, TA = 120000, 12000, 10000000, 1000000
def jobs(stacks, q=Q, qa=QA, t=T, ta=TA):
    r = []
    for s in stacks:
        if q: r.append((s, "opt", q, t))
        if qa: r.append((s, "asan", qa, ta))
    return r

REAL = "prover and verifier of the stack, prime_field.cpp, polynomial.cpp, circuit readers (all compiled from /repo)"
CHECKS = {}
def check(pid, jobs, rule, real, stub, assumptions, level="exploration"):
    CHECKS[pid] = dict(jobs=jobs, rule=rule, real=real, stub=stub, assumptions=assumptions, level=level)

exec(open(os.path.join(SIM, "checks.py")).read())


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    return p.returncode, p.stdout


def tree_files():
    r = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), SIM):
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith((".h", ".hpp", ".cpp", ".c", ".inc")):
                    r.append(os.path.join(d, f))
    return sorted(r)


def tree_hash():
    h = hashlib.sha256()
    for f in tree_files():
        h.update(f.encode() + b"\0")
        h.update(hashlib.sha256(open(f, "rb").read()).digest())
    h.update(" ".join(FLAGS + sum(MODES.values(), [])).encode())
    return h.hexdigest()[:20]


def compile_one(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return 0, ""
    tmp = obj + ".tmp%d" % os.getpid()
    rc, out = sh(["clang++"] + flags + ["-c", src, "-o", tmp])
    if rc == 0:
        os.rename(tmp, obj)
    return rc, "%s\n%s" % (src, out)


def build(wanted):
    """wanted: set of (stack, mode). Returns {(stack,mode): path}; exits 2 when the tree does not compile."""
    th = tree_hash()
    d = os.path.join(BUILD, th)
    os.makedirs(d, exist_ok=True)
    for old in os.listdir(BUILD): # builds of other trees
        if old != th:
            subprocess.run(["rm", "-rf", os.path.join(BUILD, old)])
    todo, links = [], []
    for stack, mode in sorted(wanted):
        sid, srcs = STACKS[stack]
        extra = ["-DSTACK=%d" % sid, "-I" + os.path.join(REPO, "include"), "-I" + SIM, '-DREPO_DIR="%s"' % REPO]
        if stack in PROGRAM:
            extra.append('-DPROGRAM="%s"' % os.path.join(REPO, PROGRAM[stack]))
        objs = []
        harness = [os.path.join(SIM, f) for f in HARNESS.get(stack, ["h_gkr.cpp"])]
        sims = harness + [os.path.join(SIM, "core.cpp")] + EXTRA_SRC.get(stack, [])
        for s in sims + [os.path.join(REPO, x) for x in srcs + COMMON_OF.get(stack, COMMON)]:
            per_stack = s in harness
            name = (stack + "-" if per_stack or stack in OWN_OBJS else "") + mode + "-" + re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO if s.startswith(REPO) else VERIF)) + ".o"
            o = os.path.join(d, name)
            objs.append(o)
            fl = FLAGS + MODES[mode] + XFLAGS.get(stack, []) + extra
            if s.startswith(REPO + os.sep):
                fl = fl + REPO_FLAGS.get(stack, [])
            if (s, o, fl) not in todo and o not in [t[1] for t in todo]:
                todo.append((s, o, fl))
        links.append((stack, mode, objs, os.path.join(d, "%s-%s" % (stack, mode))))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, todo))
    bad = [r for r in res if r[0]]
    if bad:
        print("BUILD-ERROR: the working tree does not compile with the simulator")
        for b in bad[:3]:
            print(b[1][:4000])
        sys.exit(2)
    def link(l):
        stack, mode, objs, exe = l
        if os.path.exists(exe):
            return 0, ""
        tmp = exe + ".tmp%d" % os.getpid()
        rc, out = sh(["clang++"] + MODES[mode] + objs + LIBS + LINK.get(stack, []) + ["-o", tmp])
        if rc == 0:
            os.rename(tmp, exe)
        return rc, out
    with ThreadPoolExecutor(8) as ex:
        for rc, out in ex.map(link, links):
            if rc:
                print("BUILD-ERROR: link\n" + out[:4000])
                sys.exit(2)
    return {(s, m): exe for s, m, _, exe in links}


def known_for(pid):
    """finding lines: 'finding: property=<id> class=<class> <text>'"""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3).strip()
    return r


def run_check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    exes = build({(s, m) for s, m, _, _ in c["jobs"]} | {(s, "asan") for s, m, _, _ in c["jobs"] if m == "opt"})
    built = time.time() - t0
    kn = known_for(pid)
    deadline = t0 + (600 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "7200")))
    outs, samples, verdict, vline, unrepro = [], [], 0, None, False
    known_hit = {}
    njobs = len(c["jobs"])
    for k, (stack, mode, q, t) in enumerate(c["jobs"]):
        runs = q if tier == "quick" else t
        left = deadline - time.time()
        budget = max(5.0, left / (njobs - k))
        def go(mode, runs, budget):
            out = os.path.join(BUILD, "out-%s-%d.json" % (pid, os.getpid()))
            cmd = [exes[(stack, mode)], "--prop", pid, "--seed", str(seed + (1000003 if mode == "asan" else 0)), "--runs", str(runs), "--time", "%.0f" % budget,
                   "--out", out, "--replay-dir", REPLAYS, "--workers", str(os.cpu_count() or 8), "--min-time", "25", "--run-timeout", "60"]
            if kn:
                cmd += ["--known", ",".join(kn)]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            print("[%s/%s] %s" % (stack, mode, p.stdout.strip()))
            j = {}
            if os.path.exists(out):
                j = json.load(open(out)); os.unlink(out)
            j["mode"] = mode
            return p.returncode, p.stdout, j
        rc, txt, j = go(mode, runs, budget)
        outs.append(j)
        if rc == 3 and mode == "opt": # a memory error is deterministic under the address sanitizer
            unrepro = True
            rc, txt, j = go("asan", max(2000, runs // 4), max(60, budget))
            outs.append(j)
        for x in j.get("known", []):
            cl, _, detail = re.sub(r"\s+", " ", x).partition(" ")
            known_hit[cl] = detail
        if rc == 1:
            m = re.search(r"^VIOLATION property=\S+ replay=\S+", txt, re.M)
            verdict, vline = 1, m.group(0)
            break
        if rc not in (0, 3):
            print("ERROR: simulator ended with status %d" % rc)
            verdict = 2
            break
        if rc == 3:
            unrepro = True
            if verdict == 0: verdict = 3
        if len(samples) < 4:
            for one in range(2):
                r, o = sh([exes[(stack, mode)], "--prop", pid, "--seed", str(seed), "--one", str(one)])
                samples.append({"stack": stack, "run": one, "seed": seed, "trace": [l.strip()[:300] for l in o.splitlines()[:40]]})
    cnt = {}
    for j in outs:
        for a, b in j.get("counters", {}).items():
            cnt[a] = cnt.get(a, 0) + b
    wall = time.time() - t0
    simwall = sum(j.get("wall_s", 0) for j in outs) or 1e-9
    runs = sum(j.get("runs", 0) for j in outs)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(j.get("distinct_histories", 0) for j in outs),
        "rule": c["rule"],
        "samples": samples or [{"note": "stopped at the first violation", "line": vline}],
        "runs_per_hour": int(runs / simwall * 3600),
        "seeds_per_hour": int(runs / simwall * 3600),
        "simulated_time_s": round(sum(j.get("sim_time_s", 0) for j in outs), 3),
        "distinct_states": sum(j.get("distinct_states", 0) for j in outs),
        "distinct_states_measure": "circuit shape (layer widths, gate-type sets, copies) x environment or attack kind x outcome; summed over jobs",
        "faults_injected": {a[6:]: b for a, b in sorted(cnt.items()) if a.startswith("fault.")},
        "counters": {a: b for a, b in sorted(cnt.items()) if not a.startswith("fault.")},
        "jobs": [{a: j.get(a) for a in ("stack", "mode", "runs", "wall_s", "distinct_histories", "distinct_states", "sim_time_s", "rc")} for j in outs],
        "real_components": c["real"],
        "stub_components": c["stub"],
        "build_s": round(built, 1),
        "known_findings_seen": sorted(known_hit),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": c["assumptions"], "wall_s": round(wall, 2), "violations": 1 if verdict == 1 else 0}
    tmp = os.path.join(EVID, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(EVID, pid + ".json"))
    for cl in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn.get(cl, cl)))
    if verdict == 1:
        print(vline)
    print("%s: %s, %d runs, %.1f s" % (pid, {0: "held on everything explored", 1: "VIOLATED"}.get(verdict, "no answer"), runs, wall))
    return verdict


def replay(path):
    txt = open(path).read()
    stack = re.search(r"^stack (\S+)", txt, re.M).group(1)
    mode = re.search(r"^mode (\S+)", txt, re.M)
    mode = mode.group(1) if mode else "opt"
    exes = build({(stack, mode)})
    return subprocess.call([exes[(stack, mode)], "--replay", path, "-v"])


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:] == ["--build"]:
        want = {(s, m) for c in CHECKS.values() for s, m, _, _ in c["jobs"]}
        try:
            build(want)
        except SystemExit: # what does not compile concerns its own checks only
            for st in sorted({s for s, _ in want}):
                try:
                    build({w for w in want if w[0] == st})
                except SystemExit:
                    print("not built: " + st)
        print("built")
        sys.exit(0)
    sys.exit(run_check(sys.argv[1]))
