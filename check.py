#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py Cxx                      quick or thorough by VERIF_TIER, seed from VERIF_SEED
  check.py Cxx --tier thorough --seed 7 --cases 1000
  check.py --replay replay/FILE     runs the recorded case again

Exit 0: held on everything observed; 1: VIOLATION line printed; 2: no answer (build or harness failure,
or the monitors observed too little).
"""
import argparse, collections, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
NCPU = max(1, min(8, os.cpu_count() or 1))

# (flavour, quick cases, thorough cases, CPU seconds a single case may take; the thorough tier allows five times as much)
PLAN = {
    "C01": [("plain", 4000, 60000, 60)],
    "C02": [("plain", 3600, 60000, 60)],
    "C03": [("plain", 2000, 30000, 60)],
    "C04": [("plain", 5000, 120000, 60)],
    "C05": [("plain", 5000, 100000, 60)],
    "C06": [("plain", 1200, 20000, 60)],
    "C07": [("plain", 2500, 50000, 60)],
    "C08": [("plain", 3500, 40000, 60)],
    "C09": [("plain", 240, 6000, 120), ("tsan", 64, 1600, 150)],
    "C10": [("asan", 216, 5400, 150), ("plain", 108, 3024, 120)],
    "C11": [("plain", 300, 8000, 120), ("zero", 48, 1000, 120), ("pattern", 48, 1000, 120), ("valgrind", 40, 600, 180)],
    "C12": [("plain", 5000, 80000, 60)],
    "C13": [("plain", 2000, 30000, 60)],
    "C14": [("plain", 2400, 40000, 60)],
    "C15": [("plain", 6000, 100000, 60)],
    "C16": [("plain", 3000, 50000, 60)],
    "C17": [("plain", 800, 10000, 120)],
    "C18": [("plain", 30000, 400000, 60)],
    "C19": [("plain", 30000, 400000, 60)],
    "C20": [("plain", 40000, 600000, 60)],
    "C21": [("plain", 3600, 60000, 60)],
    "C22": [("plain", 1600, 30000, 60)],
    "C23": [("plain", 3000, 50000, 60)],
    "C24": [("plain", 5000, 80000, 60)],
    "C25": [("plain", 12000, 200000, 60)],
    "C26": [("plain", 1600, 30000, 60)],
    "C27": [("plain", 3000, 50000, 60)],
    "C28": [("plain", 4000, 80000, 60)],
    "C29": [("plain", 3000, 60000, 60)],
}
# what a run must have observed to count as an answer (counter: least value)
NEED = {
    "C01": {"evaluations_compared": 500, "shortcut_evaluations": 50},
    "C02": {"tangents_compared": 500, "plastic_evaluations": 200, "self_derivatives": 100},
    "C03": {"field_files": 200}, "C04": {"tensors": 200, "single_phase": 20},
    "C05": {"plastic_evaluations": 2000, "intvar_records_plastic": 200},
    "C06": {"plastic_evaluations": 300, "intvar_records_plastic": 100, "tangents_compared": 300},
    "C07": {"discarded_trials": 500, "repeated_commits": 100, "holds": 100, "plastic_evaluations": 500},
    "C08": {"points": 500, "unknown_queries": 300, "plastic_evaluations": 300},
    "C09": {"objects": 200, "threaded_cases": 30, "instance_switches": 300},
    "C10": {"workloads": 100}, "C11": {"results_compared_bitwise": 20000, "files_compared": 500},
    "C12": {"above_tolerance": 300, "below_tolerance": 300, "after_yield": 100},
    "C13": {"solves_recorded": 300, "hostile_converged": 20},
    "C14": {"field_files": 200, "field_files_with_history": 50},
    "C15": {"info_calls": 500, "records_with_plastic_history": 200},
    "C16": {"observations": 500}, "C17": {"constructions": 150, "files_compared": 500},
    "C18": {"entries_compared": 100000}, "C19": {"interior_entries": 10000}, "C20": {"solves": 500, "capped_solves": 200},
    "C21": {"kind_moduli": 50, "kind_lengths": 50, "kind_strain+yield": 50, "kind_mirror": 50, "kind_exchange": 50},
    "C22": {"flags_turned_on": 100, "few_points_plastic": 50}, "C23": {"integration_points_checked": 20000, "yield_checks": 500},
    "C24": {"cells": 10000, "inclusion_cells": 2000}, "C25": {"invariants": 2000, "reported_invariants": 500},
    "C26": {"faults_injected": 300, "files_after_faults": 100, "records_beside_faults": 50},
    "C27": {"hand_solutions": 1000, "hand_plastic": 100, "hand_averages": 2000},
    "C29": {"phase_queries": 5000, "material_queries": 5000, "linearity_yes": 500, "fields_queried": 2000, "residuals": 2000, "residuals_plastic": 200},
    "C28": {"law_plastic": 10000, "gp_stresses": 20000, "element_forces_plastic": 500, "element_matrices": 5000, "element_matrices_plastic": 500},
}
RULE = ("A case is one generated problem (dimension, grid, cell shape, microstructure, materials, tolerance) and one generated call "
        "sequence on the real library, watched by the oracle of the property. evaluations counts cases run; a case is non-trivial when the "
        "oracle compared at least one result of it, and distinct by the recorded signature (grid, phases, material types, kind of workload, what was reached).")
ASSUME = ["the sequences are generated: what was not generated was not observed",
          "results are judged up to the library's own absolute solver tolerances (Newton 1e-5, CG 1e-8, difference step 1e-8) unless compared bit for bit",
          "the reference model in harness/ref.hpp and g++/glibc are trusted"]

CXX = "g++"
COMMON = ["-std=c++17", "-w", "-g", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free",
        "-Wl,--wrap=_Z17ell_solve_cgpd_2DP10ell_solverP10ell_matrixiiiPdS3_,--wrap=_Z21ell_solve_cgpd_structP10ell_solverP10ell_matrixiiiPdS3_,--wrap=_ZN9micropp_t12assembly_rhsEPb"]
FLAVOUR = {  # library flags, harness flags, link flags, with alloc.cpp
    "plain": (["-O2"], ["-O1", "-DMON_COUNT_HEAP"], WRAP, True),
    "asan": (["-O1"] + SAN, ["-O1", "-fsanitize=address"], SAN, False),
    "tsan": (["-O1", "-fsanitize=thread"], ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"], False),
    "zero": (["-O1", "-ftrivial-auto-var-init=zero"], ["-O1"], [], False),
    "pattern": (["-O1", "-ftrivial-auto-var-init=pattern"], ["-O1"], [], False),
    "valgrind": (["-O1"], ["-O1"], [], False),
}


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def sources(repo):
    s = sorted(os.path.join(repo, "src", f) for f in os.listdir(os.path.join(repo, "src")) if f.endswith(".cpp"))
    if not s:
        raise NoAnswer("no sources in %s/src" % repo)
    return s


def digest(repo, flavour):
    h = hashlib.sha256(repr((FLAVOUR[flavour], COMMON)).encode())
    for d in (os.path.join(repo, "src"), os.path.join(repo, "include"), HARNESS):
        for root, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                h.update(os.path.join(root, f).encode())
                with open(os.path.join(root, f), "rb") as g:
                    h.update(g.read())
    return h.hexdigest()[:20]


def build(repo, flavours):
    """one binary per flavour; objects in parallel"""
    out, jobs, dirs = {}, [], {}
    for fl in flavours:
        d = os.path.join(VERIF, "build", fl + "-" + digest(repo, fl))
        exe = os.path.join(d, "mon")
        out[fl] = exe
        if os.path.exists(exe):
            continue
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(dir=d)
        dirs[fl] = (t, exe)
        lib, har, link, alloc = FLAVOUR[fl]
        inc = ["-I" + os.path.join(repo, "include"), "-I" + HARNESS]
        jobs.append((fl, [CXX] + COMMON + har + inc + ["-c", os.path.join(HARNESS, "mon.cpp"), "-o", os.path.join(t, "h_mon.o")]))
        if alloc:
            jobs.append((fl, [CXX] + COMMON + ["-O1", "-c", os.path.join(HARNESS, "alloc.cpp"), "-o", os.path.join(t, "h_alloc.o")]))
        for s in sources(repo):
            jobs.append((fl, [CXX] + COMMON + lib + inc + ["-c", s, "-o", os.path.join(t, "l_" + os.path.basename(s) + ".o")]))
    try:
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for p, (fl, cmd) in zip(ex.map(lambda j: subprocess.run(j[1], capture_output=True, text=True), jobs), jobs):
                if p.returncode:
                    raise NoAnswer("compilation failed: %s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
        for fl, (t, exe) in dirs.items():
            objs = sorted(os.path.join(t, f) for f in os.listdir(t) if f.endswith(".o"))
            p = subprocess.run([CXX] + objs + ["-o", os.path.join(t, "mon")] + FLAVOUR[fl][2] + ["-lpthread"], capture_output=True, text=True)
            if p.returncode:
                raise NoAnswer("link failed\n" + p.stderr[-3000:])
            os.replace(os.path.join(t, "mon"), exe)
    finally:
        for t, _ in dirs.values():
            shutil.rmtree(t, ignore_errors=True)
    return out


def env_for(fl, lsan):
    e = dict(os.environ)
    for k in ("MALLOC_PERTURB_", "LD_PRELOAD"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    if fl == "asan":
        e["ASAN_OPTIONS"] = "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:leak_check_at_exit=0:exitcode=97:allocator_may_return_null=1:detect_leaks=%d" % (1 if lsan else 0)
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        if lsan:
            e["MON_LSAN"] = "1"
    if fl == "valgrind":
        e["MON_ONE_PATTERN"] = "1"
    if fl == "tsan":
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    return e


def command(fl, exe, prop, tier, seed, a, b, work, out, cpu):
    c = [exe, "--prop", prop, "--seed", str(seed), "--from", str(a), "--to", str(b), "--tier", tier, "--work", work, "--out", out, "--cpu", str(cpu)]
    if fl == "valgrind":
        c = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=12"] + c
    return c


def classify(fl, log):
    for pat in (r"ERROR: AddressSanitizer: ([\w-]+)", r"WARNING: ThreadSanitizer: ([\w -]+)", r"runtime error: ([^\n]+)",
                r"(Conditional jump or move depends on uninitialised value|Use of uninitialised value[^\n]*|Invalid (?:read|write)[^\n]*|Syscall param [^\n]*|[^\n]*uninitialised[^\n]*)", r"(Assertion `[^\n]*' failed)", r"(terminate called[^\n]*)"):
        m = re.search(pat, log)
        if m:
            fr = re.search(r"(?:/src/|\(|in \S+ .*?/)([a-z_]+\.cpp:\d+)", log)
            return m.group(1).strip()[:120] + (" at " + fr.group(1) if fr else "")
    return "crash"


class Runner:
    def __init__(self, prop, tier, seed, exes, lsan):
        self.prop, self.tier, self.seed, self.exes, self.lsan = prop, tier, seed, exes, lsan
        self.work = tempfile.mkdtemp(prefix="micropp-%s-" % prop)
        self.stop = threading.Event()
        self.n = 0
        self.lock = threading.Lock()
        self.running, self.cut = set(), set()

    def halt(self):
        """a violation was found: what else is running is no longer needed"""
        with self.lock:
            self.stop.set()
            for p in self.running:
                self.cut.add(p)
                p.kill()

    def once(self, fl, a, b, cpu, prop=None, keep=False):
        with self.lock:
            self.n += 1
            k = self.n
        out = os.path.join(self.work, "o%d.jl" % k)
        work = os.path.join(self.work, "w%d" % k)
        logf = os.path.join(self.work, "l%d.log" % k)
        os.makedirs(work)
        cmd = command(fl, self.exes[fl], prop or self.prop, self.tier, self.seed, a, b, work, out, cpu)
        with open(logf, "wb") as lf:
            with self.lock:
                p = None if self.stop.is_set() and not keep else subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=lf, stdin=subprocess.DEVNULL, cwd=work, env=env_for(fl, self.lsan))
                if p and not keep:
                    self.running.add(p)
            try:
                rc = p.wait(timeout=(3600 if self.tier == "quick" else 40000)) if p else -1001
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -1000
            with self.lock:
                self.running.discard(p)
                if p in self.cut:
                    rc = -1001
        rec = []
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for l in f:
                    try:
                        rec.append(json.loads(l))
                    except ValueError:
                        pass
            os.unlink(out)
        with open(logf, errors="replace") as f:
            log = f.read(200000)
        os.unlink(logf)
        shutil.rmtree(work, ignore_errors=True)
        return rc, rec, log

    def chunk(self, fl, a, b, cpu):
        """all cases of [a,b): list of case records, crashes become violations of their case"""
        res = []
        bad = 0
        while a < b and not self.stop.is_set():
            rc, rec, log = self.once(fl, a, b, cpu)
            done = [r for r in rec if "case" in r]
            res += [dict(r, flavour=fl) for r in done]
            if rc == 0:
                if len(done) != b - a:
                    raise NoAnswer("monitor lost cases: %d of %d" % (len(done), b - a))
                break
            if rc == -1001:
                break
            last = [r["begin"] for r in rec if "begin" in r]
            if rc == 2 or not last:
                raise NoAnswer("monitor failed to run (%d): %s" % (rc, log[-1500:]))
            k = last[-1]
            if rc in (-9, -1000):
                raise NoAnswer("monitor was killed at case %d" % k)
            if rc == 98:
                rc2, rec2, _ = self.once(fl, k, k + 1, cpu * 2)
                if rc2 == 98:
                    res.append(dict(case=k, flavour=fl, evals=1, skip="", cnt={}, worst={}, sigs=[], digest="", viol=[["hang", "an evaluation did not return within %d s of CPU time" % (2 * cpu)]]))
                    bad += 1
                else:
                    res += [dict(r, flavour=fl) for r in rec2 if "case" in r]
            else:
                res.append(dict(case=k, flavour=fl, evals=1, skip="", cnt={}, worst={}, sigs=[], digest="", viol=[[classify(fl, log), ("exit code %d\n" % rc) + log[:3000]]]))
                bad += 1
            a = k + 1
            if bad >= 2:
                break
        if any(r["viol"] for r in res):
            self.halt()
        return res

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known(prop):
    r = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3).strip()))
    return r


def lsan_works(exe):
    e = env_for("asan", True)
    p = subprocess.run([exe, "--lsan-probe"], env=e, capture_output=True)
    return p.returncode == 42


def replay_file(prop, tier, seed, v):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s-s%d-%s-c%d.json" % (prop, tier, seed, v["flavour"], v["case"]))
    with open(f, "w") as g:
        json.dump(dict(property=prop, tier=tier, seed=seed, flavour=v["flavour"], case=v["case"], violations=v["viol"],
                       how="python3 check.py --replay " + f), g, indent=1)
    return f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    repo = os.path.abspath(a.repo)
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.prop, a.tier, a.seed, only = r["property"], r["tier"], r["seed"], (r["flavour"], r["case"])
    prop = a.prop
    if prop not in PLAN:
        raise NoAnswer("unknown property %s" % prop)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    plan = []
    for fl, q, th, cpu in PLAN[prop]:
        n = q if a.tier == "quick" else th
        if a.cases:
            n = min(n, a.cases) if fl != PLAN[prop][0][0] else a.cases
        plan.append((fl, n, cpu if a.tier == "quick" else 5 * cpu))
    if only:
        plan = [p for p in plan if p[0] == only[0]]
    exes = build(repo, [p[0] for p in plan])
    lsan = lsan_works(exes["asan"]) if "asan" in exes else False
    run = Runner(prop, a.tier, a.seed, exes, lsan)
    recs, kf = [], []
    try:
        if only:
            cpu = plan[0][2]
            recs = run.chunk(only[0], only[1], only[1] + 1, cpu)
        else:
            jobs = []
            for fl, n, cpu in plan:
                per = max(1, min(500, n // (NCPU * 6)))
                if fl == "valgrind":
                    per = 1
                for s in range(0, n, per):
                    jobs.append((cpu, fl, s, min(n, s + per)))
            jobs.sort(key=lambda j: -j[0])
            with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                futs = [ex.submit(run.chunk, fl, s, e, cpu) for cpu, fl, s, e in jobs]
                for f in futs:
                    recs += f.result()
            # known findings: fixed inputs outside the generated workload
            for key, what in known(prop):
                rc, kr, log = run.once("plain", 0, 1, 60, prop="K" + prop[1:], keep=True)
                if rc:
                    raise NoAnswer("known-finding input failed to run: %s" % log[-500:])
                got = [v for r in kr if "case" in r for v in r["viol"]]
                if any(v[0] == key for v in got):
                    kf.append(what)
                for v in got:
                    if v[0] != key:
                        recs.append(dict(case=0, flavour="plain", evals=1, skip="", cnt={}, worst={}, sigs=[], digest="", viol=[v]))
    finally:
        run.close()
    cnt, worst, sigs, skips = collections.Counter(), {}, set(), collections.Counter()
    byfl, ev, slow = collections.Counter(), 0, {}
    dig = collections.defaultdict(dict)
    for r in recs:
        byfl[r["flavour"]] += 1
        ev += r["evals"]
        slow[r["flavour"]] = max(slow.get(r["flavour"], 0), r.get("cpu", 0))
        cnt.update(r["cnt"])
        for k, w in r["worst"].items():
            worst[k] = max(worst.get(k, 0), w)
        if r["evals"] > 0:
            sigs.update(r["sigs"])
        if r["skip"]:
            skips[r["skip"]] += 1
        if r["digest"]:
            dig[r["case"]][r["flavour"]] = r["digest"]
    viol = [r for r in recs if r["viol"]]
    # the automatic variables of the library filled with zeros or with a pattern: same results
    npair = 0
    for k in sorted(dig):
        d = dig[k]
        if "zero" in d and "pattern" in d:
            npair += 1
            if d["zero"] != d["pattern"]:
                viol.append(dict(case=k, flavour="pattern", viol=[["stack-fill", "results of the case depend on what automatic variables hold before they are set"]]))
    if npair:
        cnt["stack_fill_pairs"] = npair
    ns, nu = cnt.get("newton_solves", 0), cnt.get("newton_unconverged", 0)
    if nu > max(6, 0.01 * ns):
        c = [r for r in recs if r["cnt"].get("newton_unconverged")]
        viol.append(dict(case=c[0]["case"], flavour=c[0]["flavour"], viol=[["newton-unconverged", "%d of %d solves that the reference resolves were left unconverged" % (nu, ns)]]))
    for w in kf:
        say("KNOWN-FINDING: property=%s %s" % (prop, w))
    if not a.replay and not a.no_evidence:
        samples = [dict(flavour=r["flavour"], case=r["case"], comparisons=r["evals"], situation=r["sigs"][:3], observed=r["cnt"]) for r in recs if r["evals"] and r["sigs"]][:5]
        cov = dict(evaluations=len(recs), distinct_nontrivial=len(sigs), rule=RULE, samples=samples, oracle_comparisons=ev, cases_by_build=dict(byfl),
                   observed=dict(cnt), undecided_cases=dict(skips), slowest_case_cpu_s=slow, largest_error_over_tolerance={k: round(v, 6) for k, v in worst.items()}, known_findings_seen=kf)
        if "asan" in byfl:
            cov["leak_sanitizer_usable"] = lsan
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(dict(property=prop, tier=a.tier, seed=a.seed, level="fault_enumeration" if prop == "C26" else "exploration", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol)), f, indent=1)
    say("%s %s seed %d: %d cases (%s), %d comparisons, %d distinct situations, undecided %s, %.1f s" % (prop, a.tier, a.seed, len(recs), ", ".join("%s %d" % p for p in byfl.items()), ev, len(sigs), dict(skips), time.time() - t0))
    if viol:
        for v in viol[:3]:
            for key, msg in v["viol"][:3]:
                say("  case %d (%s) %s: %s" % (v["case"], v["flavour"], key, msg[:1500]))
        if a.replay:
            f = a.replay
        else:
            f = replay_file(prop, a.tier, a.seed, viol[0])
        say("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if not a.replay and not a.cases:
        miss = {k: (cnt.get(k, 0), n) for k, n in NEED.get(prop, {}).items() if cnt.get(k, 0) < n}
        if any(k.endswith("_not_offered") for k in cnt):  # C27, C28: the class has no such calls (any more)
            miss = {}
        if miss or ev == 0 or len(sigs) < 2:
            raise NoAnswer("observed too little: %s" % miss)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        say("NO-ANSWER: %s" % e)
        sys.exit(2)
