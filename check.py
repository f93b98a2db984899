#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py PROPERTY            decide one property on /repo's working tree
  check.py --setup             build everything the checks use
  check.py --replay FILE       run one recorded violation again

Environment: VERIF_SEED, VERIF_TIER (quick | thorough).
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Anything else: the check itself gave no answer.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
CFG = "--cfg safecurves_vp -Awarnings"
STABLE, NIGHTLY = "stable-x86_64-unknown-linux-gnu", "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"
sys.path.insert(0, VERIF)


class Inconclusive(Exception):
    """The check could not give an answer (never a verdict)."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, errors="replace")


# ---- builds -------------------------------------------------------------

# name -> (crate, toolchain, cargo arguments, RUSTFLAGS, path of the binary)
BUILDS = {
    "checked": ("harness", STABLE, ["--release"], CFG, "release/vpmon"),
    "plain": ("harness", STABLE, ["--profile", "plain"], CFG, "plain/vpmon"),
    "small": ("harness", STABLE, ["--profile", "small"], CFG, "small/vpmon"),
    "debug": ("harness", STABLE, ["--profile", "dbg"], CFG, "dbg/vpmon"),
    "tsan": ("harness", NIGHTLY, ["--profile", "san", "-Zbuild-std", "--target", TRIPLE],
             CFG + " -Zsanitizer=thread", "tsan/%s/san/vpmon" % TRIPLE),
    "asan": ("harness", NIGHTLY, ["--profile", "san", "-Zbuild-std", "--target", TRIPLE],
             CFG + " -Zsanitizer=address", "asan/%s/san/vpmon" % TRIPLE),
    "ct0": ("ct", STABLE, ["--profile", "ct0"], CFG, "ct/ct0/vpct"),
    "ct2": ("ct", STABLE, ["--profile", "ct2"], CFG, "ct/ct2/vpct"),
    "ct3": ("ct", STABLE, ["--profile", "ct3"], CFG, "ct/ct3/vpct"),
    "mock": ("mock", STABLE, ["--release"], CFG, "mock/release/vpmock"),
}


def target_dir(name):
    crate = BUILDS[name][0]
    if name in ("tsan", "asan"):
        return os.path.join(TARGET, name)
    return TARGET if crate == "harness" else os.path.join(TARGET, crate)


def build_env(name):
    crate, tc, args, flags, path = BUILDS[name]
    return {"CARGO_TARGET_DIR": target_dir(name), "RUSTFLAGS": flags, "CARGO_NET_OFFLINE": "true",
            "RUSTUP_TOOLCHAIN": tc, "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
            "CARGO_INCREMENTAL": "0", "HOME": "/root",
            "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin")}


def build(*names):
    """Build the named binaries at the same time; their paths, in order."""
    t0 = time.time()
    locks = []
    try:
        for td in sorted({target_dir(n) for n in names}):
            os.makedirs(td, exist_ok=True)
            locks.append(open(os.path.join(td, ".vp-lock"), "w"))
            fcntl.flock(locks[-1], fcntl.LOCK_EX)
            # Cargo judges staleness by mtime: forget the crate under test, always.
            forget(td)
        with concurrent.futures.ThreadPoolExecutor(len(names)) as pool:
            done = list(pool.map(lambda n: sh(["cargo", "build", "--offline", "--locked"] + BUILDS[n][2], 800,
                                              build_env(n), os.path.join(VERIF, BUILDS[n][0])), names))
    finally:
        for f in locks:
            f.close()
    for n, r in zip(names, done):
        if r.returncode != 0:
            raise Inconclusive("build '%s' failed:\n%s" % (n, r.stderr[-4000:]))
    log("built %s in %.1f s" % (", ".join(names), time.time() - t0))
    return [os.path.join(TARGET, BUILDS[n][4]) for n in names]


def forget(td):
    for root, dirs, files in os.walk(td):
        name = os.path.basename(root)
        if name == ".fingerprint":
            for d in dirs:
                if d.startswith("safecurves-rust-"):
                    p = os.path.join(root, d)
                    for f in os.listdir(p):
                        os.unlink(os.path.join(p, f))
            dirs[:] = []
        elif name == "build":
            # the layout newer versions of cargo use
            if "safecurves-rust" in dirs:
                shutil.rmtree(os.path.join(root, "safecurves-rust"))
            dirs[:] = []


# ---- running a monitor --------------------------------------------------

CRASH = {-4: "SIGILL", -6: "SIGABRT", -7: "SIGBUS", -8: "SIGFPE", -11: "SIGSEGV"}


def run(cmd, timeout, env=None):
    try:
        return sh(cmd, timeout, env)
    except subprocess.TimeoutExpired:
        raise Inconclusive("watchdog: %s ran for over %d s" % (" ".join(cmd[:6]), timeout))


def monitor(binary, prop, seed, tier, extra=(), timeout=800, env=None):
    """Run `vpmon run`; returns its report, violations included."""
    os.makedirs(EVIDENCE, exist_ok=True)
    out = os.path.join(EVIDENCE, ".%s.%s.report" % (prop, os.getpid()))
    r = run([binary, "run", prop, "--tier", tier, "--seed", str(seed), "--out", out] + list(extra), timeout, env)
    if r.returncode in CRASH:
        return {"cases": 0, "checks": 0, "distinct": 0, "distinct_nontrivial": 0, "events": {}, "samples": [],
                "cases_per_configuration": {}, "capped": False,
                "violations": [{"config": "-", "index": 0, "message":
                                "the process running the code under test died of %s: %s" % (CRASH[r.returncode], r.stderr[-600:])}]}
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise Inconclusive("monitor ended with %d: %s" % (r.returncode, (r.stdout + r.stderr)[-3000:]))
    with open(out) as f:
        rep = json.load(f)
    os.unlink(out)
    if (r.returncode == 1) != bool(rep["violations"]):
        raise Inconclusive("monitor exit %d does not fit its report" % r.returncode)
    return rep


def oracle(binary, seed):
    """The reference of the monitors is itself recomputed with Python integers."""
    import refcheck
    r = run([binary, "oracle", str(seed)], 300)
    if r.returncode != 0:
        raise Inconclusive("oracle dump ended with %d: %s" % (r.returncode, r.stderr[-2000:]))
    n, bad = refcheck.check(r.stdout)
    if bad:
        raise Inconclusive("the reference arithmetic of the monitors is wrong: %s" % bad[0])
    return n


# ---- verdicts -----------------------------------------------------------

class Check:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.viol = []      # (signature, message, replay record)
        self.cov = {}
        self.assumptions = []
        self.t0 = time.time()
        self.thorough = tier == "thorough"

    def violation(self, sig, msg, **rec):
        self.viol.append((sig, msg, rec))

    def known(self):
        """Lines "known: property=ID signature=SIG ..." of the committed file."""
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) signature=(\S+)\s*(.*)", l)
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def finish(self):
        known = self.known()
        fresh, seen = [], set()
        for sig, msg, rec in self.viol:
            if sig in known:
                if sig not in seen:
                    log("KNOWN-FINDING: property=%s %s %s" % (self.prop, sig, known[sig]))
                    seen.add(sig)
            else:
                fresh.append((sig, msg, rec))
        self.cov["known_findings_seen"] = len(seen)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        if not fresh and (self.cov.get("evaluations", 0) <= 0 or self.cov.get("distinct_nontrivial", 0) <= 0):
            raise Inconclusive("nothing was observed")
        os.makedirs(EVIDENCE, exist_ok=True)
        p = os.path.join(EVIDENCE, "%s.json" % self.prop)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        if not fresh:
            log("%s held: %d evaluations, %d distinct non-trivial, %.1f s" % (
                self.prop, self.cov["evaluations"], self.cov["distinct_nontrivial"], ev["wall_s"]))
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        for sig, msg, rec in fresh[:6]:
            h = hashlib.sha1((sig + msg).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                json.dump(dict(rec, property=self.prop, seed=self.seed, tier=self.tier, signature=sig,
                               message=msg, how="python3 check.py --replay " + path), f, indent=1)
            log("%s: %s" % (sig, msg[:1500]))
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


RULES = {
    "F": "A case is one randomly generated tuple of operands: residues from ten hostile classes (uniform, small, next to the "
         "modulus, extreme digits / words, runs of bits, single bits, fractions k/2^s, half-populated, sparse), each held in one of "
         "sixteen representations reached through public operations (canonical, sums, differences, negations, single-digit "
         "operations, products, multiples by a digit, hostile bits with a carry or borrow, small values with the largest carries and borrows, values in [modulus, 2^n) and their negations, chains). "
         "Distinct: by residues and stored representation. "
         "Non-trivial: an operand above 40 bits or not stored canonically.",
    "C": "A case is one tuple of points (and scalars) on one of 41 curves (the five named ones, 36 user-defined over all nine fields): "
         "identity, torsion, base point and multiples, random lifts, each in a random projective representation. Distinct: by the "
         "projective coordinates observed. Non-trivial: no operand is the identity.",
    "S": "A case is one run of a protocol (encode and decode a point and its negative; decode a random y; key agreement over encoded "
         "points; the Schnorr equation over encoded points; many points made affine with one inversion) on one of 41 curves. "
         "Distinct: by the projective coordinates and scalars it starts from. Non-trivial: no starting point is the identity.",
}

TRUST = ["the reference arithmetic of the monitors (schoolbook 576-bit integers, affine/projective textbook addition), recomputed on "
         "every run on a sample with Python integers",
         "rustc and the processor execute the crate as compiled; what is observed goes through pack() of the crate, or the "
         "coordinate accessor hook"]


def standard(c):
    """The same monitors on two builds: every check armed, and as users ship it."""
    b, q = build("checked", "plain")
    n = oracle(b, c.seed)
    caps = (300, 260) if c.thorough else (120, 100)
    first = monitor(b, c.prop, c.seed, c.tier, ["--cap", str(caps[0]), "--percent", "70"], 500)
    second = monitor(q, c.prop, c.seed + SHIFT, c.tier, ["--cap", str(caps[1]), "--percent", "60"], 400)
    take(c, merged([("checked", c.seed, first), ("plain", c.seed + SHIFT, second)]), n)


SHIFT = 500009


def merged(reps):
    out = {"cases": 0, "checks": 0, "distinct": 0, "distinct_nontrivial": 0, "events": {}, "samples": [],
           "cases_per_configuration": {}, "capped": False, "violations": [], "builds": {}}
    for name, seed, r in reps:
        for k in ("cases", "checks", "distinct", "distinct_nontrivial"):
            out[k] += r[k]     # the seeds differ, so the cases do
        for d in ("events", "cases_per_configuration"):
            for k, v in r[d].items():
                out[d][k] = out[d].get(k, 0) + v
        out["samples"] += r["samples"][:4]
        out["capped"] |= r["capped"]
        out["violations"] += [dict(v, build=name, seed=seed) for v in r["violations"]]
        out["builds"][name] = {"seed": seed, "cases": r["cases"], "oracle_comparisons": r["checks"], "wall_s": r.get("wall_s")}
    return out


def take(c, rep, n):
    c.cov.update(evaluations=rep["cases"], distinct_nontrivial=rep["distinct_nontrivial"], rule=RULES[c.prop[0]] if c.prop[0] in RULES else "",
                 samples=rep["samples"], oracle_comparisons=rep["checks"], distinct_cases_counted=rep["distinct"],
                 stopped_by_time_cap=rep["capped"], events=rep["events"],
                 cases_per_configuration=rep["cases_per_configuration"], reference_self_checks=n)
    c.assumptions += TRUST
    if "builds" in rep:
        c.cov["builds"] = rep["builds"]
    for v in rep["violations"]:
        c.violation("%s/%s" % (v["config"], re.sub(r"[^A-Za-z0-9]+", "-", v["message"])[:60]),
                    "[%s case %d, %s build] %s" % (v["config"], v["index"], v.get("build", "checked"), v["message"]),
                    kind="case", config=v["config"], index=v["index"], build=v.get("build", "checked"),
                    seed_used=v.get("seed", c.seed))


def k01(c):
    import refcheck
    b, = build("checked")
    r = run([b, "consts"], 300)
    if r.returncode in CRASH or (r.returncode == 101):
        c.violation("crash", "reading the constants ended with %d: %s" % (r.returncode, r.stderr[-800:]), kind="consts")
        c.cov.update(evaluations=1, distinct_nontrivial=1, rule="", samples=[])
        return
    if r.returncode != 0:
        raise Inconclusive("constant dump ended with %d: %s" % (r.returncode, r.stderr[-2000:]))
    facts, bad, samples = refcheck.constants(r.stdout, c.thorough)
    c.cov.update(evaluations=len(facts), distinct_nontrivial=len(set(facts)), exhaustive=True, samples=samples,
                 rule="One evaluation per judged fact: each published constant the crate exposes, as stored and as observed through "
                      "pack(), against the published value and against mathematics (base point on its curve, order prime, in the "
                      "Hasse interval with the cofactor, annihilating the base point in independent arithmetic and in the crate's own). "
                      "The set of constants is finite and every one is judged. Distinct: by constant and fact.")
    c.assumptions += ["published parameters as pinned in refcheck.py", "Miller-Rabin with 64 bases for primality"]
    for sig, msg in bad:
        c.violation(sig, msg, kind="consts")


def g01(c):
    b, = build("checked")
    n = oracle(b, c.seed)
    rep = monitor(b, "G01", c.seed, c.tier, ["--scale", "8"], 400 if not c.thorough else 860)
    take(c, rep, n)
    c.cov["rule"] = ("A unit is a fixed sequence of public calls on one field or curve, identified by its seed and index. Every unit is run "
                     "once in order, then replayed in other orders, in fresh threads, and by eight threads at once (all units in each "
                     "thread, in different orders); every observable result must be the same. Distinct: by unit and result.")
    for v in c.viol:
        v[2]["kind"] = "g01"
    # what is used first in a process must not matter
    cfgs = run([b, "configs"], 60).stdout.split()
    if len(cfgs) != 50:
        raise Inconclusive("expected 50 fields and curves, got %d" % len(cfgs))
    n_units = 24 if c.thorough else 4

    def fresh(job):
        cfg, threads = job
        r = run([b, "fresh", str(c.seed), str(n_units), cfg, str(threads)], 600)
        if r.returncode in CRASH:
            return {("process", cfg, "0"): "died of " + CRASH[r.returncode]}
        if r.returncode != 0:
            raise Inconclusive("fresh process for %s ended with %d: %s" % (cfg, r.returncode, r.stderr[-1500:]))
        return {tuple(l.split()[:3]): l.split()[3] for l in r.stdout.splitlines()}

    jobs = [(x, 1) for x in cfgs] + [(x, 8) for x in (cfgs if c.thorough else cfgs[::4])]
    outs = pool(fresh, jobs)
    ref = outs[0]
    seen = 0
    for (cfg, threads), o in zip(jobs, outs):
        for k in sorted(set(o) | set(ref)):
            seen += 1
            if o.get(k) != ref.get(k) or "/" in o.get(k, ""):
                c.violation("%s@%s" % k[:2], "unit %s on %s (case %s) gave %s in a process that starts with %d thread(s) on %s, and %s in one that "
                            "starts with %s" % (k + (o.get(k), threads, cfg, ref.get(k), jobs[0][0])), kind="g01")
                break
    c.cov["fresh_processes"] = {"processes": len(jobs), "units_in_each": len(ref), "results_compared": seen,
                                "rule": "every field and curve is the first one used in some process; eight threads start together in some"}
    if len(ref) < 60:
        raise Inconclusive("fresh processes ran %d units only" % len(ref))
    # one call right after another on operands that nearly coincide
    def near(job):
        r = run([b, "kin", str(c.seed), "32" if c.thorough else "5", str(job[0]), str(job[1])], 400)
        if r.returncode in CRASH:
            return {("process", "kin", "0", "0"): "died of " + CRASH[r.returncode]}
        if r.returncode != 0:
            raise Inconclusive("kin process ended with %d: %s" % (r.returncode, r.stderr[-1500:]))
        return {tuple(l.split()[:4]): l.split()[4] for l in r.stdout.splitlines()}

    jobs = [(k, 1) for k in range(4)] + [(4, 8)]
    outs = pool(near, jobs)
    seen = 0
    for (order, threads), o in zip(jobs, outs):
        for k in sorted(set(o) | set(outs[0])):
            seen += 1
            if o.get(k) != outs[0].get(k) or "/" in o.get(k, ""):
                c.violation("kin/%s/%s" % k[:2], "%s on %s (family %s, operand %s) gave %s and %s when calls on nearly equal operands were made "
                            "in different orders (%d thread(s))" % (k[1], k[0], k[2], k[3], outs[0].get(k), o.get(k), threads), kind="rerun")
                break
    c.cov["nearly_equal_operands"] = {"processes": len(jobs), "calls": len(outs[0]), "results_compared": seen, "rule": "each call follows each "
                                      "other call of its family, on operands that share all but one bit, one half, the sign or the representation"}
    if len(outs[0]) < 2000:
        raise Inconclusive("only %d calls on nearly equal operands" % len(outs[0]))
    # data races: the concurrent stage again under ThreadSanitizer
    t, = build("tsan")
    logp = os.path.join(EVIDENCE, ".tsan.%d" % os.getpid())
    env = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=0 log_path=%s" % logp}
    rep2 = monitor(t, "G01", c.seed + 1000, "quick", ["--scale", "1", "--rounds", "2"], 400, env)
    # and, in another fresh process, each operation for the first time in all threads
    r = run([t, "kin", str(c.seed + 7), "1", "9", "4"], 400, env)
    if r.returncode in CRASH:
        c.violation("crash/tsan", "the process died of %s when four threads used each operation for the first time: %s" % (
            CRASH[r.returncode], r.stderr[-900:]), kind="rerun")
    elif r.returncode != 0:
        raise Inconclusive("kin process under ThreadSanitizer ended with %d: %s" % (r.returncode, r.stderr[-1500:]))
    c.cov["first_uses_in_four_threads"] = len(r.stdout.splitlines())
    races = []
    for f in sorted(os.listdir(EVIDENCE)):
        if f.startswith(os.path.basename(logp)):
            p = os.path.join(EVIDENCE, f)
            races += re.findall(r"WARNING: ThreadSanitizer:.*?={18}", open(p, errors="replace").read(), re.S)
            os.unlink(p)
    c.cov["thread_sanitizer"] = {"units": rep2["cases"], "checks": rep2["checks"], "events": rep2["events"], "reports": len(races)}
    for x in races[:3]:
        site = re.search(r"/repo/src/\S+", x)
        c.violation("race/" + (site.group(0) if site else "unknown"), "data race: " + x[:1500], kind="g01")
    for v in rep2["violations"]:
        c.violation("tsan/" + v["config"], v["message"], kind="g01")



def c06(c):
    """Secret operands are undefined memory for memcheck: it reports every
    branch and every address computed from them."""
    names = ("ct0", "ct3") + (("ct2",) if c.thorough else ())
    bins = dict(zip(names, build(*names)))
    lst = run([bins["ct0"], "list"], 60).stdout.split()
    if len(lst) < 200:
        raise Inconclusive("case list is incomplete")
    reps = 400 if c.thorough else 48
    res, notes, logs = {}, [], {}
    jobs = []
    for k in bins:
        shards = [[] for _ in range(16)]
        heavy = [x for x in lst if re.search("scalar_mult|sqrt|legendre|invert|divide", x)]
        for n, x in enumerate(heavy + [x for x in lst if x not in heavy]):
            shards[n % 16].append(x)
        jobs += [(k, sh_) for sh_ in shards]

    def work(job):
        k, cases = job
        out, why = {}, {}
        cmd = ["valgrind", "-q", "--error-limit=no", "--num-callers=8", bins[k], "run", str(c.seed), str(reps)] + cases + \
              ["control/branch", "control/lookup", "control/straight"]
        r = run(cmd, 700)
        if r.returncode != 0 or not r.stdout.rstrip().endswith("done"):
            raise Inconclusive("constant-time run of %s ended with %d: %s" % (k, r.returncode, (r.stdout + r.stderr)[-1500:]))
        for m in re.finditer(r"case (\S+) executions (\d+) leaking (\d+) reports (\d+) secret-results (\d+)", r.stdout):
            out[m.group(1)] = tuple(int(x) for x in m.groups()[1:])
        cur = None
        for l in r.stderr.splitlines():
            m = re.match(r"begin (\S+)", l)
            if m:
                cur = m.group(1)
            elif l.startswith("==") and cur:
                why.setdefault(cur, []).append(re.sub(r"^==\d+== ?", "", l))
        for ctl, want in (("branch", True), ("lookup", True), ("straight", False)):
            e, lk, _, sec = out["control/" + ctl]
            if (want and lk != e) or (not want and (lk != 0 or sec != e)):
                raise Inconclusive("positive control %s of %s did not behave: %r" % (ctl, k, out["control/" + ctl]))
        return k, out, why

    for k, out, why in pool(work, jobs):
        for case, v in out.items():
            if not case.startswith("control/"):
                res.setdefault(case, {})[k] = v
                if v[1]:
                    logs[(case, k)] = why.get(case, [])
    total = secret = 0
    nontriv = 0
    for case in lst:
        if case.startswith("control/"):
            continue
        per = res[case]
        total += sum(v[0] for v in per.values())
        secret += sum(v[3] for v in per.values())
        nontriv += any(v[3] > 0 for v in per.values()) * len(per)
        if per["ct0"][1] > 0:
            where = [l.strip() for l in logs[(case, "ct0")][:8]]
            c.violation("leak/" + case, "%s: control flow or an address depends on a secret operand in %d of %d executions "
                        "(optimised build: %d of %d): %s" % (case, per["ct0"][1], per["ct0"][0], per["ct3"][1], per["ct3"][0],
                                                            " | ".join(where)), kind="ct", case=case)
        else:
            for k in per:
                if per[k][1]:
                    notes.append("%s in the %s build only (introduced by the compiler): %s" % (case, k, logs[(case, k)][:4]))
    c.cov.update(evaluations=total, distinct_nontrivial=nontriv, executions_with_a_secret_result=secret,
                 builds={k: "opt-level " + k[2:] for k in bins}, operations=len(res), compiler_introduced=notes,
                 samples=["%s: %s" % (k, res[k]) for k in list(res)[::37]],
                 rule="An evaluation is one execution of one operation on one field or curve under valgrind memcheck with all its "
                      "operands marked undefined (= secret), in an unoptimised and in an optimised build; the monitor counts branches "
                      "and addresses that depend on them. Distinct: by operation, field or curve and build; non-trivial: the result was seen to "
                      "be still secret, i.e. the taint really travelled through. Controls (a branch, a table lookup, straight-line "
                      "code) must be judged correctly in every process.")
    if secret == 0:
        raise Inconclusive("no secret reached any result")
    c.assumptions += ["memcheck propagates definedness through the instructions used (controls checked in every run)",
                      "verdict on the unoptimised build, i.e. the code as written; branches only an optimiser introduced are noted, not judged",
                      "equality tests, random generation, formatting are outside the property; timing of instructions is not observed"]


def pool(f, jobs, n=None):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n or os.cpu_count() or 8) as ex:
        return list(ex.map(f, jobs))


def c08(c):
    b, = build("mock")
    rep = monitor(b, "C08", c.seed, c.tier, [], 860)
    take(c, rep, 0)
    del c.cov["reference_self_checks"], c.cov["cases_per_configuration"]
    c.assumptions[:] = ["the field supplied by the monitor is correct (64- and 128-bit arithmetic on primes below 2^59)", TRUST[1]]
    c.cov["rule"] = ("A case is an addition, a doubling-and-tripling, or a scalar multiplication on one complete Edwards curve over one small prime "
                     "field implemented by the monitor: for primes up to 29 (113 in the thorough tier) every curve, every point, every pair and every "
                     "scalar; above that samples, up to primes of 58 bits, and fields whose bit length is up to 65000 bits above the prime; values are held in randomly chosen representatives of their class. Distinct: by prime, curve and "
                     "operands. Non-trivial: no identity operand, scalar above 1.")
    for v in c.viol:
        v[2]["kind"] = "rerun"


def transcript(binary, seed, n, timeout=500):
    r = run([binary, "transcript", str(seed), str(n)], timeout)
    if r.returncode in CRASH:
        return None, "the process died of %s: %s" % (CRASH[r.returncode], r.stderr[-500:])
    if r.returncode != 0:
        raise Inconclusive("transcript run of %s ended with %d: %s" % (binary, r.returncode, r.stderr[-2000:]))
    out = {}
    for l in r.stdout.splitlines():
        w = l.split()
        out[tuple(w[:3])] = (w[3], len(w) > 4)
    return out, None


def sweep(c, binary, name, seed, permille, budget, timeout=600, env=None):
    """{(property, configuration, from, to): (digest, panic)}, cases, comparisons."""
    r = run([binary, "sweep", str(seed), str(permille), str(budget)], timeout, env)
    if r.returncode in CRASH:
        c.violation("crash/sweep-" + name, "%s build: the process running the workload died of %s: %s" % (
            name, CRASH[r.returncode], r.stderr[-900:]), kind="rerun")
        return None, 0, 0
    if r.returncode != 0:
        raise Inconclusive("sweep in the %s build ended with %d: %s" % (name, r.returncode, r.stderr[-2000:]))
    out, cases, checks = {}, 0, 0
    for l in r.stdout.splitlines():
        w = l.split(" ", 6)
        out[tuple(w[:4])] = (w[4], w[6] if len(w) > 6 else "")
        cases += int(w[3]) - int(w[2])
        checks += int(w[5])
    return out, cases, checks


def g02(c):
    names = ("checked", "plain", "small", "debug")
    bins = dict(zip(names, build(*names)))
    n = 400 if c.thorough else 80
    total, distinct, where = 0, set(), {}
    base = None
    samples = []
    for s in range(3 if c.thorough else 1):
        seed = c.seed + 7919 * s
        base = None
        for k, b in bins.items():
            t, died = transcript(b, seed, n)
            if died:
                c.violation("crash/" + k, "%s build: %s" % (k, died), kind="rerun")
                continue
            total += len(t)
            where[k] = where.get(k, 0) + len(t)
            if base is None:
                base, bname = t, k
                distinct |= {(u, h[0]) for u, h in t.items()}
            for u, (h, bad) in sorted(t.items()):
                if bad:
                    txt = run([b, "unit", u[0], u[1], u[2], str(seed)], 300).stdout
                    c.violation("panic/%s/%s" % (u[0], u[1]), "%s build: the code panicked in unit %s: ...%s" % (k, " ".join(u), txt[-700:]),
                                kind="unit", unit=list(u), seed_used=seed, build=k)
                elif base[u][0] != h:
                    x, y = (run([q, "unit", u[0], u[1], u[2], str(seed)], 300).stdout.splitlines() for q in (bins[bname], b))
                    diff = [(p, q) for p, q in zip(x, y) if p != q][:2]
                    c.violation("differs/%s/%s" % (u[0], u[1]), "unit %s gives different results in the %s and the %s build: %s" % (
                        " ".join(u), bname, k, diff), kind="unit", unit=list(u), seed_used=seed, build=k)
                if len(c.viol) >= 6:
                    break
        if not samples and base:
            u = next(iter(base))
            samples = [run([bins[bname], "unit", u[0], u[1], u[2], str(seed)], 300).stdout.replace("\n", " ")[:900]]
    # the whole monitored workload, chunk by chunk, in the same builds
    swept = {}
    for names, permille, seed in ((("checked", "plain", "small"), 500 if c.thorough else 50, c.seed + 31),
                                  (("debug", "plain"), 40 if c.thorough else 4, c.seed + 37)):
        ref = None
        for k in names:
            t, cases, checks = sweep(c, bins[k], k, seed, permille, 150 if c.thorough else 70)
            if t is None:
                continue
            total += cases
            swept["%s (seed %d)" % (k, seed)] = {"chunks": len(t), "cases": cases, "oracle_comparisons": checks}
            if ref is None:
                ref, rname = t, k
                distinct |= {(u, v[0]) for u, v in t.items()}
            for u in sorted(t):
                if len(c.viol) >= 6:
                    break
                if t[u][1]:
                    c.violation("panic/%s/%s" % u[:2], "%s build: workload %s %s panicked: %s" % (k, u[0], u[1], t[u][1][:900]),
                                kind="sweep", chunk=list(u), seed_used=seed, build=k)
                elif u in ref and not ref[u][1] and ref[u][0] != t[u][0]:
                    x, y = (run([bins[z], "sweepcases", u[0], u[1], str(seed), u[2], u[3]], 600).stdout.splitlines() for z in (rname, k))
                    diff = next(((a, b) for a, b in zip(x, y) if a != b), ("", ""))
                    c.violation("differs/%s/%s" % u[:2], "workload %s %s gives different results in the %s and the %s build: '%s' and '%s'" % (
                        u[0], u[1], rname, k, diff[0][:700], diff[1][:700]), kind="sweep", chunk=list(u), seed_used=seed, build=k)
    c.cov["swept"] = swept
    c.cov.update(evaluations=total, distinct_nontrivial=len(distinct), units_per_build=where, samples=samples,
                 rule="An evaluation is one unit (a sequence covering the public API of a field or curve, including inverses of zero, square "
                      "roots of non-squares, arbitrary packed bytes and off-curve coordinates; or a whole monitored history) executed in one "
                      "build: overflow checks and debug assertions on, plain -O3, size-optimised whole-program, and unoptimised. No build may "
                      "panic, and all must observe identical results. Distinct: by unit and result.")
    c.assumptions += ["one processor architecture (G04 covers others)"]


MIRI = {"host": [], "s390x": ["--target", "s390x-unknown-linux-gnu"], "i686": ["--target", "i686-unknown-linux-gnu"]}


def miri_all(c, targets, rounds, seed, flags=""):
    """Run the small workload of every field and named curve under Miri."""
    env = dict(build_env("tsan"), RUSTFLAGS=CFG + flags, CARGO_TARGET_DIR=os.path.join(TARGET, "mirix" if flags else "miri"),
               MIRIFLAGS="-Zmiri-disable-isolation")
    cwd = os.path.join(VERIF, "harness")
    cfgs = [("curve", x) for x in ("E-521", "Curve41417", "E-382", "Curve1174", "E-222")] + \
           [("field", x) for x in ("e521_1", "e511_187", "e414_17", "e383_187", "e382_105", "e255_19", "e251_9", "e222_117", "e221_3")]
    envs = {}
    for t in targets:
        e = dict(env)
        if t != "host":
            e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
        envs[t] = e
        os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
        with open(os.path.join(env["CARGO_TARGET_DIR"], ".vp-lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            forget(env["CARGO_TARGET_DIR"])
            t0 = time.time()
            r = sh(["cargo", "miri", "run", "--offline", "--locked", "--profile", "san"] + MIRI[t] + ["--", "mini", "field", "e221_3", "1", "0"], 600, e, cwd)
        if r.returncode != 0 or "mini field" not in r.stdout:
            raise Inconclusive("miri build for %s failed: %s" % (t, r.stderr[-3000:]))
        log("built for miri/%s in %.1f s" % (t, time.time() - t0))

    end = time.time() + (330 if c.thorough else 240)

    def work(job):
        t, (kind, cfg) = job
        # however slow the code is, one round of everything, and more while there is time
        left = max(1, int(end - time.time()))
        n = rounds if kind == "field" else max(1, rounds // 3)
        try:
            r = sh(["cargo", "miri", "run", "-q", "--offline", "--locked", "--profile", "san"] + MIRI[t] +
                   ["--", "mini", kind, cfg, str(seed), str(n), str(left)], 700, envs[t], cwd)
        except subprocess.TimeoutExpired:
            raise Inconclusive("watchdog: miri on %s %s %s" % (t, kind, cfg))
        return t, kind, cfg, n, r

    return pool(work, [(t, x) for t in targets for x in cfgs]), cfgs


MINI = re.compile(r"mini (\S+) (\S+) rounds (\d+) checks (\d+) digest (\w+)")


def g03(c):
    rounds = 6 if c.thorough else 2
    res, cfgs = miri_all(c, ["host"], rounds, c.seed)
    n, checks, samples, distinct, rounds_done = 0, 0, [], 0, {}
    for t, kind, cfg, k, r in res:
        m = MINI.search(r.stdout)
        ub = re.search(r"error: Undefined Behavior:[^\n]*(?:\n[^\n]*){0,6}", r.stderr)
        if ub:
            c.violation("ub/" + cfg, "undefined behaviour on %s %s: %s" % (kind, cfg, ub.group(0)), kind="rerun")
        elif r.returncode != 0 or not m:
            raise Inconclusive("miri on %s %s ended with %d: %s" % (kind, cfg, r.returncode, r.stderr[-1500:]))
        else:
            n += int(m.group(3))
            rounds_done["%s %s" % (kind, cfg)] = int(m.group(3))
            distinct += 1
            checks += int(m.group(4))
            samples.append("miri: " + m.group(0))
            if "PANIC" in r.stdout:
                log("note: panics (judged by G02) under miri on %s %s: %s" % (kind, cfg, r.stdout[:300]))
    # the bigger workloads: under AddressSanitizer, and in a build with the
    # precondition checks of the unsafe operations of the standard library armed
    big = {}
    for name, permille, env in (("asan", 160 if c.thorough else 20, {"ASAN_OPTIONS":
                                 "detect_leaks=0:exitcode=86:detect_stack_use_after_return=1:abort_on_error=0"}),
                                ("checked", 300 if c.thorough else 40, {})):
        b, = build(name)
        r = run([b, "sweep", str(c.seed + 41), str(permille), "250" if c.thorough else "100"], 600, env)
        if r.returncode == 86 or "ERROR: AddressSanitizer" in r.stderr:
            c.violation("asan", "memory error in the monitored workload: " + r.stderr[:1800], kind="rerun")
        elif r.returncode in CRASH:
            c.violation("crash/" + name, "the process died of %s in the monitored workload (%s build): %s" % (
                CRASH[r.returncode], name, r.stderr[-900:]), kind="rerun")
        elif r.returncode != 0:
            raise Inconclusive("%s run ended with %d: %s" % (name, r.returncode, r.stderr[-1500:]))
        else:
            ls = [l.split(" ", 6) for l in r.stdout.splitlines()]
            big[name] = {"chunks": len(ls), "cases": sum(int(w[3]) - int(w[2]) for w in ls), "oracle_comparisons": sum(int(w[5]) for w in ls)}
            n += big[name]["cases"]
            distinct += len({w[4] for w in ls})
            samples.append("%s: %s" % (name, " ".join(ls[len(ls) // 2][:6])))
    c.cov.update(evaluations=n, distinct_nontrivial=distinct, miri_rounds=rounds_done, miri_comparisons=checks,
                 native_workloads=big, samples=samples[-10:],
                 rule="An evaluation is one round of the whole-API workload of a field or curve under Miri, or one case of the F and C monitors "
                      "under AddressSanitizer (standard library instrumented as well) or in a build that arms the precondition checks of "
                      "unsafe operations; the sanitizers are the oracle. Distinct and non-trivial: one per configuration under Miri, one per "
                      "chunk of the workload (by digest of what was observed) natively.")
    c.assumptions += ["red-zone and interpreter detection: only errors on executed paths", "results are judged by the other properties"]


def g04(c):
    rounds = 16 if c.thorough else 6
    b, = build("checked")
    # values are what counts here, so let the interpreter run optimised MIR
    res, cfgs = miri_all(c, ["s390x", "i686"], rounds, c.seed + 500,
                         " -Zmir-opt-level=3 -Cdebug-assertions=off -Coverflow-checks=off")
    n, samples, distinct = 0, [], set()
    native = {}
    for t, kind, cfg, k, r in res:
        m = MINI.search(r.stdout)
        k = int(m.group(3)) if m else k
        key = (kind, cfg, k)
        if key not in native:
            q = run([b, "mini", kind, cfg, str(c.seed + 500), str(k)], 300)
            native[key] = MINI.search(q.stdout)
            if not native[key]:
                raise Inconclusive("native run of %s %s ended with %d: %s" % (kind, cfg, q.returncode, q.stderr[-900:]))
        if "Undefined Behavior" not in r.stderr and (r.returncode or not m):
            raise Inconclusive("miri on %s %s %s ended with %d: %s" % (t, kind, cfg, r.returncode, r.stderr[-1500:]))
        a, z = (x.group(0) if x else "no result (undefined behaviour)" for x in (native[key], m))
        n += k
        distinct.add((t, a))
        samples.append("%s: %s" % (t, z))
        if a != z:
            c.violation("platform/%s/%s" % (t, cfg), "%s %s: %s gives '%s', x86_64 gives '%s' %s" % (kind, cfg, t, z, a, (r.stdout + r.stderr)[:400]), kind="rerun")
        elif "VIOLATED" in r.stdout:
            log("note: wrong results on every platform (judged by the F properties): " + r.stdout[:300])
    k, seen = on_wasm(c, b)
    c.cov.update(evaluations=n + k, distinct_nontrivial=len(distinct) + len(seen), samples=samples[:6],
                 platforms={"s390x": "big-endian, 64-bit, under Miri", "i686": "little-endian, 32-bit, under Miri",
                            "wasm32": "little-endian, 32-bit, compiled", "x86_64": "reference, native"},
                 rule="An evaluation is one round of the whole-API workload of one field or named curve interpreted for a foreign platform, or one "
                      "case of the F, C and S monitors compiled for wasm32 and run by node; the digest of everything observed must be that of "
                      "the native run. Distinct: by platform, field or curve and digest (of a round or of a chunk of cases).")
    c.assumptions += ["Miri and node execute foreign targets faithfully"]


def wasm_module():
    """The monitors compiled for wasm32, a 32-bit machine node can run at speed."""
    env = build_env("tsan")
    td, src = os.path.join(TARGET, "wasm"), os.path.join(TARGET, "wasm-std", "library")
    r = sh(["rustc", "--print", "sysroot"], 60, env)
    lib = os.path.join(r.stdout.strip(), "lib/rustlib/src/rust/library")
    # the standard library's allocator for this target is not among the crates
    # cargo has at hand, only among the vendored ones: point there, in a copy
    shutil.rmtree(os.path.dirname(src), ignore_errors=True)
    os.makedirs(os.path.dirname(src))
    r = sh(["cp", "-rs", lib, src], 120)
    if r.returncode != 0:
        raise Inconclusive("no source of the standard library: " + r.stderr[-900:])
    for name in ("Cargo.toml", "Cargo.lock"):
        text = open(os.path.join(lib, name)).read()
        if name == "Cargo.lock":
            v = re.search(r'name = "dlmalloc"\nversion = "([^"]+)"\n', text).group(1)
            text = re.sub(r'(name = "dlmalloc"\nversion = "[^"]+"\n)source = .*\nchecksum = .*\n', r"\1", text)
        os.unlink(os.path.join(src, name))
        with open(os.path.join(src, name), "w") as f:
            f.write(text)
    with open(os.path.join(src, "Cargo.toml")) as f:
        text = f.read()
    text = text.replace("[patch.crates-io]", "[patch.crates-io]\ndlmalloc = { path = 'vendor/dlmalloc-%s' }" % v)
    with open(os.path.join(src, "Cargo.toml"), "w") as f:
        f.write(text.replace("exclude = [", 'exclude = [\n  "vendor",', 1))
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, ".vp-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        forget(td)
        t0 = time.time()
        r = sh(["cargo", "build", "--offline", "--locked", "--release", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown"],
               700, dict(env, CARGO_TARGET_DIR=td, RUSTFLAGS=CFG, __CARGO_TESTS_ONLY_SRC_ROOT=src), os.path.join(VERIF, "wasm"))
    m = os.path.join(td, "wasm32-unknown-unknown/release/vpmon_wasm.wasm")
    if r.returncode != 0 or not os.path.exists(m):
        raise Inconclusive("build for wasm32 failed:\n" + r.stderr[-3000:])
    log("built for wasm32 in %.1f s" % (time.time() - t0))
    return m


def on_wasm(c, native):
    """The monitored workloads on wasm32: every chunk must give the digest it gives natively."""
    m = wasm_module()
    seed, permille, budget = c.seed + 43, "250" if c.thorough else "20", "260" if c.thorough else "80"
    r = run([native, "sweep", str(seed), permille, "100"], 400)
    if r.returncode != 0:
        raise Inconclusive("native sweep ended with %d: %s" % (r.returncode, r.stderr[-1500:]))
    want = {}
    for l in r.stdout.splitlines():
        w = l.split(" ", 6)
        if len(w) == 6:     # where the code gives up natively as well, others judge it
            want[tuple(w[:4])] = w
    jobs = os.path.join(TARGET, "wasm", "jobs")
    keys = sorted(want, key=lambda k: hashlib.sha1(" ".join(k).encode()).hexdigest())
    with open(jobs, "w") as f:
        f.write("".join(" ".join(k) + "\n" for k in keys))

    def slice_(k):
        q = run(["node", os.path.join(VERIF, "wasm", "run.cjs"), m, jobs, str(k), "8", str(seed), budget], 600)
        if q.returncode != 0:
            raise Inconclusive("node ended with %d: %s" % (q.returncode, q.stderr[-1500:]))
        return q.stdout.splitlines()

    cases, chunks, seen, checks = 0, 0, set(), 0
    for l in sum(pool(slice_, range(8)), []):
        w = l.split(" ", 6)
        k = tuple(w[:4])
        chunks += 1
        cases += int(w[3]) - int(w[2])
        seen.add(w[4])
        if w[4] != "TRAP":
            checks += int(w[5])
        elif "/harness/" in l:
            raise Inconclusive("the monitor gave up on wasm32: " + l)
        if w != want[k]:
            c.violation("platform/wasm32/%s" % k[1], "workload %s %s, cases %s to %s: wasm32 gives '%s', x86_64 gives '%s'" % (
                k[0], k[1], k[2], k[3], " ".join(w[4:])[:600], " ".join(want[k][4:])), kind="rerun")
    if not chunks:
        raise Inconclusive("nothing ran on wasm32")
    c.cov["wasm32"] = {"chunks": chunks, "of": len(keys), "cases": cases, "oracle_comparisons": checks}
    return cases, seen


PROPS = {"K01": k01, "G01": g01, "G02": g02, "G03": g03, "G04": g04, "C06": c06, "C08": c08}
for _p in ["F%02d" % i for i in range(1, 15)] + ["C01", "C02", "C03", "C04", "C05", "C07", "S01"]:
    PROPS[_p] = standard


def replay(path):
    rec = json.load(open(path))
    if rec.get("kind") == "case":
        b, = build(rec.get("build", "checked"))
        r = sh([b, "case", rec["property"], rec["config"], str(rec.get("seed_used", rec["seed"])), str(rec["index"])], 600)
        log(r.stdout.strip())
        return r.returncode
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(rec["seed"]), rec["tier"]
    return main([rec["property"]])


def main(args):
    if args[:1] == ["--setup"]:
        # every check rebuilds what it needs; this only shows that it can
        build("checked", "plain", "ct0", "mock")
        return 0
    if args[:1] == ["--replay"]:
        return replay(args[1])
    if len(args) != 1 or args[0] not in PROPS:
        log("usage: check.py PROPERTY | --setup | --replay FILE; properties: " + " ".join(sorted(PROPS)))
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(args[0], seed, "thorough" if tier == "thorough" else "quick")
    try:
        PROPS[args[0]](c)
        return c.finish()
    except Inconclusive as e:
        log("INCONCLUSIVE property=%s %s" % (c.prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
